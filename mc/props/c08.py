"""C08: the FFT layer computes the transforms it documents."""
import numpy as np, itertools
from pixell import fft, utils
from ..core import chunked

RULE   = "every engine x transform x array shape x axis list x dtype x memory layout x output-array choice x thread count; reference: explicit Fourier/cosine/sine sums written out as matrices"
BOUNDS = "axis lengths 1..9 (thorough 1..17), up to 3 dimensions, all axis subsets in every order (signs mixed), float32/float64/complex64/complex128/int inputs, C/F/strided/reversed layouts; NUFFT grids up to 6x5 with up to 24 points; fft_len for all n up to 200 (2000)"
ASSUME = ["engines other than numpy and ducc are not installed here","unsorted axes in the NUFFTs, zero-size arrays and DCT-I of length 1 are outside the claim"]

def dftmat(n, sign): k = np.arange(n); return np.exp(sign*2j*np.pi*np.outer(k,k)/n)
def apply(mat, a, ax): return np.moveaxis(np.tensordot(mat, a, (1,ax)), 0, ax)
def ref_fft(a, axes, sign=-1):
	a = np.asarray(a).astype(complex)
	for ax in axes: a = apply(dftmat(a.shape[ax],sign), a, ax)
	return a
def dctmat(kind, n):
	"""FFTW's definitions of the r2r transforms"""
	j = np.arange(n)[None]*1.0; k = np.arange(n)[:,None]*1.0
	if kind == "DCT-I":
		m = 2*np.cos(np.pi*j*k/(n-1)); m[:,0] = 1; m[:,-1] = (-1.0)**k[:,0]; return m
	if kind == "DCT-II":  return 2*np.cos(np.pi*(j+0.5)*k/n)
	if kind == "DCT-III": m = 2*np.cos(np.pi*j*(k+0.5)/n); m[:,0] = 1; return m
	if kind == "DCT-IV":  return 2*np.cos(np.pi*(j+0.5)*(k+0.5)/n)
	if kind == "DST-I":   return 2*np.sin(np.pi*(j+1)*(k+1)/(n+1))
	if kind == "DST-II":  return 2*np.sin(np.pi*(j+0.5)*(k+1)/n)
	if kind == "DST-III": m = 2*np.sin(np.pi*(j+1)*(k+0.5)/n); m[:,-1] = (-1.0)**k[:,0]; return m
	if kind == "DST-IV":  return 2*np.sin(np.pi*(j+0.5)*(k+0.5)/n)
KINDS = ["DCT-I","DCT-II","DCT-III","DCT-IV","DST-I","DST-II","DST-III","DST-IV"]
RAW   = {"DCT-I":"FFTW_REDFT00","DCT-II":"FFTW_REDFT10","DCT-III":"FFTW_REDFT01","DCT-IV":"FFTW_REDFT11","DST-I":"FFTW_RODFT00","DST-II":"FFTW_RODFT10","DST-III":"FFTW_RODFT01","DST-IV":"FFTW_RODFT11"}

def data(shape, dtype, seed=0):
	n = int(np.prod(shape)); i = np.arange(n)+seed*3.7
	x = np.cos(1.3*i*i+0.2)+0.1*np.sin(i)
	if np.issubdtype(dtype, np.complexfloating): x = x + 1j*np.sin(0.7*i*i+0.9)
	if np.issubdtype(dtype, np.integer): x = np.round(x*10)
	return x.reshape(shape).astype(dtype)
def layouts(a):
	yield "C", a.copy()
	if a.ndim > 1: yield "F", np.asfortranarray(a)
	b = np.zeros(tuple(2*n for n in a.shape), a.dtype); v = b[tuple(slice(None,None,2) for n in a.shape)]; v[...] = a
	yield "strided", v
	r = a[...,::-1].copy(); yield "reversed", r[...,::-1]
def tol(dt): return 2e-5 if np.dtype(dt).char in "fF" else 1e-11
def axlists(nd):
	out = [None, -1, 0]
	for k in range(1,nd+1):
		for p in itertools.permutations(range(nd),k):
			out.append(list(p)); out.append(tuple(a-nd if i%2==0 else a for i,a in enumerate(p)))
	return out
def norm_axes(axes, nd): return tuple(a % nd for a in ((-1,) if axes is None else (axes,) if isinstance(axes,int) else axes))

def unit_fft(ctx, items):
	for eng, shape in items:
		nd = len(shape)
		for axes in axlists(nd):
			na = norm_axes(axes, nd); N = np.prod([shape[a] for a in na])
			for dt in (np.float64,np.complex128,np.float32,np.complex64) if ctx.thorough or np.prod(shape) < 10 else (np.float64,np.complex128,np.float32):
				a0 = data(shape, dt); cdt = np.result_type(dt, np.complex64); rdt = np.zeros(0,cdt).real.dtype
				F = ref_fft(a0, na, -1); B = ref_fft(a0, na, +1); t = tol(dt)*N**0.5*3
				with ctx.case("fft", engine=eng, shape=shape, axes=axes, dtype=np.dtype(dt).name):
					for lay, a in layouts(a0):
						for nth in (0,1,3) if lay == "C" else (1,):
							got = fft.fft(a, axes=axes, nthread=nth, engine=eng)
							ctx.close(got, F, rtol=t, atol=t, msg="fft %s" % lay); ctx.eq(got.dtype, cdt, "dtype")
							ctx.eq(a, a0, "input unchanged")
						out = np.full(shape, 7, cdt)
						got = fft.fft(a if np.iscomplexobj(a) else a.astype(cdt), out, axes=axes, engine=eng)
						ctx.check(got is out, "output array returned"); ctx.close(out, F, rtol=t, atol=t, msg="fft into out")
						got = fft.ifft(a, axes=axes, engine=eng); ctx.close(got, B, rtol=t, atol=t, msg="ifft")
						got = fft.ifft(a, axes=axes, normalize=True, engine=eng); ctx.close(got, B/N, rtol=t, atol=t, msg="normalized ifft"); ctx.eq(a, a0, "input unchanged")
						if lay == "C":
							rt = fft.ifft(fft.fft(a, axes=axes, engine=eng), axes=axes, normalize=True, engine=eng)
							ctx.close(rt, a0, rtol=t, atol=t, msg="round trip")
				if np.iscomplexobj(a0): continue
				R = np.moveaxis(np.moveaxis(F,na[-1],0)[:shape[na[-1]]//2+1],0,na[-1])
				with ctx.case("rfft", engine=eng, shape=shape, axes=axes, dtype=np.dtype(dt).name):
					for lay, a in layouts(a0):
						got = fft.rfft(a, axes=axes, engine=eng)
						ctx.close(got, R, rtol=t, atol=t, msg="rfft %s" % lay); ctx.eq(got.dtype, cdt, "dtype"); ctx.eq(a, a0, "input unchanged")
						out = np.full(R.shape, 7, cdt); ctx.check(fft.rfft(a, out, axes=axes, engine=eng) is out, "output returned"); ctx.close(out, R, rtol=t, atol=t, msg="rfft into out")
						out = np.full(R.shape, 7, cdt); fft.fft(a, out, axes=axes, engine=eng); ctx.close(out, R, rtol=t, atol=t, msg="fft into a half-size array")
				with ctx.case("irfft", engine=eng, shape=shape, axes=axes, dtype=np.dtype(dt).name):
					n = shape[na[-1]]
					for lay, r in layouts(R.astype(cdt)):
						r0 = r.copy()
						got = fft.irfft(r, n=n, axes=axes, normalize=True, engine=eng)
						ctx.close(got, a0, rtol=t, atol=t, msg="irfft n=%d %s" % (n,lay)); ctx.eq(got.dtype, rdt, "dtype")
						ctx.eq(r, r0, "input unchanged")
						got = fft.irfft(r, n=n, axes=axes, engine=eng); ctx.close(got, a0*N, rtol=t, atol=t*N, msg="unnormalized irfft")
						if n % 2 == 0: ctx.close(fft.irfft(r, axes=axes, normalize=True, engine=eng), a0, rtol=t, atol=t, msg="irfft, even by default")
						out = np.full(shape, 7, rdt); ctx.check(fft.ifft(r, out, axes=axes, normalize=True, engine=eng) is out, "output returned"); ctx.close(out, a0, rtol=t, atol=t, msg="ifft into a real array")
			with ctx.case("fft int", engine=eng, shape=shape, axes=axes):
				a = data(shape, np.int32); ctx.close(fft.fft(a, axes=axes, engine=eng), ref_fft(a,na), rtol=1e-10, atol=1e-9, msg="integer input")
				ctx.close(fft.irfft(fft.rfft(a,axes=axes,engine=eng),n=shape[na[-1]],axes=axes,normalize=True,engine=eng), a, rtol=1e-10,atol=1e-10,msg="integer input")

def unit_dct(ctx, items):
	for eng, shape in items:
		nd = len(shape)
		for axes in axlists(nd):
			na = norm_axes(axes, nd)
			for kind in KINDS:
				if kind == "DCT-I" and any(shape[a] < 2 for a in na): continue
				for dt in (np.float64, np.float32):
					a0 = data(shape, dt); want = a0.astype(float)
					for ax in na: want = apply(dctmat(kind,shape[ax]), want, ax)
					t = tol(dt)*20*2**len(na)
					with ctx.case("dct", engine=eng, shape=shape, axes=axes, kind=kind, dtype=np.dtype(dt).name):
						for lay, a in layouts(a0):
							got = fft.dct(a, axes=axes, type=kind, engine=eng)
							ctx.close(got, want, rtol=t, atol=t, msg="dct %s" % lay); ctx.eq(got.dtype, np.dtype(dt), "dtype"); ctx.eq(a, a0, "input unchanged")
							back = fft.idct(got, axes=axes, type=kind, normalize=True, engine=eng)
							ctx.close(back, a0, rtol=t, atol=t, msg="idct restores the input")
						ctx.close(fft.dct(a0, axes=axes, type=RAW[kind], engine=eng), want, rtol=t, atol=t, msg="FFTW name")
						out = np.full(shape, 7, dt); ctx.check(fft.dct(a0, out, axes=axes, type=kind, engine=eng) is out, "output returned"); ctx.close(out, want, rtol=t, atol=t, msg="into out")
						out = np.full(shape, 7, dt); ctx.check(fft.idct(want.astype(dt), out, axes=axes, type=kind, normalize=True, engine=eng) is out, "output returned"); ctx.close(out, a0, rtol=t, atol=t, msg="idct into out")
						w = 1
						for a in na: w *= 2*(shape[a]+{"DCT-I":-1,"DST-I":1}.get(kind,0))
						ctx.close(fft.idct(got, axes=axes, type=kind, engine=eng), a0*float(w), rtol=t, atol=t*w, msg="unnormalized idct")

def unit_cheb(ctx, items):
	for eng, pre, n in items:
		with ctx.case("chebt", engine=eng, shape=pre+(n,)):
			a0 = data(pre+(n,), np.float64)
			want = apply(dctmat("DCT-I",n), a0, a0.ndim-1)
			a = a0.copy()
			ctx.close(fft.redft00(a, engine=eng), want, msg="redft00"); ctx.close(fft.redft00(a, normalize=True, engine=eng), want/(2*(n-1)), msg="normalized redft00")
			# a sampled at the Chebyshev extrema is the sum of c_k T_k there
			c = fft.chebt(a, engine=eng)
			x = np.cos(np.pi*np.arange(n)/(n-1))
			T = np.array([np.cos(k*np.arccos(np.clip(x,-1,1))) for k in range(n)])
			ctx.close(np.tensordot(c,T,(a.ndim-1,0)), a0, rtol=1e-9, atol=1e-9, msg="chebyshev coefficients")
			c0 = c.copy()
			ctx.close(fft.ichebt(c, engine=eng), a0, rtol=1e-9, atol=1e-9, msg="ichebt undoes chebt"); ctx.eq(c, c0, "input unchanged"); ctx.eq(a, a0, "input unchanged")

def isprod(m, fac):
	for f in fac:
		while m % f == 0: m //= f
	return m == 1
def unit_freq(ctx, items):
	for n in items:
		with ctx.case("fftfreq", n=n):
			for d in (1.0, 0.25, 3.0):
				k = np.array([i if 2*i < n else i-n for i in range(n)])/(n*d)
				ctx.close(fft.fftfreq(n,d), k, msg="fftfreq"); ctx.close(fft.rfftfreq(n,d), np.arange(n//2+1)/(n*d), msg="rfftfreq")
				ctx.close(fft.ind2freq(n,np.arange(n),d), k, msg="ind2freq"); ctx.close(fft.freq2ind(n,k,d), np.arange(n), msg="freq2ind inverts it")
				ctx.close(fft.int2rfreq(n,np.arange(n//2+1),d), np.arange(n//2+1)/(n*d), msg="int2rfreq"); ctx.close(fft.rfreq2ind(n,np.arange(n//2+1)/(n*d),d), np.arange(n//2+1), msg="rfreq2ind")
				ctx.eq(fft.fftfreq(n,d,dtype=np.float32).dtype, np.float32, "dtype"); ctx.eq(fft.rfftfreq(n,d,dtype=np.float32).dtype, np.float32, "dtype")
		for fac in (None, [2,3], [2,3,5], [2], [3,5], [5,3,2], [7,2]):
			F = fac or [2,3,5,7,11,13]
			with ctx.case("fft_len", n=n, factors=fac):
				below = max(m for m in range(1,n+1) if isprod(m,F))
				ctx.eq(int(fft.fft_len(n, "below", fac)), below, "below")
				if n > 1: ctx.eq(int(fft.fft_len(n, "above", fac)), next(m for m in itertools.count(n) if isprod(m,F)), "above")
				ctx.eq(int(utils.nearest_product(n+0.5,F)), below, "fractional below")

def nukern(inds, n, sign, per):
	x = inds.reshape(len(n),-1); ph = 0
	K = np.meshgrid(*[np.array([i if 2*i < m else i-m for i in range(m)]) for m in n], indexing="ij")
	for d in range(len(n)): ph = ph + x[d][:,None]*K[d].reshape(-1)[None]/per[d]
	return np.exp(sign*2j*np.pi*ph)
def unit_nufft(ctx, items):
	for n, pre, post, axes in items:
		nd = len(n); M = int(np.prod(post)); nonatural = axes is not None
		ax = tuple(range(len(pre),len(pre)+nd)) if axes is None else axes
		# move grid axes to the right place
		def togrid(a):
			if not nonatural: return np.ascontiguousarray(a)
			return np.ascontiguousarray(np.moveaxis(a, range(len(pre),len(pre)+nd), ax))
		def fromgrid(a): return a if not nonatural else np.moveaxis(a, ax, range(len(pre),len(pre)+nd))
		i = np.arange(nd*M); inds = (np.sin(1.7*i*i+0.3)*6+1).reshape((nd,)+post)
		for dt in (np.complex128, np.complex64):
			t = 1e-9 if dt == np.complex128 else 2e-3
			fa = data(pre+n, dt); nu = data(pre+post, dt, 5)
			rdt = np.zeros(0,dt).real.dtype
			I = inds.astype(rdt)
			for per, fwd in itertools.product((None, tuple(2*m+1 for m in n)), (False,True)):
				sgn = -1 if fwd else 1
				K = nukern(I.astype(float), n, sgn, per or n)
				U2N = (fa.reshape(pre+(-1,))@K.T).reshape(pre+post); N2U = (nu.reshape(pre+(-1,))@K).reshape(pre+n); N = np.prod(n)
				g = togrid(fa); g0 = g.copy(); n0 = nu.copy(); i0 = I.copy()
				kw = dict(axes=axes, periodicity=per)
				s = np.abs(U2N).max(); s2 = np.abs(N2U).max()
				with ctx.case("u2nu", grid=n, pre=pre, post=post, axes=axes, dtype=np.dtype(dt).name, periodicity=per, forward=fwd):
					ctx.close(fft.u2nu(g, I, forward=fwd, **kw), U2N, rtol=t, atol=t*s, msg="u2nu")
					ctx.close(fft.u2nu(g, I, forward=fwd, normalize=True, **kw), U2N/N, rtol=t, atol=t*s, msg="normalized u2nu")
					r = fft.u2nu(g, I, forward=fwd, complex=False, **kw); ctx.close(r, U2N.real, rtol=t, atol=t*s, msg="real u2nu"); ctx.eq(r.dtype, rdt, "dtype")
					ctx.close(fft.inufft(g, I, flip=fwd, **kw), U2N, rtol=t, atol=t*s, msg="inufft")
					out = np.full(pre+post, 5, dt); ctx.check(fft.u2nu(g, I, out=out, forward=fwd, **kw) is out, "output returned"); ctx.close(out, U2N, rtol=t, atol=t*s, msg="into out")
					plan = fft.u2nu_plan(g, ax, periodicity=per, forward=fwd)
					ctx.close(plan.eval(I), U2N, rtol=t, atol=t*s, msg="incremental u2nu"); ctx.close(plan.eval(I), U2N, rtol=t, atol=t*s, msg="incremental u2nu, second evaluation")
					plan = fft.u2nu_plan(g, ax, periodicity=per, forward=fwd, normalize=True, complex=False)
					ctx.close(plan.eval(I), U2N.real/N, rtol=t, atol=t*s, msg="normalized real incremental u2nu")
					ctx.eq(g, g0, "grid unchanged"); ctx.eq(I, i0, "coordinates unchanged")
				with ctx.case("nu2u", grid=n, pre=pre, post=post, axes=axes, dtype=np.dtype(dt).name, periodicity=per, forward=fwd):
					osh = togrid(N2U).shape
					ctx.close(fft.nu2u(nu, I, oshape=osh, forward=fwd, **kw), togrid(N2U), rtol=t, atol=t*s2, msg="nu2u")
					ctx.close(fft.nu2u(nu, I, oshape=osh, forward=fwd, normalize=True, **kw), togrid(N2U)/N, rtol=t, atol=t*s2, msg="normalized nu2u")
					ctx.close(fft.nufft_adjoint(nu, I, oshape=osh, flip=not fwd, **kw), togrid(N2U), rtol=t, atol=t*s2, msg="nufft_adjoint")
					out = np.full(osh, 5, dt); ctx.check(fft.nu2u(nu, I, out=out, forward=fwd, **kw) is out, "output returned"); ctx.close(out, togrid(N2U), rtol=t, atol=t*s2, msg="into out")
					ctx.close(fft.nu2u(nu.real.copy(), I, oshape=osh, forward=fwd, **kw), togrid((nu.real.reshape(pre+(-1,))@K).reshape(pre+n)), rtol=t, atol=t*s2, msg="nu2u of real samples")
					ctx.eq(nu, n0, "samples unchanged")
			if dt == np.complex64: continue
			with ctx.case("interpol_nufft", grid=n, pre=pre, post=post, axes=axes):
				K  = nukern(I, n, 1, n); N = np.prod(n)
				fd = ref_fft(fa, range(len(pre),len(pre)+nd))
				ctx.close(fft.interpol_nufft(togrid(fa), I, axes=axes, complex=True), (fd.reshape(pre+(-1,))@K.T).reshape(pre+post)/N, rtol=1e-9, atol=1e-9, msg="complex")
				fd = ref_fft(fa.real, range(len(pre),len(pre)+nd))
				ctx.close(fft.interpol_nufft(togrid(fa.real), I, axes=axes), (fd.reshape(pre+(-1,))@K.T).reshape(pre+post).real/N, rtol=1e-9, atol=1e-9, msg="real")
				ctx.close(fft.interpol_nufft(togrid(fd), I, axes=axes, nofft=True), (fd.reshape(pre+(-1,))@K.T).reshape(pre+post).real/N, rtol=1e-9, atol=1e-9, msg="nofft")
				# at the grid points
				G = np.array(np.meshgrid(*[np.arange(m)*1.0 for m in n],indexing="ij"))
				ctx.close(fromgrid(togrid(fft.interpol_nufft(togrid(fa.real), G, axes=axes))) if not nonatural else fft.interpol_nufft(togrid(fa.real), G, axes=axes), fa.real, rtol=1e-9, atol=1e-9, msg="interpolation reproduces the samples")

def unit_inufft(ctx, items):
	for n, pre, split in items:
		nd = len(n); N = int(np.prod(n))
		for fwd, norm in itertools.product((False,True),(False,True)):
			with ctx.case("iu2nu", grid=n, pre=pre, split=split, forward=fwd, normalize=norm):
				G = np.array(np.meshgrid(*[np.arange(m)*1.0 for m in n],indexing="ij")).reshape(nd,-1)
				I = G + 0.2*np.sin(np.arange(G.size)*2.1+0.4).reshape(G.shape)
				post = (N,) if not split else (2,N//2) if N%2==0 else (1,N)
				I = I.reshape((nd,)+post)
				K = nukern(I, n, -1 if fwd else 1, n)
				fa = data(pre+n, np.complex128)
				a = (fa.reshape(pre+(-1,))@K.T).reshape(pre+post)
				if norm: a = a/N
				ctx.close(fft.iu2nu(a, I, oshape=pre+n, forward=fwd, normalize=norm), fa, rtol=1e-3, atol=1e-3, msg="iu2nu inverts u2nu")
				ctx.close(fft.nufft(a, I, oshape=pre+n, flip=fwd, normalize=norm), fa, rtol=1e-3, atol=1e-3, msg="nufft")
				nu = data(pre+post, np.complex128, 3)
				u = (nu.reshape(pre+(-1,))@K).reshape(pre+n)
				if norm: u = u/N
				ctx.close(fft.inu2u(u, I, forward=fwd, normalize=norm), nu, rtol=1e-3, atol=1e-3, msg="inu2u inverts nu2u")
				ctx.close(fft.inufft_adjoint(u, I, flip=not fwd, normalize=norm), nu, rtol=1e-3, atol=1e-3, msg="inufft_adjoint")
				ctx.close(fft.inufft_adjoint(u, I, flip=not fwd, normalize=norm, complex=False), nu.real, rtol=1e-3, atol=1e-3, msg="real inufft_adjoint")

def units(tier):
	q = tier == "quick"
	engs = [e for e in ("numpy","ducc") if e in fft.engines]
	mx = 9 if q else 17
	shapes = [(n,) for n in range(1,mx+1)] + list(itertools.product((1,2,3,4,5) if q else range(1,8), repeat=2)) + list(itertools.product((1,2,3) if q else (1,2,3,4,5), repeat=3))
	out  = chunked("fft", list(itertools.product(engs, shapes)), unit_fft, 16 if q else 64)
	sh2 = [(n,) for n in range(1,mx+1)] + list(itertools.product((2,3,4) if q else (1,2,3,4,5,6), repeat=2)) + [(2,3,4),(3,2,2)]
	out += chunked("dct", list(itertools.product(engs, sh2)), unit_dct, 8 if q else 32)
	out += chunked("cheb", list(itertools.product(engs, [(),(2,),(3,2),(4,)], range(2,mx+1))), unit_cheb, 2)
	out += chunked("freq", range(1,200 if q else 2000), unit_freq, 4 if q else 16)
	nus = []
	for n in [(1,),(2,),(3,),(4,),(5,),(6,)]+list(itertools.product((2,3,4,5,6) if q else range(1,8),(2,3,5) if q else range(1,8))) + [(2,3,4)]:
		for pre in [(),(2,),(2,3)]:
			for post in [(1,),(7,),(3,4)]:
				nus.append((n,pre,post,None))
		if len(n) == 2: nus.append((n,(2,),(5,),(0,2))); nus.append((n,(2,),(5,),(0,1)))
		if len(n) == 1: nus.append((n,(2,),(5,),(0,)))
	out += chunked("nufft", nus, unit_nufft, 8 if q else 32)
	out += chunked("inufft", [(n,pre,s) for n in [(3,),(4,),(5,),(3,4),(4,4),(5,3)] for pre in [(),(2,)] for s in (False,True)], unit_inufft, 6)
	return out
