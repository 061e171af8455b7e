"""C11: spherical-harmonic coefficient bookkeeping."""
import numpy as np, itertools
from pixell import curvedsky, utils
from ..core import chunked

RULE   = "every lmax x mmax x layout x dtype x leading shape x filter length, with every coefficient distinct; reference: a dictionary keyed on (l,m)"
BOUNDS = "lmax 0..7 (thorough 0..12), all mmax <= lmax, triangular/rectangular/custom layouts, complex64 and complex128, matrix filters up to 3x3, filters shorter and longer than lmax"
ASSUME = ["layouts with unit stride (other strides only for copying between layouts)"]

def layouts(lmax, mmax, stride=1):
	yield "tri", curvedsky.alm_info(lmax, mmax, stride=stride)
	yield "rect", curvedsky.alm_info(lmax, mmax, layout="rect", stride=stride)
	# packed in reverse order of m, with gaps
	ms = np.array([(mmax-m)*(lmax+3)+1 for m in range(mmax+1)])*stride
	yield "custom", curvedsky.alm_info(lmax, mmax, layout=ms, stride=stride)
def LM(lmax, mmax): return [(l,m) for m in range(mmax+1) for l in range(m,lmax+1)]
def pos(ai, l, m): return int(ai.mstart[m])+l*ai.stride
def fill(ai, pre, dt, seed=0):
	a = np.zeros(pre+(ai.nelem,), dt)
	for k, (l,m) in enumerate(LM(ai.lmax,ai.mmax)):
		for j, I in enumerate(np.ndindex(*pre)):
			v = np.cos(1.3*k+j*2.1+seed)+0.1*l; w = np.sin(0.7*k+j+seed*2)+0.05*m if m > 0 else 0
			a[I+(pos(ai,l,m),)] = v+1j*w
	return a
def get(ai, a): return {(l,m): a[...,pos(ai,l,m)].copy() for l,m in LM(ai.lmax,ai.mmax)}

def unit_info(ctx, items):
	for lmax, mmax in items:
		with ctx.case("alm_info", lmax=lmax, mmax=mmax):
			tri = curvedsky.alm_info(lmax, mmax)
			lm = LM(lmax,mmax)
			ctx.eq(tri.nelem, len(lm), "number of coefficients"); ctx.eq([tri.lmax,tri.mmax,tri.nl,tri.nm], [lmax,mmax,lmax+1,mmax+1], "limits")
			# healpix order: m-major, l increasing
			for i, (l,m) in enumerate(lm): ctx.eq(int(tri.lm2ind(l,m)), i, "index of l,m")
			l, m = np.array(lm).T; ctx.eq(tri.lm2ind(l,m), np.arange(len(lm)), "array of l,m")
			for name, ai in layouts(lmax,mmax):
				inds = [int(ai.lm2ind(l,m)) for l,m in lm]
				ctx.eq(len(set(inds)), len(lm), "distinct places"); ctx.check(min(inds) >= 0 and max(inds) < ai.nelem, "inside the array")
			for st in (2,3):
				for name, ai in layouts(lmax,mmax,st):
					inds = [int(ai.lm2ind(l,m)) for l,m in lm]; ctx.eq(len(set(inds)), len(lm), "distinct places, stride"); ctx.check(max(inds) < ai.nelem, "inside the array")
			if mmax == lmax:
				ctx.eq(curvedsky.nalm2lmax(tri.nelem), lmax, "lmax from size"); ai = curvedsky.alm_info(nalm=tri.nelem); ctx.eq([ai.lmax,ai.mmax,ai.nelem],[lmax,lmax,tri.nelem], "layout from size"); ctx.eq(np.asarray(ai.mstart), np.asarray(tri.mstart), "same layout")
				r = curvedsky.alm_info(nalm=(lmax+1)**2, layout="rect"); ctx.eq(r.lmax, lmax, "rect from size")
	with ctx.case("nalm2lmax"):
		for l in list(range(3000))+[10000,20000,50000,100000]: ctx.eq(curvedsky.nalm2lmax((l+1)*(l+2)//2), l, "lmax from size")

def unit_cl(ctx, items):
	for lmax, mmax, dt in items:
		t = 1e-5 if dt == np.complex64 else 1e-12
		for name, ai in layouts(lmax, mmax):
			with ctx.case("alm2cl", lmax=lmax, mmax=mmax, layout=name, dtype=np.dtype(dt).name):
				def ref(a, b):
					a, b = np.broadcast_arrays(a, b); cl = np.zeros(a.shape[:-1]+(lmax+1,)); A, B = get(ai,a), get(ai,b)
					for (l,m) in A: cl[...,l] += (1 if m == 0 else 2)*(A[l,m]*B[l,m].conj()).real/(2*l+1)
					return cl
				a, b = fill(ai,(3,),dt), fill(ai,(3,),dt,5); a0, b0 = a.copy(), b.copy()
				for lab, x, y in [("auto",a,None),("cross",a,b),("auto matrix",a[:,None],a[None]),("cross matrix",a[:,None],b[None]),("single",a[0],None),("single cross",a[0],b[1]),("broadcast",a,b[:1]),("permuted",a[::-1],a),("transposed",a[None],b[:,None]),("same twice",a,a)]:
					got = ai.alm2cl(x,y); ctx.close(got, ref(x, x if y is None else y), rtol=t, atol=t, msg=lab); ctx.eq(got.dtype, np.zeros(0,dt).real.dtype, "dtype")
				ctx.eq(a,a0,"input unchanged"); ctx.eq(b,b0,"input unchanged")
				ctx.close(curvedsky.alm2cl(a,b,ainfo=ai), ref(a,b), rtol=t, atol=t, msg="function")
				if name == "tri" and lmax == mmax: ctx.close(curvedsky.alm2cl(a), ref(a,a), rtol=t, atol=t, msg="inferred layout")
				# strided storage
				big = np.zeros((3,2,ai.nelem),dt); big[:,0] = a; ctx.close(ai.alm2cl(big[:,0]), ref(a,a), rtol=t, atol=t, msg="strided")
				wide = np.zeros((3,2*ai.nelem),dt); wide[:,::2] = a; ctx.close(ai.alm2cl(wide[:,::2]), ref(a,a), rtol=t, atol=t, msg="strided last axis")
				ctx.close(ai.alm2cl(a.astype(np.complex64),b.astype(np.complex128)), ref(a,b), rtol=1e-5, atol=1e-5, msg="mixed precision")

def unit_lmul(ctx, items):
	for lmax, mmax, dt in items:
		t = 1e-5 if dt == np.complex64 else 1e-12; rdt = np.zeros(0,dt).real.dtype
		for name, ai in layouts(lmax, mmax):
			def expand(f):
				"""f[...,nf] -> per coefficient factor"""
				out = np.zeros(f.shape[:-1]+(ai.nelem,))
				for l,m in LM(lmax,mmax):
					if l < f.shape[-1]: out[...,pos(ai,l,m)] = f[...,l]
				return out
			def only(a):
				o = np.zeros_like(a)
				for l,m in LM(lmax,mmax): o[...,pos(ai,l,m)] = a[...,pos(ai,l,m)]
				return o
			for nf in sorted({1,max(1,lmax),lmax+1,lmax+2,lmax+7}):
				f = lambda *pre: np.cos(np.arange(int(np.prod(pre+(nf,))))*0.9+0.3).reshape(pre+(nf,))+1.5
				for ap, fp in [((),()),((3,),()),((2,3),()),((3,),(3,)),((2,3),(3,)),((2,1),(3,)),((),(2,)),((1,),(4,)),((2,2,3),(2,1,3))]:
					with ctx.case("lmul", lmax=lmax, mmax=mmax, layout=name, dtype=np.dtype(dt).name, nf=nf, apre=ap, fpre=fp):
						a = fill(ai,ap,dt); a0 = a.copy(); lf = f(*fp); l0 = lf.copy()
						want = only(np.broadcast_to(a, np.broadcast_shapes(ap,fp)+(ai.nelem,))*expand(lf))
						got = ai.lmul(a, lf); ctx.close(only(got), want, rtol=t, atol=t, msg="scalar"); ctx.eq(a,a0,"input unchanged"); ctx.eq(lf,l0,"filter unchanged"); ctx.eq(got.dtype,np.dtype(dt),"dtype")
						ctx.close(only(ai.lmul(a, lf.astype(rdt))), want, rtol=t, atol=t, msg="filter of matching precision")
						out = np.full(want.shape, 9, dt); r = ai.lmul(a, lf, out=out); ctx.close(only(out), want, rtol=t, atol=t, msg="out"); ctx.close(only(r), want, rtol=t, atol=t, msg="returned")
						ctx.close(only(curvedsky.almxfl(a, lf, ainfo=ai)), want, rtol=t, atol=t, msg="almxfl")
						if np.broadcast_shapes(ap,fp) == ap: ai.lmul(a, lf, out=a); ctx.close(only(a), want, rtol=t, atol=t, msg="in place")
				for N, M in [(1,1),(2,2),(3,3),(1,3),(3,1),(2,3)]:
					with ctx.case("lmul matrix", lmax=lmax, mmax=mmax, layout=name, dtype=np.dtype(dt).name, nf=nf, N=N, M=M):
						a = fill(ai,(M,),dt); a0 = a.copy(); lf = f(N,M)
						want = only(np.einsum("abi,bi->ai", expand(lf), a.astype(complex)))
						got = ai.lmul(a, lf); ctx.close(only(got), want, rtol=t, atol=t, msg="matrix"); ctx.eq(a,a0,"input unchanged"); ctx.eq(got.shape,(N,ai.nelem),"shape")
						out = np.full((N,ai.nelem), 9, dt); ai.lmul(a, lf, out=out); ctx.close(only(out), want, rtol=t, atol=t, msg="out")
						# the storage around the coefficients is not written to
						big = np.full((N,ai.nelem+40), 7+7j, dt); ai.lmul(a, lf, out=big[:,:ai.nelem]); ctx.close(only(big[:,:ai.nelem]), want, rtol=t, atol=t, msg="out in a larger array"); ctx.eq(big[:,ai.nelem:], np.full((N,40),7+7j,dt), "memory beyond the coefficients untouched")
						if N == M: ai.lmul(a, lf, out=a); ctx.close(only(a), want, rtol=t, atol=t, msg="in place")
					with ctx.case("lmul mismatch", lmax=lmax, mmax=mmax, layout=name, N=N, M=M):
						a = fill(ai,(M+1,),dt); ctx.raises(lambda: ai.lmul(a, f(N,M)), ValueError, "incompatible dimensions")
			with ctx.case("almxfl layout", lmax=lmax, mmax=mmax, layout=name, dtype=np.dtype(dt).name):
				a = fill(ai,(2,),dt); want = a.copy()
				for l,m in LM(lmax,mmax): want[:,pos(ai,l,m)] *= 1/(1.0+l)
				ctx.close(only(curvedsky.almxfl(a, lambda l: 1/(1.0+l), ainfo=ai)), only(want), rtol=t, atol=t, msg="function of l"); out = np.full(want.shape,9,dt); curvedsky.almxfl(a, lambda l: 1/(1.0+l), ainfo=ai, out=out); ctx.close(only(out), only(want), rtol=t, atol=t, msg="function of l, out")
		if mmax == lmax:
			with ctx.case("almxfl", lmax=lmax, dtype=np.dtype(dt).name):
				ai = curvedsky.alm_info(lmax); a = fill(ai,(2,),dt); want = a.copy()
				for l,m in LM(lmax,mmax): want[:,pos(ai,l,m)] *= 1/(1.0+l)
				ctx.close(curvedsky.almxfl(a, lambda l: 1/(1.0+l)), want, rtol=t, atol=t, msg="function of l"); ctx.close(curvedsky.almxfl(a, 1/(1.0+np.arange(lmax+1))), want, rtol=t, atol=t, msg="array")

def unit_transfer(ctx, items):
	for lm1, lm2, dt in items:
		for (n1,a1),(n2,a2) in itertools.product(list(layouts(*lm1))+list(layouts(*lm1,stride=2))[:1], list(layouts(*lm2))+list(layouts(*lm2,stride=3))[:1]):
			for pre in ((),(2,),(2,2)):
				with ctx.case("transfer_alm", source=lm1, dest=lm2, layouts=(n1,n2), strides=(a1.stride,a2.stride), pre=pre, dtype=np.dtype(dt).name):
					x = fill(a1,pre,dt); x0 = x.copy(); X = get(a1,x)
					got = curvedsky.transfer_alm(a1, x, a2)
					want = np.zeros(pre+(a2.nelem,),dt)
					for k in LM(*lm2):
						if k in X: want[...,pos(a2,*k)] = X[k]
					ctx.eq(got, want, "copied, zero where the source has nothing"); ctx.eq(x,x0,"input unchanged"); ctx.eq(got.dtype,np.dtype(dt),"dtype")
					y = np.full(pre+(a2.nelem,), 5+1j, dt); w = y.copy()
					for k in LM(*lm2):
						if k in X: w[...,pos(a2,*k)] = X[k]
					ctx.check(curvedsky.transfer_alm(a1, x, a2, y) is y, "output returned"); ctx.eq(y, w, "only the shared coefficients are overwritten")
					y = np.full(pre+(a2.nelem,), 5+1j, dt); w = y.copy()
					for k in LM(*lm2):
						if k in X: w[...,pos(a2,*k)] += X[k]
					curvedsky.transfer_alm(a1, x, a2, y, op=lambda a,b:a+b); ctx.close(y, w, rtol=1e-6, msg="combined")

def unit_transpose(ctx, items):
	for lmax, mmax, dt in items:
		for name, ai in layouts(lmax, mmax):
			for pre in ((),(2,),(2,3)):
				with ctx.case("transpose_alm", lmax=lmax, mmax=mmax, layout=name, pre=pre, dtype=np.dtype(dt).name):
					a = fill(ai,pre,dt); a0 = a.copy()
					src = LM(lmax,mmax); dst = [(l,m) for l in range(lmax+1) for m in range(min(l,mmax)+1)]
					want = {d: a[...,pos(ai,*s)].copy() for s,d in zip(src,dst)}
					got = ai.transpose_alm(a); ctx.eq(a,a0,"input unchanged")
					for k in want: ctx.eq(got[...,pos(ai,*k)], want[k], "k'th in one order becomes k'th in the other")
					out = np.zeros_like(a); ai.transpose_alm(a,out)
					for k in want: ctx.eq(out[...,pos(ai,*k)], want[k], "out")
					ai.transpose_alm(a,a)
					for k in want: ctx.eq(a[...,pos(ai,*k)], want[k], "in place")

def unit_rand(ctx, items):
	"""Random coefficients: large scales do not depend on the band limit, repeatable, real m=0"""
	for lmax, dt in items:
		ps = 1/(1.0+np.arange(lmax+1))**2
		with ctx.case("rand_alm", lmax=lmax, dtype=np.dtype(dt).name):
			ref, ai = curvedsky.rand_alm(ps, seed=5, dtype=dt, return_ainfo=True); R = get(ai,ref)
			ctx.eq(ref.shape,(ai.nelem,),"shape"); ctx.eq(ref.dtype,np.dtype(dt),"dtype"); ctx.eq(curvedsky.rand_alm(ps, seed=5, dtype=dt), ref, "repeatable")
			for l in range(lmax+1): ctx.eq(float(R[l,0].imag), 0.0, "m=0 real")
			for l2 in range(lmax+1):
				got, a2 = curvedsky.rand_alm(ps, lmax=l2, seed=5, dtype=dt, return_ainfo=True); ctx.eq(a2.lmax, l2, "lmax")
				for k,v in get(a2,got).items(): ctx.close(v, R[k], rtol=1e-6, atol=1e-9, msg="large scales agree for lmax=%d" % l2)
			got, a2 = curvedsky.rand_alm(ps, lmax=lmax+3, seed=5, dtype=dt, return_ainfo=True)
			for k,v in get(a2,got).items(): ctx.close(v, R[k] if k in R else 0, rtol=1e-6, atol=1e-9, msg="no power beyond the spectrum")

def units(tier):
	q = tier == "quick"; L = 7 if q else 12
	lm = [(l,m) for l in range(L+1) for m in range(l+1)]
	dts = (np.complex128,np.complex64)
	few = [(l,m) for l,m in lm if m in (0,1,l//2,l-1,l)] if q else lm
	out  = chunked("info", lm, unit_info, 2)
	out += chunked("cl", [(l,m,d) for l,m in few for d in dts], unit_cl, 4)
	out += chunked("lmul", [(l,m,d) for l,m in few for d in dts], unit_lmul, 16)
	sm = [(l,m) for l,m in few if l <= (5 if q else 8) and m in (0,l//2,l)]
	out += chunked("transfer", [(a,b,d) for a in sm for b in sm for d in dts], unit_transfer, 8)
	out += chunked("transpose", [(l,m,d) for l,m in few for d in dts], unit_transpose, 2)
	out += chunked("rand", [(l,d) for l in range(L+4) for d in dts], unit_rand, 2)
	return out
