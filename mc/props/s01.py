"""S01: random skies have exactly the requested covariance (over all draws)."""
import numpy as np, itertools
from pixell import enmap, curvedsky, lensing, uharm, utils
from ..core import chunked
from .. import geo as G

RULE   = "the pseudo-random source is replaced by a tape; every unit impulse on the tape is fed through the generator, which gives the complete linear map L from independent unit normal numbers to the output (linearity itself is checked on combined tapes and the empty tape), so that the covariance over all draws is exactly L L'; it is compared element by element with the covariance the spectrum prescribes; every spectrum, component count, geometry and option within the bound"
BOUNDS = "harmonic coefficients up to degree 4 with 1-4 components and 9 spectra including singular and zero ones; flat maps up to 5x6 pixels with 1-3 components; lensing inputs with 2-4 fields; seeds 0-3"
ASSUME = ["the numbers drawn from numpy's normal generator are independent and of unit variance", "the flat-sky generator smooths and interpolates a spectrum given as a function of degree, which is compared to 3% for spectra that are smooth on the scale of the map's own resolution; flat spectra and two-dimensional ones are compared exactly", "agreement between resolutions for the same seed is claimed for a single component only"]

class Tape:
	"""Replaces numpy's normal random numbers by the contents of a tape"""
	def __init__(self, values=None): self.values = values; self.n = 0
	def take(self, size):
		if size is None: return self.take(1)[0]
		size = (size,) if np.ndim(size) == 0 else tuple(size); n = int(np.prod(size,dtype=int)); r = np.zeros(n)
		if self.values is not None: v = self.values[self.n:self.n+n]; r[:len(v)] = v
		self.n += n; return r.reshape(size)
	def __enter__(self):
		tape = self; self.old = {k:getattr(np.random,k) for k in ("standard_normal","randn","normal","RandomState","default_rng","seed")}
		class Gen:
			def __init__(self, *a, **k): pass
			def standard_normal(self, size=None, dtype=float, out=None):
				if out is not None: out[...] = tape.take(out.shape); return out
				return np.asarray(tape.take(size),dtype) if size is not None else tape.take(size)
			def randn(self, *shape): return tape.take(shape if shape else None)
			def normal(self, loc=0.0, scale=1.0, size=None): return loc+scale*tape.take(size)
			def seed(self, *a): pass
		g = Gen(); np.random.standard_normal = g.standard_normal; np.random.randn = g.randn; np.random.normal = g.normal; np.random.RandomState = Gen; np.random.default_rng = Gen; np.random.seed = g.seed
		return self
	def __exit__(self, *a):
		for k, v in self.old.items(): setattr(np.random,k,v)
def response(ctx, fun):
	"""Matrix from draws to output (complex outputs as stacked real and imaginary parts)"""
	def vec(x): x = np.asarray(x); return np.concatenate([x.real.reshape(-1),x.imag.reshape(-1)]) if np.iscomplexobj(x) else x.reshape(-1).astype(float)
	with Tape() as t: z = vec(fun()); n = t.n
	ctx.check(np.all(z == 0), "no noise gives no signal")
	L = np.zeros((len(z),n))
	for i in range(n):
		e = np.zeros(n); e[i] = 1
		with Tape(e): L[:,i] = vec(fun())
	comb = ((np.arange(n)*7)%5)-2.0
	with Tape(comb): ctx.close(vec(fun()), L.dot(comb), 1e-5, 1e-5*max(1e-300,np.max(np.abs(L)))*n if L.size else 0, "linear in the noise")
	return L
SPECS = ("white","ramp","steep","zero","correlated","full","anti","lowest","gap")
def spec(name, nc, nl):
	l = np.arange(nl)*1.0; C = np.zeros((nc,nc,nl)); base = {"white":1+0*l,"ramp":1+l,"steep":1/(1+l)**3,"zero":0*l,"correlated":1+l,"full":2.0+0*l,"anti":1+l,"lowest":(l == 0)*3.0,"gap":(l%2)*2.0}[name]; rho = {"correlated":0.5,"full":1.0,"anti":-0.3}.get(name,0)
	for a in range(nc):
		for b in range(nc): s = np.sqrt((1+a)*(1+b)*1.0); C[a,b] = base*s*(1 if a == b else rho if name != "correlated" else rho**abs(a-b))
	return C
def alm_cov(C, ls, ms, nc):
	"""Covariance of stacked real and imaginary parts [2,nc,nelem]"""
	n = len(ls); R = np.zeros((2,nc,n,2,nc,n))
	for i in range(n):
		c = C[:,:,ls[i]] if ls[i] < C.shape[2] else np.zeros((nc,nc))
		if ms[i] == 0: R[0,:,i,0,:,i] = c
		else: R[0,:,i,0,:,i] = c/2; R[1,:,i,1,:,i] = c/2
	return R.reshape(2*nc*n,2*nc*n)
def unit_alm(ctx, items):
	for name, nc, nl, lmax, dt in items:
		C = spec(name,nc,nl); lm = nl-1 if lmax is None else lmax; ls = [l for m in range(lm+1) for l in range(m,lm+1)]; ms = [m for m in range(lm+1) for l in range(m,lm+1)]; want = alm_cov(C,ls,ms,nc); tol = 1e-10 if dt == complex else 1e-5; sc = max(1e-300,np.max(np.abs(want)))
		for fn, f in (("rand_alm",lambda: curvedsky.rand_alm(C,lmax=lmax,dtype=dt)),("rand_alm, seed",lambda: curvedsky.rand_alm(C,lmax=lmax,dtype=dt,seed=3)),("rand_alm, l-major draws",lambda: curvedsky.rand_alm(C,lmax=lmax,dtype=dt,m_major=False)),("rand_alm_healpy",lambda: curvedsky.rand_alm_healpy(C,lmax=lmax))):
			if fn == "rand_alm_healpy" and (nc > 3 or name in ("full","zero","lowest","gap") and nc > 1 or dt != complex): continue
			with ctx.case("coefficients", function=fn, spectrum=name, ncomp=nc, nl=nl, lmax=lmax, dtype=np.dtype(dt).name):
				k = C.copy(); L = response(ctx,f); ctx.eq(C,k,"spectrum"); ctx.check(len(L) == len(want), "size"); ctx.close(L.dot(L.T), want, tol, tol*sc, "covariance")
		with ctx.case("coefficients, other layouts", spectrum=name, ncomp=nc, nl=nl, lmax=lmax, dtype=np.dtype(dt).name):
			if nc == 1: L1 = response(ctx,lambda: curvedsky.rand_alm(C[0,0],lmax=lmax,dtype=dt)); ctx.close(L1.dot(L1.T), want, tol, tol*sc, "single spectrum")
			from pixell import powspec
			c2 = powspec.sym_compress(C,scheme="diag")
			if nc > 1: L1 = response(ctx,lambda: curvedsky.rand_alm(c2,lmax=lmax,dtype=dt)); ctx.close(L1.dot(L1.T), want, tol, tol*sc, "compressed spectra")
			ai = curvedsky.alm_info(lmax=lm); L1 = response(ctx,lambda: curvedsky.rand_alm(C,ainfo=ai,dtype=dt)); ctx.close(L1.dot(L1.T), want, tol, tol*sc, "given layout")
			a, ai2 = curvedsky.rand_alm(C,lmax=lmax,dtype=dt,return_ainfo=True); ctx.check(ai2.lmax == lm and a.shape == (nc,len(ls)) and a.dtype == np.dtype(dt), "returned layout")
			for mm in range(lm):
				ai = curvedsky.alm_info(lmax=lm,mmax=mm); l2 = [l for m in range(mm+1) for l in range(m,lm+1)]; m2 = [m for m in range(mm+1) for l in range(m,lm+1)]; L1 = response(ctx,lambda: curvedsky.rand_alm(C,ainfo=ai,dtype=dt)); ctx.close(L1.dot(L1.T), alm_cov(C,l2,m2,nc), tol, tol*sc, "mmax=%d" % mm)
	with ctx.case("white coefficients"):
		for lm in (0,1,3):
			ai = curvedsky.alm_info(lmax=lm); L = response(ctx,lambda: curvedsky.rand_alm_white(ai,pre=(2,))); ctx.close(L.dot(L.T), np.eye(len(L)), 1e-12, 1e-12, "independent")
def unit_lens(ctx, items):
	for name, nc, nl, lmax, pseed in items:
		with ctx.case("lensing inputs", spectrum=name, ncomp=nc, nl=nl, lmax=lmax, phi_seed=pseed):
			C = spec(name,nc,nl); lm = nl-1 if lmax is None else lmax; ls = [l for m in range(lm+1) for l in range(m,lm+1)]; ms = [m for m in range(lm+1) for l in range(m,lm+1)]
			def f():
				p, c, ai = lensing.rand_alm(C,lmax=lmax,seed=1,phi_seed=pseed); return np.concatenate([p[None],c],0)
			L = response(ctx,f); want = alm_cov(C,ls,ms,nc); ctx.close(L.dot(L.T), want, 1e-10, 1e-10*max(1e-300,np.max(np.abs(want))), "covariance")
			if nc > 2:
				def f():
					p, c, ai = lensing.rand_alm(C,lmax=lmax,seed=1,phi_seed=pseed,ncomp=1); return np.concatenate([p[None],c],0)
				L = response(ctx,f); want = alm_cov(C[:2,:2],ls,ms,2); ctx.close(L.dot(L.T), want, 1e-10, 1e-10*max(1e-300,np.max(np.abs(want))), "fewer components")
def flat_cov(P, ny, nx):
	"""Covariance [nc,ny,nx,nc,ny,nx] of a real map with component power P[nc,nc,ny,nx] per mode in pixel units"""
	c = np.fft.ifft2(P).real; nc = len(P); y, x = np.arange(ny), np.arange(nx); dy, dx = (y[:,None]-y)%ny, (x[:,None]-x)%nx
	return c[:,:,dy[:,None,:,None],dx[None,:,None,:]].transpose(0,2,3,1,4,5).reshape(nc*ny*nx,nc*ny*nx)
def rot(l, P, spin, iau):
	"""Rotate E,B powers to Q,U for the spin list"""
	nc = len(P); R = np.zeros((nc,nc)+l.shape[1:]); i = 0; sp = list(np.atleast_1d(spin))
	k = 0
	while i < nc:
		s = sp[min(k,len(sp)-1)]; k += 1
		if s == 0 or i == nc-1: R[i,i] = 1; i += 1
		else: a = s*np.arctan2(l[1] if iau else -l[1],l[0]); c, sn = np.cos(a), np.sin(a); R[i,i] = c; R[i,i+1] = -sn; R[i+1,i] = sn; R[i+1,i+1] = c; i += 2
	return np.einsum("abyx,bcyx,dcyx->adyx",R,P,R)
def unit_flat(ctx, items):
	for shape, kind, name, opts in items:
		ny, nx = shape[-2:]; nc = shape[0] if len(shape) == 3 else 1; wcs = G.mkwcs("CAR",(10,0),(-0.5,0.5),(2,3)); o = dict(opts); l = np.asarray(enmap.lmap(shape[-2:],wcs)); N = ny*nx; area = enmap.area(shape[-2:],wcs)
		with ctx.case("flat maps", shape=shape, kind=kind, spectrum=name, **o):
			if kind == "2d":
				lab = np.sqrt(np.sum(l**2,0)); lab = (lab/np.max(lab)*4); P = np.zeros((nc,nc,ny,nx)); s1 = spec(name,nc,6)
				for a in range(nc):
					for b in range(nc): P[a,b] = s1[a,b][np.round(lab).astype(int)]
				cov = enmap.enmap(P,wcs); Pp = P if o.get("pixel_units") else P*N/area; tol = 1e-9
			elif kind == "white":
				cov = spec("correlated" if name == "correlated" else "full" if name == "full" else "white",nc,20000)[:,:,:1]+np.zeros(20000); Pp = cov[:,:,:1,None]*N/area+np.zeros((nc,nc,ny,nx)); tol = 1e-6
				if len(shape) == 2 and name == "vector": cov = cov[0,0]
			else:
				el = np.arange(4000.); lab = np.sqrt(np.sum(l**2,0)); f = lambda x: 1/(1+(x/2000.0)**2); rho = spec(name,nc,1)[:,:,0]; cov = rho[:,:,None]*f(el); Pp = rho[:,:,None,None]*f(lab)*N/area; tol = 0.05
			k = np.array(cov)
			g = lambda: enmap.rand_map(shape,wcs,cov,**o)
			L = response(ctx,g); ctx.eq(np.array(cov),k,"spectrum"); P2 = Pp if o.get("scalar") or nc == 1 else rot(l,Pp,o.get("spin",[0,2]),o.get("iau",False)); want = flat_cov(P2,ny,nx); ctx.close(L.dot(L.T), want, tol, tol*np.max(np.abs(want)), "covariance")
			m = enmap.rand_map(shape,wcs,cov,seed=1,**o); ctx.check(m.shape == tuple(shape) and isinstance(m,enmap.ndmap) and m.wcs.wcs.compare(wcs.wcs), "geometry"); ctx.eq(np.asarray(enmap.rand_map(shape,wcs,cov,seed=1,**o)), np.asarray(m), "same seed, same map")
	with ctx.case("white maps"):
		wcs = G.mkwcs("CAR",(10,0),(-0.5,0.5),(2,3))
		for sh in ((2,3),(2,2,2)):
			L = response(ctx,lambda: enmap.rand_gauss(sh,wcs)); ctx.close(L.dot(L.T), np.eye(len(L)), 1e-12, 1e-12, "pixels are independent"); L = response(ctx,lambda: enmap.rand_gauss_harm(sh,wcs)); ctx.close(L.dot(L.T), np.eye(len(L)), 1e-12, 1e-12, "modes are independent")
			ctx.check(enmap.rand_gauss(sh,wcs,dtype=np.float32).dtype == np.float32, "precision")
def unit_uht(ctx, items):
	for shape, kind, name, nc in items:
		with ctx.case("unified interface", shape=shape, kind=kind, spectrum=name, ncomp=nc):
			ny, nx = shape
			if kind == "flat":
				wcs = G.mkwcs("CAR",(10,0),(-0.5,0.5),(2,3)); u = uharm.UHT(shape,wcs,mode="flat"); l = np.asarray(enmap.lmap(shape,wcs)); lab = np.sqrt(np.sum(l**2,0)); lab = np.round(lab/np.max(lab)*4).astype(int); P = spec(name,max(nc,1),6)[:,:,lab]; hp = enmap.enmap(P if nc else P[0,0],wcs); k = np.array(hp)
				L = response(ctx,lambda: u.harm2map(u.hrand(hp))); ctx.eq(np.array(hp),k,"profile"); want = flat_cov(P*ny*nx/enmap.area(shape,wcs),ny,nx); ctx.close(L.dot(L.T), want, 1e-9, 1e-9*max(1e-300,np.max(np.abs(want))), "covariance of the map")
				H = response(ctx,lambda: u.hrand(hp)); n = H.shape[0]//2; pw = np.sum(H[:n]**2+H[n:]**2,1).reshape((max(nc,1),ny,nx)); ctx.close(pw, np.einsum("aayx->ayx",P), 1e-9, 1e-9, "power of the modes"); m = u.harm2map(u.hrand(hp)); ctx.close(u.map2harm(m).shape, hp.shape[1:] if nc else hp.shape, 0, 0, "shape")
			else:
				lm = 3; sh, wcs = enmap.fullsky_geometry(np.pi/6); u = uharm.UHT(sh,wcs,lmax=lm,mode="curved"); C = spec(name,max(nc,1),lm+1); hp = C if nc else C[0,0]; ls = [l for m in range(lm+1) for l in range(m,lm+1)]; ms = [m for m in range(lm+1) for l in range(m,lm+1)]; L = response(ctx,lambda: u.hrand(hp)); want = alm_cov(C,ls,ms,max(nc,1)); ctx.close(L.dot(L.T), want, 1e-10, 1e-10*max(1e-300,np.max(np.abs(want))), "covariance")
def unit_seed(ctx, items):
	for seed, nc in items:
		with ctx.case("seeds", seed=seed, ncomp=nc):
			C = spec("correlated",nc,6); np.random.seed(77); a = curvedsky.rand_alm(C,seed=seed); np.random.standard_normal(5); ctx.eq(curvedsky.rand_alm(C,seed=seed), a, "same seed, same sky"); ctx.check(not np.allclose(curvedsky.rand_alm(C,seed=seed+10),a), "another seed, another sky"); ctx.check(not np.allclose(curvedsky.rand_alm(C),curvedsky.rand_alm(C)), "without a seed the sky varies"); b = curvedsky.rand_alm_healpy(C,seed=seed); ctx.eq(curvedsky.rand_alm_healpy(C,seed=seed), b, "same seed, healpy")
			np.random.seed(seed); ctx.eq(curvedsky.rand_alm(C), a, "global seed")
			sh, wcs = enmap.fullsky_geometry(np.pi/8); m = curvedsky.rand_map((nc,)+sh if nc > 1 else sh,wcs,C if nc > 1 else C[0,0],seed=seed,spin=[0,2] if nc != 2 else [2]); w = curvedsky.alm2map(b if nc > 1 else b[0], enmap.zeros((nc,)+sh if nc > 1 else sh,wcs),spin=[0,2] if nc != 2 else [2]); ctx.close(m, w, 1e-10, 1e-10, "map of the coefficients"); ctx.eq(np.asarray(curvedsky.rand_map(m.shape,wcs,C if nc > 1 else C[0,0],seed=seed,spin=[0,2] if nc != 2 else [2])), np.asarray(m), "same seed, same map")
			if nc == 1:
				C = spec("ramp",1,9)[0,0]
				for l1, l2 in itertools.combinations(range(1,9),2):
					a, b = curvedsky.rand_alm(C,lmax=l1,seed=seed), curvedsky.rand_alm(C,lmax=l2,seed=seed); i1, i2 = curvedsky.alm_info(l1), curvedsky.alm_info(l2)
					for m in range(l1+1): ctx.close(a[i1.lm2ind(np.arange(m,l1+1),m)], b[i2.lm2ind(np.arange(m,l1+1),m)], 1e-12, 0, "large scales do not depend on lmax")
			if nc > 1:
				p1, c1, _ = lensing.rand_alm(C,seed=seed,phi_seed=5); p2, c2, _ = lensing.rand_alm(C*(np.eye(nc)[:,:,None]),seed=seed,phi_seed=5); p3, c3, _ = lensing.rand_alm(C*(np.eye(nc)[:,:,None]),seed=seed+9,phi_seed=5); ctx.eq(p2, p3, "the lensing field depends on its own seed only"); ctx.check(not np.allclose(c2,c3), "the cmb does not")
def units(tier):
	q = tier == "quick"
	us = chunked("alm", [(s,nc,nl,lm,d) for s in SPECS for nc in (1,2,3,4) for nl, lm in ((1,None),(2,None),(3,None),(4,None),(4,2),(3,4),(5,None)) for d in (complex,np.complex64) if not (q and (nc*nl > 9 or (d != complex and nl > 3)))], unit_alm, 16)
	us += chunked("lens", [(s,nc,nl,lm,p) for s in SPECS for nc in (2,3,4) for nl, lm in ((1,None),(2,None),(3,None),(4,2),(2,3)) for p in (None,7) if not (q and nc*nl > 9)], unit_lens, 8)
	fl = []
	for sh in ((2,2),(3,4),(4,5),(1,3,4),(2,2,3),(2,4,4),(3,3,4),(3,4,5)):
		if q and np.prod(sh) > 40: continue
		nc = sh[0] if len(sh) == 3 else 1; os_ = ([{}] if nc != 2 else [])+([{"scalar":True}] if nc <= 3 else [])+(([{"iau":True}] if nc == 3 else [])+[{"spin":[0]}] if nc > 1 else [])+([{"spin":[2]},{"spin":[2],"iau":True},{"spin":[1]}] if nc == 2 else [])
		for o in os_:
			for s in ("ramp","steep","gap","correlated","full"):
				if len(sh) == 3: fl += [(sh,"2d",s,tuple({**o,"pixel_units":p}.items())) for p in (False,True)]
			for s in ("white","correlated","vector"): fl.append((sh,"white",s,tuple(o.items())))
			fl.append((sh,"smooth","correlated",tuple(o.items())))
	us += chunked("flat", fl, unit_flat, 16)
	us += chunked("uht", [(sh,k,s,n) for sh in ((2,3),(4,4),(3,5)) for k in ("flat","curved") for s in SPECS for n in (0,1,2,3) if not (q and np.prod(sh)*max(n,1) > 32)], unit_uht, 8)
	us += chunked("seed", [(s,n) for s in range(4) for n in (1,2,3)], unit_seed, 4)
	return us
