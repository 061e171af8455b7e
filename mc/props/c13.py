"""C13: spherical-harmonic analysis, rotations and radial profiles."""
import numpy as np, itertools
from pixell import curvedsky, enmap, utils
from ..core import chunked
from ..geo import mkwcs, ref_pix2sky, pixgrid, wcs_key
from .. import sht
from .c12 import fullsky, cut, geos, layouts, pos, groups, Ref, fill, mdata, sky, make, unflat

RULE   = "every geometry x method x layout x iteration count; the analysis operator (all pixel impulses) and its adjoint (all coefficient impulses) are compared with the matrix algebra Y'W, Jacobi iterated, built from brute-force harmonics and independently derived quadrature weights; exactness on band-limited skies; every rotation, direction and profile length compared with closed forms"
BOUNDS = "lmax up to 4 (thorough 6), the C12 geometries plus grids with 5..9 rows, niter 0..2, spins 0..2, Euler angles on a 5^3 grid, profiles of 4..9 samples in 6 samplings, healpix nside 1..2"
ASSUME = ["map2alm of derivatives is not supported by the library and not claimed", "ducc0's accuracy settings are honoured to 10x"]

def grid_theta(kind, ny):
	i = np.arange(ny)
	return {"CC":i*np.pi/max(ny-1,1), "F1":(i+0.5)*np.pi/ny, "MW":(2*i+1)*np.pi/(2*ny-1), "MWflip":2*i*np.pi/(2*ny-1), "DH":i*np.pi/ny, "F2":(i+1)*np.pi/(ny+1)}[kind]
def quad(kind, ny):
	"""Interpolatory quadrature weights for the integral over cos(theta), from north to south"""
	if kind == "DH": return np.concatenate([[0],quad("F2",ny-1)])
	x = np.cos(grid_theta(kind,ny)); V = np.polynomial.legendre.legvander(x, ny-1).T
	e = np.zeros(ny); e[0] = 2; return np.linalg.solve(V, e)
LIM = {"CC":lambda n:n-2, "DH":lambda n:(n-2)//2, "F2":lambda n:(n-1)//2, "F1":lambda n:n-1, "MW":lambda n:n-1, "MWflip":lambda n:n-1}

def rowweights(name, shape, wcs):
	"""Expected weights per row of the map, in map order; None if the geometry is not cylindrical"""
	proj = wcs.wcs.ctype[0][-3:]; ny, nx = shape
	w = wcs.deepcopy(); w.wcs.bounds_check(False,False)
	if proj not in ("CAR","CEA","MER") or wcs.wcs.crval[1] != 0: return None
	dx = abs(wcs.wcs.cdelt[0])*np.pi/180
	dec = ref_pix2sky(w, np.array([np.arange(ny),np.zeros(ny)]))[0]
	if proj == "CAR" and name != "offcar" and abs(round(2*np.pi/dx)-2*np.pi/dx) < 1e-6:
		dt = abs(wcs.wcs.cdelt[1])*np.pi/180; th = np.pi/2-dec
		for kind in ("F2","DH","CC","F1"):          # no quadrature weights for MW: pixel areas are used
			n0 = {"CC":np.pi/dt+1,"F1":np.pi/dt,"DH":np.pi/dt,"F2":np.pi/dt-1}[kind]
			if abs(n0-round(n0)) > 1e-6: continue
			if kind in ("DH","F2") and round(n0) != ny: continue
			n0 = int(round(n0)); g = grid_theta(kind,n0); W = quad(kind,n0)
			ind = [int(np.argmin(np.abs(g-t))) for t in th]
			if np.max(np.abs(g[ind]-th)) < 1e-6: return W[ind]*dx
	e = ref_pix2sky(w, np.array([[-0.5+k for k in range(ny+1)],np.zeros(ny+1)]))[0] if proj == "MER" else None
	if proj == "CAR":
		s = abs(wcs.wcs.cdelt[1])*np.pi/180; lo, hi = np.clip(dec-s/2,-np.pi/2,np.pi/2), np.clip(dec+s/2,-np.pi/2,np.pi/2); return (np.sin(hi)-np.sin(lo))*dx
	if proj == "CEA": return np.full(ny, abs(wcs.wcs.cdelt[1])*np.pi/180)*dx
	return np.abs(np.diff(np.sin(e)))*dx

def used(ai, a):
	"""Only the elements that hold coefficients; layouts can have gaps, whose content is not specified"""
	return np.asarray(a)[...,[pos(ai,l,m) for l,m in sht.LM(ai.lmax,ai.mmax)]]

class Lin:
	"""The real-linear synthesis matrix for one spin, coefficients (c,l,m,part); inner product counts m>0 twice"""
	def __init__(self, R, s, ai):
		c, i, m, part, B = R.mat(s, ai); self.c, self.i, self.part, self.m = c, i, part, m
		self.Y = B.reshape(len(B),-1).T.copy()      # [nc*npix, nb]
		self.g = np.where(m, 2.0, 1.0)               # metric
		self.nc = 1 if s == 0 else 2; self.nelem = ai.nelem
	@property
	def YT(self): return (self.Y/self.g).T          # adjoint w.r.t. the metric
	def pack(self, alm): v = alm[...,self.c,self.i]; return np.where(self.part, v.imag, v.real)
	def unpack(self, v):
		alm = np.zeros(v.shape[:-1]+(self.nc,self.nelem),complex)
		for j in range(len(self.c)): alm[...,self.c[j],self.i[j]] += v[...,j]*(1j if self.part[j] else 1)
		return alm
def jacobi(F, B, niter):
	"""operator matrix of n jacobi steps with forward F, approximate inverse B"""
	X = B.copy()
	for _ in range(niter): X = X - B @ (F @ X) + B
	return X

def unit_cyl(ctx, items):
	lmax = 3 if ctx.quick else 4
	for name in items:
		shape, wcs, methods, auto, ok, R = make(name, lmax); ny, nx = shape
		roww = rowweights(name, shape, wcs)
		for method in ("auto","cyl","general"):
			eff = auto if method == "auto" else method
			if eff == "2d" or (eff not in methods): continue
			RX, sel = R, np.full(int(ok.sum()), True)
			extra = {}
			if eff == "cyl":
				w = np.repeat(roww, nx)
				# partial rows are zero-padded to full ones
				nf = int(round(360/abs(wcs.wcs.cdelt[0]))); dr, _ = sky((ny,nf),wcs)
				if nf != nx: RX = Ref((np.pi/2-dr[0]).reshape(-1), dr[1].reshape(-1)%(2*np.pi), lmax); sel = np.tile(np.arange(nf) < nx, ny)
				wx = np.repeat(roww, nf)
			else:
				w = np.asarray(enmap.pixsizemap(shape, wcs), float)[ok]
				if np.any(~np.isfinite(w)): w = np.where(np.isfinite(w), w, 0.2); extra["weights"] = w     # partially off the sky: area not defined
				wx = w
			t = 3e-5 if eff == "general" else 1e-9
			for (lay, ai), niter in itertools.product(layouts(lmax, lmax-1), (0,1,2)):
				if lay != "tri" and niter == 1: continue
				if eff == "general" and ctx.quick and (niter == 2 or lay == "rect"): continue
				for spin, nc in ((0,1),([0,2],3)):
					L = [(Lin(RX,s,ai),i,j) for s, i, j in groups(spin, nc, 0)]
					npix = ny*nx; okf = ok.reshape(-1); noff = int((~okf).sum())
					with ctx.case("map2alm", geo=name, method=method, layout=lay, niter=niter, spin=spin):
						mp = np.eye(nc*npix).reshape((nc*npix,nc)+shape) if nc > 1 else np.eye(npix).reshape((npix,)+shape)
						emp = enmap.ndmap(mp.copy() if nc > 1 else mp.copy()[:,None], wcs)
						want = np.zeros((nc*npix,nc,ai.nelem),complex); scale = 1
						for l, i, j in L:
							K = jacobi(l.Y, l.YT*np.tile(wx,l.nc), niter)[:,np.tile(sel,l.nc)]
							want[:,i:j] = l.unpack(mp.reshape(-1,nc,npix)[:,i:j][...,okf].reshape(len(want),-1) @ K.T)
							scale = max(scale, np.abs(K).max())
						got = curvedsky.map2alm(emp, ainfo=ai, spin=spin, method=method, niter=niter, epsilon=1e-9 if eff == "general" else None, **extra)
						ctx.close(used(ai,got), used(ai,want), rtol=0, atol=t*scale, msg="analysis"); ctx.eq(np.asarray(emp).reshape(-1), mp.reshape(-1), "map unchanged")
					with ctx.case("map2alm_adjoint", geo=name, method=method, layout=lay, niter=niter, spin=spin):
						imp, wn = [], []
						for l, i, j in L:
							K = jacobi(l.Y, l.YT*np.tile(wx,l.nc), niter)[:,np.tile(sel,l.nc)]; KT = K.T*l.g[None]    # <a,K m> = <K' a,m>
							a = np.zeros((len(l.g),nc,ai.nelem),complex); a[:,i:j] = l.unpack(np.eye(len(l.g))); imp.append(a)
							o = np.zeros((len(l.g),nc,npix)); o[:,i:j][...,okf] = KT.T.reshape(len(l.g),l.nc,-1); wn.append(o)
						alm = np.concatenate(imp); want = np.concatenate(wn); al0 = alm.copy()
						om = enmap.ndmap(np.full((len(alm),nc)+shape,0.0), wcs)
						got = curvedsky.map2alm_adjoint(alm, om, ainfo=ai, spin=spin, method=method, niter=niter, epsilon=1e-9 if eff == "general" else None, **extra)
						ctx.check(got is om, "returns the map it was given"); ctx.close(np.asarray(got).reshape(want.shape), want, rtol=0, atol=t*max(1,np.abs(want).max()), msg="adjoint analysis"); ctx.eq(alm, al0, "coefficients unchanged")
			# options: dtypes, copies, explicit weights, leading dimensions, inferred layout
			ai = curvedsky.alm_info(lmax); 
			for dt, (spin,pre) in itertools.product(("f4","f8"), [(0,()),([0,2],(3,)),([0,2],(2,3)),(2,(2,)),([0,1],(3,)),(0,(2,2))]):
				cdt = np.complex64 if dt == "f4" else np.complex128; tt = 2e-4 if dt == "f4" else t*10
				with ctx.case("map2alm options", geo=name, method=method, dtype=dt, spin=spin, pre=pre):
					mp = enmap.ndmap(mdata(pre+shape, dt), wcs); m0 = np.array(mp)
					want = R.YT(ai, np.asarray(mp,float)[...,ok]*w, spin, 0)
					kw = dict(spin=spin, method=method); dkw = dict(kw, **{k:v.astype(dt) for k,v in extra.items()})
					got = curvedsky.map2alm(mp, lmax=lmax, **dkw); ctx.close(got, want, rtol=0, atol=tt, msg="allocated from lmax"); ctx.eq(got.dtype, np.dtype(cdt), "dtype")
					al = np.zeros(pre+(ai.nelem,),cdt); got = curvedsky.map2alm(mp, al, **dkw); ctx.check(got is al, "same array"); ctx.close(got, want, rtol=0, atol=tt, msg="given")
					al = fill(ai,pre,cdt,3); a0 = al.copy(); got = curvedsky.map2alm(mp, al, copy=True, **dkw); ctx.eq(al, a0, "copy=True leaves the coefficients alone"); ctx.close(got, want, rtol=0, atol=tt, msg="copy")
					if eff == "cyl":
						ws = roww*(1+0.1*np.arange(ny)); got = curvedsky.map2alm(mp, lmax=lmax, weights=ws.astype(dt), **kw); ctx.close(got, R.YT(ai, np.asarray(mp,float)[...,ok]*np.repeat(ws,nx), spin, 0), rtol=0, atol=tt, msg="weights per row")
					else:
						ws = w*(1+0.1*np.cos(np.arange(len(w)))); li = curvedsky.calc_locinfo(shape,wcs); got = curvedsky.map2alm(mp, lmax=lmax, weights=ws.astype(dt), locinfo=li, **kw); ctx.close(got, R.YT(ai, np.asarray(mp,float)[...,ok]*ws, spin, 0), rtol=0, atol=tt, msg="weights per pixel")
					ctx.eq(np.asarray(mp), m0, "map unchanged")
					alm = fill(ai,pre,cdt,5); om = enmap.ndmap(mdata(pre+shape,dt,4), wcs); o0 = np.array(om); got = curvedsky.map2alm_adjoint(alm, om, copy=True, **dkw); ctx.eq(np.asarray(om), o0, "copy=True leaves the map alone")
					want = unflat(shape,ok,R.Y(ai,alm,spin,0)*w,0.0); want[...,~ok] = o0[...,~ok]; ctx.close(np.asarray(got), want, rtol=0, atol=tt, msg="adjoint"); ctx.eq(got.dtype, np.dtype(dt), "dtype")

def check_quad(ctx, kind, ny, nx, up, shape, wcs):
	w = curvedsky.quad_weights(shape, wcs); W = quad(kind,ny)*2*np.pi/nx; W = W[::-1] if up else W
	ctx.close(w, W, rtol=0, atol=1e-9, msg="weights in map order")
	for y1, y2 in itertools.combinations(range(ny+1),2):
		if kind in ("DH","F2"): continue
		if kind == "CC" and ((y1,y2) in ((1,ny-1),) or y2-y1 == ny-1): continue       # these are F2 or DH grids of their own
		s2, w2 = cut((shape,wcs),y1,y2,0,nx); ctx.close(curvedsky.quad_weights(s2,w2), W[y1:y2], rtol=0, atol=1e-9, msg="weights of a band, rows %d:%d" % (y1,y2))

def unit_2d(ctx, items):
	for kind, ny, up, left in items:
		L = LIM[kind](ny); nx = 2*max(L,1)+2
		(shape, wcs) = fullsky(kind, ny, nx, up, left, 20, 3); dr, ok = sky(shape,wcs); th, ph = (np.pi/2-dr[0]).reshape(-1), dr[1].reshape(-1)%(2*np.pi)
		dsc = dict(kind=kind, ny=ny, up=up, left=left)
		with ctx.case("get_method", **dsc): ctx.eq(curvedsky.get_method(shape,wcs), "2d", "method")
		with ctx.case("quad_weights", **dsc):
			if kind in ("MW","MWflip"): ctx.raises(lambda: curvedsky.quad_weights(shape,wcs), ValueError, "no weights available")
			else: check_quad(ctx, kind, ny, nx, up, shape, wcs)
		R = Ref(th, ph, L)
		for lm, mm in [(L,L),(max(L-1,0),max(L-2,0)),(L,0)]:
			for (lay, ai), (spin,nc) in itertools.product(layouts(lm, mm), ((0,1),([0,2],3),(1,2))):
				if lm < np.max(spin): continue
				ls = [(Lin(R,s,ai),i,j) for s, i, j in groups(spin, nc, 0)]
				with ctx.case("band-limited sky", lmax=lm, mmax=mm, layout=lay, spin=spin, **dsc):
					maps, want = [], []
					for l, i, j in ls:
						n = len(l.g); a = np.zeros((n,nc,ai.nelem),complex); a[:,i:j] = l.unpack(np.eye(n)); m = np.zeros((n,nc)+shape); m[:,i:j] = l.Y.T.reshape((n,l.nc)+shape); maps.append(m); want.append(a)
					mp = enmap.ndmap(np.concatenate(maps), wcs); want = np.concatenate(want)
					# harmonics with l < spin do not exist
					for l, i, j in ls:
						if l.nc == 2:
							s = [s for s,a,b in groups(spin,nc,0) if a == i][0]
							for (ll,m) in sht.LM(lm,mm):
								if ll < s: want[:,i:j,pos(ai,ll,m)] = 0
					got = curvedsky.map2alm(mp, ainfo=ai, spin=spin); ctx.close(used(ai,got), used(ai,want), rtol=0, atol=1e-9, msg="coefficients recovered")
					if ctx.thorough or lay == "tri":
						got = curvedsky.map2alm(mp.astype(np.float32), ainfo=ai, spin=spin); ctx.close(used(ai,got), used(ai,want), rtol=0, atol=2e-5*ny, msg="single precision")
				if ctx.quick and lay != ("tri" if lm != L or mm != L else "custom"): continue
				with ctx.case("adjoint of 2d analysis", lmax=lm, mmax=mm, layout=lay, spin=spin, **dsc):
					npix = ny*nx
					K = curvedsky.map2alm(enmap.ndmap(np.eye(nc*npix).reshape((-1,nc)+shape),wcs), ainfo=ai, spin=spin)
					for l, i, j in ls:
						n = len(l.g); a = np.zeros((n,nc,ai.nelem),complex); a[:,i:j] = l.unpack(np.eye(n))
						A = np.asarray(curvedsky.map2alm_adjoint(a, enmap.ndmap(np.zeros((n,nc)+shape),wcs), ainfo=ai, spin=spin)).reshape(n,-1)
						Kp = l.pack(K[:,i:j])*l.g               # [pix, nb]
						ctx.close(A, Kp.T, rtol=0, atol=1e-9, msg="adjoint")
		# zero-padding of partial maps, and ignoring of l above the limit
		ai = curvedsky.alm_info(L); full = mdata((3,)+shape,"f8")
		with ctx.case("partial sky with the 2d method", **dsc):
			if L >= 2 and kind not in ("DH","F2"):
				for y1,y2,x1,x2 in [(0,ny,1,nx-2),(1,ny-1,0,nx),(0,ny-1,2,5),(1,ny,0,1),(2,3,1,nx)]:
					if kind == "CC" and (y2-y1 == ny-1 or (y1,y2) == (1,ny-1)): continue
					z = np.zeros_like(full); z[:,y1:y2,x1:x2] = full[:,y1:y2,x1:x2]; s2, w2 = cut((shape,wcs),y1,y2,x1,x2)
					ref = curvedsky.map2alm(enmap.ndmap(z,wcs), lmax=L); got = curvedsky.map2alm(enmap.ndmap(np.ascontiguousarray(full[:,y1:y2,x1:x2]),w2), lmax=L, method="2d"); ctx.close(got, ref, rtol=0, atol=1e-9, msg="rows %d:%d columns %d:%d" % (y1,y2,x1,x2))
		with ctx.case("too high lmax", **dsc):
			if L >= 2:
				big = curvedsky.map2alm(enmap.ndmap(full,wcs), lmax=L+3); ref = curvedsky.map2alm(enmap.ndmap(full,wcs), lmax=L); bi = curvedsky.alm_info(L+3)
				for l, m in sht.LM(L+3): ctx.close(big[:,pos(bi,l,m)], ref[:,pos(ai,l,m)] if l <= L else np.zeros(3), rtol=0, atol=1e-9, msg="l=%d m=%d" % (l,m))
		with ctx.case("filter", **dsc):
			if L >= 2:
				f = 1/(1.0+np.arange(L+1)); 
				for fl in (f, lambda l: 1/(1.0+l)):
					alm = fill(ai,(2,),np.complex128); mp = enmap.ndmap(R.Y(ai,alm,0,0).reshape((2,)+shape),wcs); got = curvedsky.filter(mp, fl, lmax=L)
					fa = alm.copy()
					for l, m in sht.LM(L): fa[:,pos(ai,l,m)] *= f[l]
					ctx.close(np.asarray(got), R.Y(ai,fa,0,0).reshape((2,)+shape), rtol=0, atol=1e-9, msg="filtered"); ctx.eq(wcs_key(got.wcs), wcs_key(wcs), "coordinates")

def unit_rotate(ctx, items):
	lmax = 3 if ctx.quick else 4; ai = curvedsky.alm_info(lmax)
	rng = np.linspace(0.1,3.0,7); th, ph = np.meshgrid(rng, np.arange(8)*0.8, indexing="ij"); th, ph = th.reshape(-1), ph.reshape(-1)
	def Rz(a): return np.array([[np.cos(a),-np.sin(a),0],[np.sin(a),np.cos(a),0],[0,0,1]])
	def Ry(a): return np.array([[np.cos(a),0,np.sin(a)],[0,1,0],[-np.sin(a),0,np.cos(a)]])
	R = Ref(th, ph, lmax); v = np.array([np.sin(th)*np.cos(ph),np.sin(th)*np.sin(ph),np.cos(th)])
	for psi, theta, phi in items:
		with ctx.case("rotate_alm", psi=psi, theta=theta, phi=phi):
			M = Rz(phi) @ Ry(theta) @ Rz(psi)     # rotates points of the sky
			u = M.T @ v; R2 = Ref(np.arctan2(np.hypot(u[0],u[1]),u[2]), np.arctan2(u[1],u[0])%(2*np.pi), lmax)
			for pre in ((),(2,),(2,3)):
				alm = fill(ai,pre,np.complex128); a0 = alm.copy()
				want = R2.Y(ai, alm if pre else alm[None], 0, 0)
				got = curvedsky.rotate_alm(alm, psi, theta, phi); ctx.eq(alm, a0, "input unchanged"); ctx.close(R.Y(ai, got if pre else got[None],0,0), want, rtol=0, atol=1e-9, msg="rotated field")
				ctx.close(curvedsky.rotate_alm(got,-phi,-theta,-psi), a0, rtol=0, atol=1e-9, msg="rotated back")
				ip = alm.copy(); r = curvedsky.rotate_alm(ip, psi, theta, phi, inplace=True); ctx.check(r is ip, "in place"); ctx.close(ip, got, rtol=0, atol=1e-12, msg="in place")
				ctx.close(curvedsky.rotate_alm(alm.astype(np.complex64), psi, theta, phi), got, rtol=0, atol=1e-5, msg="single precision")
				ctx.close(curvedsky.rotate_alm(alm, psi, theta, phi, method="healpy"), got, rtol=0, atol=1e-8, msg="healpy")

def unit_prof(ctx, items):
	for what, arg in items:
		if what == "harm2profile":
			n = arg
			for pre, dt in itertools.product(((),(3,),(2,2)), ("f4","f8")):
				with ctx.case("harm2profile", nl=n, pre=pre, dtype=dt):
					bl = mdata(pre+(n,), dt); r = np.linspace(0,np.pi,2*n+1); r0 = r.copy(); P = np.polynomial.legendre.legvander(np.cos(r), n-1)
					want = np.einsum("...l,rl->...r", bl.astype(float)*(2*np.arange(n)+1)/(4*np.pi), P)
					got = curvedsky.harm2profile(bl, r); ctx.close(got, want, rtol=0, atol=1e-4 if dt == "f4" else 1e-10, msg="profile"); ctx.eq(got.dtype, np.dtype(dt), "dtype"); ctx.eq(r, r0, "input unchanged")
					ctx.close(curvedsky.harm2profile(bl, r[[2,0,1]]), want[...,[2,0,1]], rtol=0, atol=1e-4 if dt == "f4" else 1e-10, msg="any radii")
				with ctx.case("profile2harm", nl=n, pre=pre, dtype=dt):
					# on a full grid the transform is exact for profiles without power above lmax
					if n < 2: continue
					bl = mdata(pre+(n,), dt)
					for nr in (2*n+1,3*n):
						r = np.linspace(0,np.pi,nr); P = np.polynomial.legendre.legvander(np.cos(r), n-1); br = np.einsum("...l,rl->...r", bl.astype(float)*(2*np.arange(n)+1)/(4*np.pi), P).astype(dt); b0 = br.copy()
						got = curvedsky.profile2harm(br, r, lmax=n-1); ctx.close(got, bl, rtol=0, atol=1e-4 if dt == "f4" else 1e-9, msg="harmonics recovered"); ctx.eq(got.dtype, np.dtype(dt), "dtype"); ctx.eq(br, b0, "input unchanged")
					ctx.eq(curvedsky.profile2harm(br, r).shape, pre+(nr//2,), "default lmax")
		elif what == "prof2alm":
			kind, n = arg; L = LIM[kind](n); th = grid_theta(kind, n); ao = curvedsky.alm_info(L)
			if L < 1: continue
			for (spin,pre), d in itertools.product([(0,()),(0,(2,)),([0,2],(3,)),(0,(2,2)),(2,(2,)),([0,2],(2,3))], [(0,np.pi/2),(0.7,0.3),(-2.0,-1.1),(3.0,-np.pi/2)]):
				if L < np.max(spin): continue
				with ctx.case("prof2alm", kind=kind, n=n, spin=spin, pre=pre, dir=d):
					ai0 = curvedsky.alm_info(L, 0); a0 = fill(ai0, pre, np.complex128)
					for s, i, j in groups(spin, pre[-1] if pre else 1, 0):
						if s: a0[...,i:j,:s] = 0       # no such harmonics
					R = Ref(th, th*0, L); prof = R.Y(ai0, a0, spin, 0)
					got = curvedsky.prof2alm(prof, dir=list(d), spin=spin, geometry=kind)
					want = np.zeros(pre+(ao.nelem,),complex)
					for l, m in sht.LM(L): want[...,pos(ao,l,m)] = a0[...,l]*np.sqrt(4*np.pi/(2*l+1))*np.conj(sht.sylm(0,l,m,np.array([np.pi/2-d[1]]),np.array([d[0]]))[0])
					ctx.close(got, want, rtol=0, atol=1e-9, msg="coefficients")
					nr = curvedsky.prof2alm(prof, spin=spin, geometry=kind, norot=True); ctx.close(nr, a0, rtol=0, atol=1e-9, msg="not rotated")
		elif what == "minres":
			with ctx.case("inverses", n=arg):
				n = arg; M = np.array([[np.cos(1.3*i*j+i)+2*(i==j) for j in range(n)] for i in range(n+2)]); A = np.linalg.pinv(M)*0+M.T/np.linalg.norm(M)**2
				x = np.cos(np.arange(n)*2.2)+0.1; y = M@x
				ctx.close(curvedsky.minres_inverse(lambda v:M@v, lambda v:A@v, y, epsilon=1e-12), x, rtol=0, atol=1e-6, msg="minres")
				for k in (0,1,3): ctx.close(curvedsky.jacobi_inverse(lambda v:M@v, lambda v:A@v, y, niter=k), jacobi(M,A,k)@y, rtol=0, atol=1e-9, msg="jacobi")

def unit_healpix(ctx, items):
	import healpy
	for nside, spin, pre, dt, lim in items:
		lmax = 3; npix = 12*nside**2; th, ph = healpy.pix2ang(nside, np.arange(npix)); R = Ref(th,ph,lmax)
		sel = np.full(npix,True)
		if lim[0] is not None: sel &= th >= lim[0]
		if lim[1] is not None: sel &= th <= lim[1]
		cdt = np.complex64 if dt == "f4" else np.complex128; t = 2e-4 if dt == "f4" else 1e-9
		for (lay, ai), niter in itertools.product(layouts(lmax,lmax-1), (0,1,2)):
			with ctx.case("map2alm_healpix", nside=nside, spin=spin, pre=pre, dtype=dt, layout=lay, niter=niter, lim=lim):
				mp = mdata(pre+(npix,), dt); m0 = mp.copy(); m2 = mp.reshape((-1,)+mp.shape[-2:]) if mp.ndim > 1 else mp[None,None]
				kw = dict(ainfo=ai, spin=spin, niter=niter, theta_min=lim[0], theta_max=lim[1])
				want = np.zeros(m2.shape[:-1]+(ai.nelem,),complex)
				for s, i, j in groups(spin, m2.shape[-2], 0):
					l = Lin(R,s,ai); S = np.tile(sel,l.nc); Y = l.Y[S]; K = jacobi(Y, (Y/l.g).T*(4*np.pi/npix), niter); want[:,i:j] = l.unpack(m2[:,i:j].reshape(len(m2),-1)[:,S] @ K.T)
				want = want.reshape(pre+(ai.nelem,))
				got = curvedsky.map2alm_healpix(mp, **kw); ctx.close(used(ai,got), used(ai,want), rtol=0, atol=t, msg="allocated"); ctx.eq(got.dtype, np.dtype(cdt), "dtype"); ctx.eq(mp, m0, "map unchanged")
				al = np.zeros(pre+(ai.nelem,),cdt); got = curvedsky.map2alm_healpix(mp, al, **kw); ctx.check(got is al, "same array"); ctx.close(used(ai,got), used(ai,want), rtol=0, atol=t, msg="given")
				al = fill(ai,pre,cdt); a0 = al.copy(); got = curvedsky.map2alm_healpix(mp, al, copy=True, **kw); ctx.eq(al,a0,"copy=True leaves the coefficients alone")
			with ctx.case("map2alm_healpix adjoint", nside=nside, spin=spin, pre=pre, dtype=dt, layout=lay, niter=niter, lim=lim):
				alm = fill(ai,pre,cdt); al0 = alm.copy(); a2 = alm.reshape((-1,)+alm.shape[-2:]) if alm.ndim > 1 else alm[None,None]
				want = np.zeros(a2.shape[:-1]+(npix,))
				for s, i, j in groups(spin, a2.shape[-2], 0):
					l = Lin(R,s,ai); S = np.tile(sel,l.nc); Y = l.Y[S]; K = jacobi(Y, (Y/l.g).T*(4*np.pi/npix), niter); o = np.zeros((len(a2),len(S))); o[:,S] = (l.pack(a2[:,i:j])*l.g) @ K; want[:,i:j] = o.reshape(len(a2),l.nc,npix)
				want = want.reshape(pre+(npix,))
				om = np.zeros(pre+(npix,),dt); got = curvedsky.map2alm_healpix(om, alm, adjoint=True, **kw); ctx.check(got is om, "same array"); ctx.close(got, want, rtol=0, atol=t, msg="adjoint"); ctx.eq(alm,al0,"coefficients unchanged")
				om = mdata(pre+(npix,),dt,2); o0 = om.copy(); got = curvedsky.map2alm_healpix(om, alm, adjoint=True, copy=True, **kw); ctx.eq(om,o0,"copy=True leaves the map alone"); ctx.close(np.where(sel,got,0), want, rtol=0, atol=t, msg="adjoint copy")

def units(tier):
	q = tier == "quick"
	names = [n for n in geos()]
	if q: names = [n for i, n in enumerate(names) if geos()[n][2] != "2d" or i % 3 == 0]
	two = [(k,n,u,l) for k in ("CC","F1","MW","MWflip","DH","F2") for n in ((5,6) if q else (4,5,6,7,8)) for u in (True,False) for l in (True,False)]
	ang = [0,0.4,-1.1,np.pi/2,2.9]; rot = list(itertools.product(ang,[0,0.3,1.2,-0.7,np.pi],ang))
	if q: rot = rot[::3]
	prof = [("harm2profile",n) for n in range(1,8)]+[("prof2alm",(k,n)) for k in ("CC","F1","MW","MWflip","DH","F2") for n in range(4,10)]+[("minres",n) for n in range(1,6)]
	hp = [(ns,s,p,dt,lim) for ns in ((1,2) if q else (1,2,3)) for s,p in [(0,()),([0,2],(3,)),(2,(2,)),([0,2],(2,3))] for dt in ("f4","f8") for lim in [(None,None),(0.8,2.2)]]
	return (chunked("analysis", names, unit_cyl, len(names)) + chunked("2d", two, unit_2d, 24) + chunked("rotate", rot, unit_rotate, 8)
		+ chunked("profiles", prof, unit_prof, 12) + chunked("healpix", hp, unit_healpix, 8))
