"""C12: spherical-harmonic synthesis and its adjoint."""
import numpy as np, itertools, warnings
from pixell import curvedsky, enmap, utils
from ..core import chunked
from ..geo import mkwcs, ref_pix2sky, pixgrid, same_sky, wcs_key
from .. import sht

RULE   = "every geometry x transform method x component/spin layout x coefficient layout x dtype; the whole operator (every coefficient impulse) and its adjoint (every pixel impulse) are compared with brute-force spin-weighted spherical harmonics at the pixel positions given by wcslib"
BOUNDS = "lmax up to 3 (thorough 5), mmax <= lmax, spins 0..3 and gradients, 6 full-sky samplings x 4 orientations, bands, patches across the seam, single rows and columns, CEA/MER, azimuthal and oblique maps with off-sky pixels, healpix nside 1..4, arbitrary position lists"
ASSUME = ["ducc0's numerical accuracy settings are honoured to 10x", "maps no wider than 360 degrees", "lmax at least as large as the spin (ducc0 requires it)"]

def fullsky(kind, ny, nx, up=True, left=True, ra0=0.0, cx=2.5):
	t0, dt = {"CC":(0,180/(ny-1)), "F1":(90/ny,180/ny), "MW":(180/(2*ny-1),360/(2*ny-1)), "MWflip":(0,360/(2*ny-1)),
		"DH":(0,180/ny), "F2":(180/(ny+1),180/(ny+1))}[kind]
	cy = 1+(90-t0)/dt
	if up: cy = ny+1-cy
	return (ny,nx), mkwcs("CAR", [ra0,0], [-360/nx if left else 360/nx, dt if up else -dt], [cx,cy])
def cut(g, y1, y2, x1, x2):
	shape, wcs = g; w = wcs.deepcopy(); w.wcs.crpix -= [x1,y1]; return (y2-y1,x2-x1), w

def geos(thorough=False):
	g = {}
	# name: (shape,wcs), methods beside auto, expected automatic method
	for kind, ny in [("CC",6),("F1",5),("MW",5),("MWflip",5),("DH",6),("F2",5),("CC",5),("F1",6)]:
		for up, left in [(True,True),(False,False),(True,False),(False,True)]:
			if (kind,ny) in (("CC",5),("F1",6)) and (up,left) != (True,True): continue
			g["%s%d%s%s" % (kind,ny,"u" if up else "d","l" if left else "r")] = (fullsky(kind,ny,8 if kind != "DH" else 9,up,left,15 if left else -100), ("2d","cyl","general"), "2d")
	for kind, up, left in [("CC",True,True),("F1",False,False),("MW",True,False),("MWflip",False,True)]:
		b = fullsky(kind,7,10,up,left,30,6)
		g["%s_band"%kind] = (cut(b,1,5,0,10), ("2d","cyl","general"), "cyl")
		g["%s_part"%kind] = (cut(b,2,6,1,6), ("2d","cyl","general"), "cyl")
		g["%s_seam"%kind] = (cut(b,0,4,-3,5), ("2d","cyl","general"), "cyl")
		g["%s_row"%kind]  = (cut(b,2,3,0,10), ("2d","cyl","general"), "cyl")
		g["%s_col"%kind]  = (cut(b,1,6,4,5), ("2d","cyl","general"), "cyl")
	g["cea"]   = ((5,8), mkwcs("CEA",[40,0],[-45,20],[4,3],[(2,1,1.0)])), ("cyl","general"), "cyl"
	g["ceafull"] = ((5,8), mkwcs("CEA",[40,0],[-45,360/np.pi/5],[4,3],[(2,1,1.0)])), ("cyl","general"), "cyl"
	g["cea_p"] = ((4,5), mkwcs("CEA",[40,0],[45,-20],[1,2.5],[(2,1,1.0)])), ("cyl","general"), "cyl"
	g["mer"]   = ((5,9), mkwcs("MER",[-20,0],[-40,30],[4,2.5])), ("cyl","general"), "cyl"
	g["offcar"]= ((4,8), mkwcs("CAR",[10,0],[-45,37],[4,2.2])), ("cyl","general"), "cyl"
	g["nodiv"] = ((4,6), mkwcs("CAR",[10,0],[-35,30],[4,2])), ("general",), "general"
	g["obl"]   = ((4,5), mkwcs("CAR",[10,30],[-20,20],[3,2])), ("general",), "general"
	g["tan"]   = ((5,4), mkwcs("TAN",[50,30],[-15,15],[3,2.5])), ("general",), "general"
	g["arcp"]  = ((5,5), mkwcs("ARC",[0,90],[-30,30],[3,3])), ("general",), "general"
	g["zea"]   = ((7,7), mkwcs("ZEA",[120,-60],[30,30],[4,4])), ("general",), "general"
	g["sinrow"]= ((1,5), mkwcs("SIN",[350,-10],[-30,30],[3,1])), ("general",), "general"
	return g
COMPS = [(0,(),0),([0,2],(),0),([0,2],(3,),0),(2,(2,),0),([0],(2,),0),([0,1,2],(5,),0),([1,3],(4,),0),([0,2],(2,3),0),(0,(2,1,3),0),([0,2],(1,),0),([0,2],(6,),0),
	(0,(),1),(0,(2,),1),(0,(2,3),1),(0,(1,),1)]

def layouts(lmax, mmax):
	yield "tri", curvedsky.alm_info(lmax, mmax)
	yield "rect", curvedsky.alm_info(lmax, mmax, layout="rect")
	yield "custom", curvedsky.alm_info(lmax, mmax, layout=np.array([(mmax-m)*(lmax+3)+1 for m in range(mmax+1)]))
def pos(ai, l, m): return int(ai.mstart[m])+l*ai.stride
def groups(spin, n, deriv):
	"""component slices and spins"""
	sp = list(np.array(spin).reshape(-1)); i = k = 0
	while i < n:
		s = sp[k % len(sp)]; w = 1 if s == 0 else 2; yield s, i, i+w; i += w; k += 1
class Ref:
	"""Operators on a list of positions"""
	def __init__(self, theta, phi, lmax):
		self.th, self.ph, self.lmax, self.cache = theta, phi, lmax, {}
	def op(self, s):
		if s not in self.cache: self.cache[s] = (sht.basis_deriv(self.lmax,self.lmax,self.th,self.ph) if s == "d" else sht.basis(s,self.lmax,self.lmax,self.th,self.ph))
		return self.cache[s]
	def mat(self, s, ai):
		key = (s, ai.lmax, ai.mmax)
		if key not in self.cache:
			sel = [(k,mp) for k, mp in self.op(s) if k[1] <= ai.lmax and k[2] <= ai.mmax]
			self.cache[key] = (np.array([k for k,_ in sel]), np.array([mp for _,mp in sel]))
		k, B = self.cache[key]
		return k[:,0], np.asarray(ai.mstart).astype(int)[k[:,2]]+k[:,1], k[:,2], k[:,3], B
	def synth(self, ai, alm, s):
		"""alm[...,ncomp,nelem] -> map[...,ncomp,npix]"""
		c, i, m, part, B = self.mat(s, ai)
		v = alm[...,c,i]; v = np.where(part, v.imag, v.real)
		return (v @ B.reshape(len(B),-1)).reshape(v.shape[:-1]+B.shape[1:])
	def adj(self, ai, mp, s):
		"""map[...,ncomp,npix] -> alm[...,ncomp,nelem]"""
		c, i, m, part, B = self.mat(s, ai)
		alm = np.zeros(mp.shape[:-2]+(1 if s in (0,"d") else 2,ai.nelem),complex)
		v = (mp.reshape(mp.shape[:-2]+(-1,)) @ B.reshape(len(B),-1).T)*np.where(part,1j,1)*np.where(m,0.5,1)
		for j in range(len(c)): alm[...,c[j],i[j]] += v[...,j]
		return alm
	def Y(self, ai, alm, spin, deriv):
		"""alm[...,[nc],nelem] -> map[...,nc,npix]"""
		alm = np.asarray(alm,complex)
		if deriv: return self.synth(ai, alm[...,None,:], "d")
		a = alm if alm.ndim > 1 else alm[None]
		out = np.zeros(a.shape[:-1]+(len(self.th),))
		for s, i, j in groups(spin, a.shape[-2], 0): out[...,i:j,:] = self.synth(ai, a[...,i:j,:], s)
		return out if alm.ndim > 1 else out[0]
	def YT(self, ai, mp, spin, deriv):
		"""map[...,nc,npix] -> alm"""
		mp = np.asarray(mp,float)
		if deriv: return self.adj(ai, mp, "d")[...,0,:]
		a = mp if mp.ndim > 1 else mp[None]
		out = np.zeros(a.shape[:-1]+(ai.nelem,),complex)
		for s, i, j in groups(spin, a.shape[-2], 0): out[...,i:j,:] = self.adj(ai, a[...,i:j,:], s)
		return out if mp.ndim > 1 else out[0]
def fill(ai, pre, dt, seed=0):
	a = np.zeros(pre+(ai.nelem,), dt)
	for k, (l,m) in enumerate(sht.LM(ai.lmax,ai.mmax)):
		for j, I in enumerate(np.ndindex(*pre)): a[I+(pos(ai,l,m),)] = np.cos(1.3*k+j*2.1+seed)+(1j*np.sin(0.7*k+j+seed*2) if m else 0)
	return a
def mdata(shape, dt, seed=0):
	n = int(np.prod(shape)); return np.cos(1.7*np.arange(n)+0.3*np.arange(n)**1.5+seed).reshape(shape).astype(dt)
def sky(shape, wcs):
	w = wcs.deepcopy()
	if w.wcs.ctype[0][-3:] in ("CAR","CEA","MER"): w.wcs.bounds_check(False,False)  # these may extend past 180 degrees from the reference point
	with np.errstate(all="ignore"): dr = ref_pix2sky(w, pixgrid(shape))
	ok = np.all(np.isfinite(dr),0); return dr, ok
def tol(method, dt):
	if np.dtype(dt).itemsize == 4: return 1e-4
	return 2e-5 if method == "general" else 1e-9

def make(name, lmax):
	(shape,wcs), methods, auto = geos()[name]
	dr, ok = sky(shape,wcs); dr = dr[:,ok]
	return shape, wcs, methods, auto, ok, Ref(np.pi/2-dr[0], dr[1]%(2*np.pi), lmax)
def unflat(shape, ok, v, fillv):
	out = np.full(v.shape[:-1]+shape, fillv, v.dtype); out[...,ok] = v; return out

def unit_geo(ctx, items):
	lmax = 3 if ctx.quick else 5
	for name in items:
		shape, wcs, methods, auto, ok, R = make(name, lmax)
		with ctx.case("method", geo=name):
			ctx.eq(curvedsky.get_method(shape, wcs), auto, "chosen method")
		for method in ("auto",)+methods:
			m_eff = auto if method == "auto" else method
			# The whole operator: one leading axis over all coefficient or pixel impulses
			for lm, mm in ([(lmax,lmax),(lmax,1),(2,0)] if ctx.quick else [(a,b) for a in range(lmax+1) for b in range(a+1)]):
				for lay, ai in layouts(lm, mm):
					if method == "auto" and (lay != "tri" or (ctx.quick and mm != lm)): continue
					for deriv in (0,1):
						if lm < (1 if deriv else 2): continue   # ducc requires lmax >= spin
						d = dict(geo=name, method=method, lmax=lm, mmax=mm, layout=lay, deriv=deriv)
						with ctx.case("operator", **d):
							nc = 1 if deriv else 3
							imp = []
							for c in range(nc):
								for l, m in sht.LM(lm,mm):
									for v in ((1,1j) if m else (1,)):
										a = np.zeros((nc,ai.nelem),complex); a[c,pos(ai,l,m)] = v; imp.append(a)
							alm = np.array(imp); alm = alm[:,0] if deriv else alm; alm0 = alm.copy()
							om = enmap.enmap(np.full(alm.shape[:1]+((2,) if deriv else (3,))+shape, 7.0), wcs)
							res = curvedsky.alm2map(alm, om, ainfo=ai, method=method, deriv=bool(deriv))
							ctx.check(res is om, "returns the map it was given")
							ctx.close(np.asarray(res), unflat(shape,ok,R.Y(ai,alm,[0,2],deriv),7.0), rtol=0, atol=tol(m_eff,"d"), msg="synthesis"); ctx.eq(alm, alm0, "coefficients unchanged")
						with ctx.case("adjoint operator", **d):
							nc = 2 if deriv else 3; npix = shape[0]*shape[1]
							mp = enmap.enmap(np.eye(nc*npix).reshape((nc*npix,nc)+shape), wcs); mp0 = np.array(mp)
							got = curvedsky.alm2map_adjoint(mp, ainfo=ai, method=method, deriv=bool(deriv))
							ctx.close(got, R.YT(ai,np.asarray(mp)[...,ok],[0,2],deriv), rtol=0, atol=tol(m_eff,"d"), msg="adjoint synthesis"); ctx.eq(np.asarray(mp), mp0, "map unchanged")
			# component layouts, dtypes, options
			for (spin, pre, deriv), dt in itertools.product(COMPS, ("f4","f8",">f4",">f8")):
				if ctx.quick and method == "auto" and pre not in ((),(3,)): continue
				if dt[0] == ">" and (m_eff == "general" or len(pre) > 1): continue
				if len(shape) == 2 and ctx.quick and dt != "f8" and pre not in ((),(3,),(2,)): continue
				cdt = np.complex64 if dt[-1] == "4" else np.complex128; t = tol(m_eff,dt)
				ai = list(layouts(lmax, lmax if len(pre) < 2 else 2))[min(len(pre),2) if dt == "f8" else 0][1]
				kw = dict(spin=spin, deriv=bool(deriv), method=method, ainfo=ai)
				d = dict(geo=name, method=method, spin=spin, pre=pre, deriv=deriv, dtype=dt)
				alm = fill(ai, pre, cdt); mpre = pre+((2,) if deriv else ())
				with ctx.case("alm2map", **d):
					base = mdata(mpre+shape, dt)
					want = unflat(shape,ok,R.Y(ai,alm,spin,deriv),0); want[...,~ok] = base[...,~ok]
					al0 = alm.copy()
					for lab in ("plain","copy","flipview","fortran") if dt == "f8" or ctx.thorough else ("plain","copy"):
						if lab == "flipview":
							big = enmap.enmap(np.ascontiguousarray(base[...,::-1,::-1]), wcs)
							om = enmap.ndmap(np.asarray(big)[...,::-1,::-1], wcs)
						elif lab == "fortran": om = enmap.ndmap(np.asfortranarray(base.copy()), wcs)
						else: om = enmap.ndmap(base.copy(), wcs)
						res = curvedsky.alm2map(alm, om, copy=lab=="copy", **kw)
						ctx.close(np.asarray(res), want, rtol=0, atol=t, msg=lab); ctx.eq(alm, al0, "coefficients unchanged"); ctx.eq(res.dtype, np.dtype(dt), "dtype")
						ctx.eq(wcs_key(res.wcs), wcs_key(wcs), "coordinates")
						if lab == "copy": ctx.eq(np.asarray(om), base, "copy=True leaves the map alone")
						else: ctx.check(res is om, "returns the map it was given")
				with ctx.case("alm2map_adjoint", **d):
					mp = enmap.ndmap(mdata(mpre+shape, dt, 2), wcs); mp0 = np.array(mp)
					want = R.YT(ai, np.asarray(mp,float)[...,ok], spin, deriv)
					got = curvedsky.alm2map_adjoint(mp, **kw); ctx.close(got, want, rtol=0, atol=t*4, msg="allocated"); ctx.eq(got.dtype, np.dtype(cdt), "dtype")
					al = np.full(pre+(ai.nelem,), 0, cdt); got = curvedsky.alm2map_adjoint(mp, alm=al, **kw); ctx.check(got is al, "returns the coefficients it was given"); ctx.close(got, want, rtol=0, atol=t*4, msg="given")
					al = fill(ai,pre,cdt,9); a0 = al.copy(); got = curvedsky.alm2map_adjoint(mp, alm=al, copy=True, **kw); ctx.eq(al, a0, "copy=True leaves the coefficients alone"); used = want != 0; ctx.close(np.where(used,got,0), want, rtol=0, atol=t*4, msg="copy")
					ctx.eq(np.asarray(mp), mp0, "map unchanged")
					fl = enmap.ndmap(np.ascontiguousarray(mp0[...,::-1,::-1])[...,::-1,::-1], wcs); ctx.close(curvedsky.alm2map_adjoint(fl, **kw), want, rtol=0, atol=t*4, msg="strided map")
				if m_eff == "general" and dt == "f8" and len(pre) < 2:
					with ctx.case("locinfo", **d):
						li = curvedsky.calc_locinfo(shape, wcs)
						om = enmap.ndmap(base.copy(), wcs); curvedsky.alm2map(alm, om, locinfo=li, **kw)
						want = unflat(shape,ok,R.Y(ai,alm,spin,deriv),0); want[...,~ok] = base[...,~ok]; ctx.close(np.asarray(om), want, rtol=0, atol=t, msg="precomputed positions")
	
def unit_locinfo(ctx, items):
	G = geos()
	for name in items:
		(shape,wcs), methods, auto = G[name]; dr, ok = sky(shape,wcs)
		for bs in (1,2,3,4,5,1000):
			with ctx.case("calc_locinfo", geo=name, bsize=bs):
				li = curvedsky.calc_locinfo(shape, wcs, bsize=bs)
				ctx.eq(np.asarray(li.mask), ok, "pixels on the sky"); ctx.eq(bool(li.masked), bool(np.any(~ok)), "masked")
				ctx.eq(li.loc.shape, (int(ok.sum()),2), "one position per pixel")
				ctx.check(bool(np.all(same_sky(np.array([np.pi/2-li.loc[:,0],li.loc[:,1]]), dr[:,ok], 1e-8))), "positions", dr[:,ok]); ctx.check(bool(np.all(li.loc[:,1] >= 0)), "ra not negative")

def unit_pos(ctx, items):
	lmax = 3 if ctx.quick else 5
	for pshape in items:
		n = int(np.prod(pshape)); i = np.arange(n)
		dec = np.linspace(-np.pi/2,np.pi/2,n) if n > 1 else np.array([0.3]); ra = ((i*2.4+0.1)%(4*np.pi))-2*np.pi+1e-3
		if n > 3: ra[1] = -np.pi; ra[2] = 0
		ra = np.minimum(ra, 2*np.pi-1e-3)
		p = np.array([dec,ra]).reshape((2,)+pshape)
		R = Ref(np.pi/2-dec, ra, lmax)
		for (spin, pre, deriv), dt in itertools.product(COMPS, ("f4","f8")):
			cdt = np.complex64 if dt == "f4" else np.complex128
			for lay, ai in layouts(lmax, lmax-1):
				d = dict(pos=pshape, spin=spin, pre=pre, deriv=deriv, dtype=dt, layout=lay); t = 2e-4 if dt == "f4" else 1e-8
				alm = fill(ai, pre, cdt); mpre = pre+((2,) if deriv else ()); a0 = alm.copy(); p0 = p.copy()
				want = R.Y(ai, alm, spin, deriv); want = want.reshape(want.shape[:-1]+pshape)
				loc = np.moveaxis(np.array([np.pi/2-p[0],p[1]%(2*np.pi)]),0,-1).copy()
				with ctx.case("alm2map_pos", **d):
					for lab, kw in [("pos",dict(pos=p)),("loc",dict(loc=loc))]:
						got = curvedsky.alm2map_pos(alm, ainfo=ai, spin=spin, deriv=bool(deriv), **kw)
						ctx.close(got, want, rtol=0, atol=t, msg=lab); ctx.eq(got.dtype, np.dtype(dt), "dtype"); ctx.eq(alm, a0, "coefficients unchanged"); ctx.eq(p, p0, "positions unchanged")
						buf = np.full(mpre+(n,), 5, dt); got = curvedsky.alm2map_pos(alm, map=buf, ainfo=ai, spin=spin, deriv=bool(deriv), **kw); ctx.close(got, want, rtol=0, atol=t, msg="into an array"); ctx.close(buf.reshape(want.shape), want, rtol=0, atol=t, msg="array filled")
						got = curvedsky.alm2map_pos(alm, map=np.full(mpre+pshape, 5, dt), ainfo=ai, spin=spin, deriv=bool(deriv), **kw); ctx.close(got, want, rtol=0, atol=t, msg="into a shaped array")
				with ctx.case("alm2map_pos adjoint", **d):
					mp = mdata(mpre+(n,), dt, 3); want2 = R.YT(ai, mp.astype(float), spin, deriv); m0 = mp.copy()
					al = np.zeros(pre+(ai.nelem,), cdt); got = curvedsky.alm2map_pos(al, pos=p, map=mp, ainfo=ai, spin=spin, deriv=bool(deriv), adjoint=True)
					ctx.close(got, want2, rtol=0, atol=t*4, msg="adjoint"); ctx.check(got is al, "same array"); ctx.eq(mp, m0, "samples unchanged")
					al = np.zeros(pre+(ai.nelem,), cdt); got = curvedsky.alm2map_pos(al, pos=p, map=mp.reshape(mpre+pshape), ainfo=ai, spin=spin, deriv=bool(deriv), adjoint=True); ctx.close(got, want2, rtol=0, atol=t*4, msg="adjoint of a shaped array")

def unit_healpix(ctx, items):
	import healpy
	for nside in items:
		lmax = 3 if ctx.quick else 5; npix = 12*nside**2
		th, ph = healpy.pix2ang(nside, np.arange(npix))
		with ctx.case("rings", nside=nside):
			ri = curvedsky.get_ring_info_healpix(nside); T, P = [], []
			for t, n, p, o in zip(ri.theta, ri.nphi, ri.phi0, ri.offsets): ctx.eq(int(o), len(T), "ring start"); T += [t]*int(n); P += [(p+2*np.pi*k/int(n))%(2*np.pi) for k in range(int(n))]
			ctx.close(np.array(T), th, msg="colatitudes"); ctx.close(np.array(P), ph, msg="longitudes"); ctx.eq([int(ri.npix),int(ri.nrow)],[npix,4*nside-1],"sizes"); ctx.eq(curvedsky.npix2nside(npix), nside, "nside")
		R = Ref(th, ph, lmax)
		lims = [(None,None),(0.7,None),(None,1.6),(0.8,2.2)]
		for (spin, pre, deriv), dt, (tmin,tmax) in itertools.product(COMPS, ("f4","f8"), lims):
			if dt == "f4" and tmin: continue
			cdt = np.complex64 if dt == "f4" else np.complex128; t = 1e-4 if dt == "f4" else 1e-9
			sel = np.full(npix,True)
			if tmin is not None: sel &= th >= tmin
			if tmax is not None: sel &= th <= tmax
			for lay, ai in layouts(lmax, lmax-1):
				d = dict(nside=nside, spin=spin, pre=pre, deriv=deriv, dtype=dt, layout=lay, lim=(tmin,tmax))
				alm = fill(ai, pre, cdt); mpre = pre+((2,) if deriv else ()); a0 = alm.copy()
				with ctx.case("alm2map_healpix", **d):
					want = R.Y(ai, alm, spin, deriv)
					kw = dict(ainfo=ai, spin=spin, deriv=bool(deriv), theta_min=tmin, theta_max=tmax)
					got = curvedsky.alm2map_healpix(alm, nside=nside, **kw); ctx.close(got, np.where(sel,want,0), rtol=0, atol=t, msg="allocated"); ctx.eq(got.dtype, np.dtype(dt), "dtype")
					buf = mdata(mpre+(npix,), dt); b0 = buf.copy(); got = curvedsky.alm2map_healpix(alm, buf, **kw); ctx.check(got is buf, "same array"); ctx.close(got, np.where(sel,want,b0), rtol=0, atol=t, msg="given")
					buf = b0.copy(); got = curvedsky.alm2map_healpix(alm, buf, copy=True, **kw); ctx.eq(buf, b0, "copy=True leaves the map alone"); ctx.close(got, np.where(sel,want,b0), rtol=0, atol=t, msg="copy")
					ctx.eq(alm, a0, "coefficients unchanged")
				with ctx.case("alm2map_healpix adjoint", **d):
					mp = mdata(mpre+(npix,), dt, 3); m0 = mp.copy(); want = R.YT(ai, np.where(sel,mp,0).astype(float), spin, deriv)
					al = np.zeros(pre+(ai.nelem,),cdt); got = curvedsky.alm2map_healpix(al, mp, adjoint=True, **kw)
					ctx.close(got, want, rtol=0, atol=t*10, msg="adjoint"); ctx.check(got is al, "same array"); ctx.eq(mp, m0, "map unchanged")

def units(tier):
	names = list(geos())
	return (chunked("geo", names, unit_geo, len(names)) + chunked("locinfo", names, unit_locinfo, 4)
		+ chunked("pos", [(1,),(6,),(2,3),()], unit_pos, 4) + chunked("healpix", [1,2] if tier == "quick" else [1,2,3,4], unit_healpix, 4))
