"""C31: Doppler boosting (aberration and modulation)."""
import numpy as np, itertools, warnings
from pixell import curvedsky, enmap, utils, aberration
from ..core import chunked
from .. import geo as G
from .c12 import fullsky, Ref, fill, mdata, groups
from .c30 import vec, north, east, ang, spun, unbound, skypix

RULE   = "every geometry x direction x speed x component layout x option; every output pixel is compared with the input sky at the Lorentz-boosted direction, built from vectors: brute-force harmonics for full-sky maps, brute-force trigonometric interpolation for partial ones, polarisation carried along the great circle, and Planck's law written out for the modulation"
BOUNDS = "full-sky maps of 8x16 to 12x24 pixels in 4 orientations, patches of 6x9 to 10x26 pixels at 6 longitudes, lmax 3, speeds -0.6..0.6, 6 directions incl. the poles, 5 modulation modes x dipole x 3 frequencies x 2 monopoles"
ASSUME = ["full-sky maps use the Fejer-1 layout (the default), for which the documented boundary condition is exact", "odd-spin components are only claimed away from the poles (periodic boundary)"]

deg = np.pi/180
BETA = (0.001235, 0.1, -0.3, 0.6, 0.0)
DIRS = ((0.4,0.3),(-2.0,-1.1),(3.1,0.0),(0.0,np.pi/2),(1.0,-np.pi/2),tuple(np.array([167.919,-6.936])*deg))
def dvec(d): return vec(np.array(np.pi/2-d[1]), np.array(float(d[0])))
def rest(n, d, beta):
	"""Where light arriving from n comes from in the frame moving away with -beta, and the Doppler factor"""
	z = d@n; zr = (z-beta)/(1-z*beta); p = n-z*d[:,None]; s = np.sqrt(np.sum(p*p,0))
	return zr*d[:,None]+np.sqrt(np.maximum(1-zr**2,0))*p/np.maximum(s,1e-300), 1/((1-beta**2)**-0.5*(1-z*beta))
def pa(n, d, th, ph):
	t = d[:,None]-n*(d@n); return np.arctan2(np.sum(t*east(th,ph),0), np.sum(t*north(th,ph),0))
def trig(arr, pix):
	ny, nx = arr.shape[-2:]; F = np.fft.fft2(arr); ky = np.fft.fftfreq(ny)*ny; kx = np.fft.fftfreq(nx)*nx
	return np.einsum("py,...yx,px->...p", np.exp(2j*np.pi*np.outer(pix[0],ky)/ny), F, np.exp(2j*np.pi*np.outer(pix[1],kx)/nx), optimize=True).real/(ny*nx)
def spinfor(pre, spin): return spin if pre else [0]
def angles(shape, wcs):
	dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape)); return (np.pi/2-dr[0]).reshape(-1), dr[1].reshape(-1)%(2*np.pi)
COMPS = [([0,2],()),([0,2],(3,)),([0],(2,)),([2],(2,)),([0,2],(2,3)),(0,(1,)),([0,4],(3,))]
lmax = 3

def setup(shape, wcs, pre, spin, d, beta):
	ai = curvedsky.alm_info(lmax); th, ph = angles(shape, wcs); sp = spinfor(pre, spin); alm = fill(ai, pre or (1,), complex)
	for s, i, j in groups(sp, alm.shape[-2], 0):
		if s: alm[...,i:j,[int(ai.lm2ind(l,m)) for l in range(min(s,lmax+1)) for m in range(l+1)]] = 0
	def f(th, ph): return Ref(th,ph,lmax).Y(ai, alm, sp, 0)
	n0 = vec(th,ph); n, A = rest(n0, d, beta); ti, pi = ang(n); chi = pa(n,d,ti,pi)-pa(n0,d,th,ph)
	m = f(th,ph).reshape((pre or ())+shape) if pre else f(th,ph).reshape(shape)
	want = spun(f(ti,pi), -chi, sp); return enmap.ndmap(m, wcs), want.reshape(pre+shape), A.reshape(shape), chi.reshape(shape)

def unit_full(ctx, items):
	for (ny,nx,up,left), d, (spin,pre) in items:
		shape, wcs = fullsky("F1", ny, nx, up, left, 15); dv = dvec(d)
		if spin == [0,4]: continue
		for beta in BETA:
			with ctx.case("aberrate full sky", ny=ny, nx=nx, up=up, left=left, dir=d, beta=beta, spin=spin, pre=pre):
				m, want, A, chi = setup(shape, wcs, pre, spin, dv, beta); keep = np.array(m)
				got = aberration.aberrate_map(m, dir=d, beta=beta, spin=spin); ctx.check(got.shape == m.shape, "shape"); ctx.eq(G.wcs_key(got.wcs), G.wcs_key(wcs), "geometry"); ctx.close(np.asarray(got), want, 0, 1e-7, "observed sky"); ctx.eq(np.asarray(m), keep, "input unchanged")
				ctx.close(np.asarray(aberration.deaberrate_map(m, dir=d, beta=-beta, spin=spin)), np.asarray(got), 0, 1e-9, "opposite direction")
				ctx.close(np.asarray(aberration.aberrate_map(m, dir=d, beta=beta, spin=spin, boundary="fullsky")), want, 0, 1e-7, "explicit boundary")
				ab = aberration.Aberrator(shape, wcs, dir=d, beta=beta, spin=spin)
				for k in range(2): ctx.close(np.asarray(ab(m)), want, 0, 1e-7, "use %d of an aberrator" % k)
				g4 = aberration.aberrate_map(m.astype(np.float32), dir=d, beta=beta, spin=spin, coord_dtype=np.float64); ctx.eq(g4.dtype, np.dtype("f4"), "dtype"); ctx.close(np.asarray(g4), want, 0, 3e-3, "single precision")
				# complete boost in plain temperature units
				got, A2 = aberration.boost_map(m, dir=d, beta=beta, spin=spin, modulation="T2T", return_modulation=True); ctx.close(np.asarray(A2), A, 0, 1e-6, "Doppler factor"); ctx.close(np.asarray(got), want*A, 0, 1e-5, "boosted"); ctx.eq(np.asarray(m), keep, "input unchanged")
				ctx.close(np.asarray(aberration.boost_map(m, dir=d, beta=beta, spin=spin, modulate=False)), want, 0, 1e-7, "aberration only"); ctx.eq(np.asarray(m), keep, "input unchanged")
				ctx.close(np.asarray(aberration.boost_map(m, dir=d, beta=beta, spin=spin, modulation="plain", aberrate=False)), keep*A, 0, 1e-5, "modulation only"); ctx.eq(np.asarray(m), keep, "input unchanged")
				ctx.close(np.asarray(aberration.boost_map(m, dir=d, beta=beta, spin=spin, modulation=None)), want, 0, 1e-7, "no modulation mode"); 
				ctx.close(np.asarray(aberration.deboost_map(m, dir=d, beta=-beta, spin=spin, modulation="T2T")), want*A, 0, 1e-5, "deboost is a boost the other way")
				kw = dict(dir=d, beta=beta, spin=spin, T0=4.0, freq=90e9, map_unit=1e-3, dipole=True, modulation="T2lin"); ab0 = aberration.aberrate_map(m, dir=d, beta=beta, spin=spin); w0 = np.asarray(aberration.modulate_map(ab0, **kw)); ctx.close(np.asarray(aberration.boost_map(m, **kw)), w0, 1e-9, 1e-9*np.abs(w0).max(), "boosting is aberrating and modulating")
				if abs(beta) < 0.01:
					for mode, inv in (("T2T","T2T"),("T2lin","lin2T")):
						r = aberration.deboost_map(aberration.boost_map(m, dir=d, beta=beta, spin=spin, modulation=mode), dir=d, beta=beta, spin=spin, modulation=inv); ctx.close(np.asarray(r), keep, 0, 1e-4, "undone, %s" % mode)
				ctx.raises(lambda: aberration.aberrate_map(m, dir=d, beta=beta, boundary="foo"), ValueError, "unknown boundary")

def unit_part(ctx, items):
	for gname, d, (spin,pre) in items:
		shape, wcs = patches()[gname]; dv = dvec(d); sp = spinfor(pre, spin)
		for beta in (0.001235,0.01,-0.05):
			with ctx.case("aberrate patch", geometry=gname, dir=d, beta=beta, spin=spin, pre=pre):
				m = enmap.ndmap(mdata(pre+shape,"f8"), wcs); keep = np.array(m); th, ph = angles(shape,wcs); n0 = vec(th,ph); n, A = rest(n0, dv, beta); ti, pi = ang(n)
				chi = pa(n,dv,ti,pi)-pa(n0,dv,th,ph)
				pix = skypix(shape, wcs, np.pi/2-ti, pi) if wcs.wcs.ctype[0][-3:] == "CAR" else cea(shape, wcs, np.pi/2-ti, pi)
				want = spun(trig(keep, pix) if pre else trig(keep,pix)[None], -chi, sp).reshape(pre+shape)
				tol = 1e-6*max(1,np.abs(1/np.sin(ti)).max())
				for b in ("auto","periodic"):
					got = aberration.aberrate_map(m, dir=d, beta=beta, spin=spin, boundary=b); ctx.close(np.asarray(got), want, 0, tol, "boundary %s" % b); ctx.eq(np.asarray(m), keep, "input unchanged")
				got, A2 = aberration.boost_map(m, dir=d, beta=beta, spin=spin, modulation="plain", return_modulation=True); ctx.close(np.asarray(A2), A.reshape(shape), 0, 1e-6, "Doppler factor"); ctx.close(np.asarray(got), want*A.reshape(shape), 0, 10*tol, "boosted")
def cea(shape, wcs, dec, ra):
	p = skypix(shape, wcs, 0*dec, ra); p[0] = np.sin(dec)/deg/wcs.wcs.cdelt[1]+wcs.wcs.crpix[1]-1; return p
def patches():
	g = {}
	for ra0 in (0,40,-100,180,170,359): g["car%d" % ra0] = ((10,26), G.mkwcs("CAR",[ra0,0],[-2,2],[13,5])); g["carr%d" % ra0] = ((9,14), G.mkwcs("CAR",[ra0,0],[4,-3],[2,-8]))
	g["odd"] = ((7,9), G.mkwcs("CAR",[20,0],[-4,4],[30,12])); g["band"] = ((8,36), G.mkwcs("CAR",[10,0],[-10,5],[18,2])); g["cea"] = ((6,10), G.mkwcs("CEA",[-30,0],[-4,3],[5,-2],[(2,1,1.0)]))
	return g

def P(f, T): h, k, c = 6.62607015e-34, 1.380649e-23, 299792458.0; return 2*h*f**3/c**2/np.expm1(h*f/(k*T))*1e26
def dP(f, T): h, k, c = 6.62607015e-34, 1.380649e-23, 299792458.0; x = h*f/(k*T); return 2*h*f**3/c**2*np.exp(x)/np.expm1(x)**2*x/T*1e26
def iP(f, I): h, k, c = 6.62607015e-34, 1.380649e-23, 299792458.0; return h*f/k/np.log1p(2*h*f**3/c**2/(I/1e26))

def unit_mod(ctx, items):
	for mode, dipole, freq, T0, unit, (spin,pre), d, beta in items:
		shape, wcs = (5,8), G.mkwcs("CAR",[0,0],[-45,36],[4,3]); dv = dvec(d); sp = spinfor(pre, spin)
		if dipole and mode in ("T2T","plain") and pre and (spin == [2] or (spin == [0] and pre[-1] > 1)): continue   # the dipole is only defined for one leading scalar component
		with ctx.case("modulate", mode=mode, dipole=dipole, freq=freq, T0=T0, unit=unit, spin=spin, pre=pre, dir=d, beta=beta):
			m = enmap.ndmap(mdata(pre+shape,"f8")*1e-4/unit, wcs); keep = np.array(m); th, ph = angles(shape,wcs); _, A = rest(vec(th,ph), dv, beta); A = A.reshape(shape)
			x = (keep if pre else keep[None])*unit; out = np.zeros_like(x)
			for s, i, j in groups(sp, x.shape[-3], 0):
				t = x[...,i:j,:,:]; dip = dipole and s == 0
				if   mode == "none": o = t
				elif mode in ("T2T","plain"): o = t*A+((A-1)*T0 if dipole and i == 0 else 0)
				elif mode == "T2lin": o = (P(freq,A*(t+T0))-P(freq,T0 if dip else A*T0))/dP(freq,T0)
				elif mode == "lin2T": o = A*iP(freq, t*dP(freq,T0)+P(freq,T0 if dip else T0/A))-T0
				elif mode == "lin2lin": tt = iP(freq, t*dP(freq,T0)+P(freq,T0))-T0; o = (P(freq,A*(tt+T0))-P(freq,T0 if dip else A*T0))/dP(freq,T0)
				out[...,i:j,:,:] = o
			want = (out if pre else out[0])/unit; kw = dict(dir=d, beta=beta, spin=spin, T0=T0, freq=freq, map_unit=unit, dipole=dipole); tol = 3e-6*np.abs(want).max()+1e-8/unit
			got = aberration.modulate_map(m, modulation=None if mode == "none" else mode, **kw); ctx.close(np.asarray(got), want, 0, tol, "modulated"); ctx.eq(np.asarray(m), keep, "input unchanged"); ctx.eq(G.wcs_key(got.wcs), G.wcs_key(wcs), "geometry")
			r, A2 = aberration.modulate_map(m, modulation=mode, return_modulation=True, **kw); ctx.close(np.asarray(A2), A, 0, 1e-6, "Doppler factor"); ctx.eq(np.asarray(r), np.asarray(got), "same")
			ctx.close(np.asarray(aberration.demodulate_map(m, modulation=mode, **dict(kw,beta=-beta))), want, 0, tol, "demodulate is modulate the other way")
			ctx.close(np.asarray(aberration.boost_map(m, modulation=mode, aberrate=False, **kw)), want, 0, tol, "modulation through boost_map"); ctx.close(np.asarray(aberration.deboost_map(m, modulation=mode, aberrate=False, **dict(kw,beta=-beta))), want, 0, tol, "modulation through deboost_map")
			mo = aberration.Modulator(shape, wcs, modulation=mode, **kw)
			for k in range(2): ctx.close(np.asarray(mo(m)), want, 0, tol, "use %d of a modulator" % k)
			with warnings.catch_warnings(): warnings.simplefilter("ignore"); ctx.close(np.asarray(mo(m.astype(np.float32))), want, 0, 1e-4*np.abs(want).max()+1e-6/unit, "single precision map")
			ctx.close(np.asarray(aberration.modulate_map(m.astype(np.float32), modulation=mode, **kw)), want, 0, 1e-3*np.abs(want).max()+ (1e-5*T0/unit if dipole else 1e-6/unit), "single precision")
			ctx.raises(lambda: aberration.modulate_map(m, modulation="foo", **kw), ValueError, "unknown mode")

def unit_1d(ctx, items):
	with ctx.case("defaults"):
		shape, wcs = fullsky("F1", 8, 16, True, True, 15); m = enmap.ndmap(mdata((3,)+shape,"f8")*100, wcs); full = dict(dir=np.array([167.919,-6.936])*np.pi/180, beta=0.001235, spin=[0,2])
		mod = dict(full, T0=utils.T_cmb, freq=150e9, map_unit=1e-6, dipole=False); ctx.close(np.asarray(aberration.aberrate_map(m)), np.asarray(aberration.aberrate_map(m,**full)), 0, 1e-9, "aberrate_map"); ctx.close(np.asarray(aberration.deaberrate_map(m)), np.asarray(aberration.deaberrate_map(m,**full)), 0, 1e-9, "deaberrate_map"); ctx.close(np.asarray(aberration.Aberrator(shape,wcs)(m)), np.asarray(aberration.aberrate_map(m,**full)), 0, 1e-9, "Aberrator")
		for f, mode in ((aberration.modulate_map,"T2lin"),(aberration.demodulate_map,"lin2T"),(aberration.boost_map,"T2lin"),(aberration.deboost_map,"lin2T")): ctx.close(np.asarray(f(m)), np.asarray(f(m,modulation=mode,**mod)), 0, 1e-9, f.__name__)
		ctx.close(np.asarray(aberration.Modulator(shape,wcs)(m)), np.asarray(aberration.modulate_map(m,modulation="T2lin",**mod)), 0, 1e-9, "Modulator")
	for beta in items:
		with ctx.case("calc_boost_1d", beta=beta):
			z = np.linspace(-1,1,41); z0 = z.copy(); zo, A = aberration.calc_boost_1d(z, beta); ctx.eq(z, z0, "input unchanged")
			g = (1-beta**2)**-0.5; p = np.array([np.ones(41),z]); E = g*(p[0]+beta*p[1]); k = g*(p[1]+beta*p[0])       # Lorentz boost of a photon momentum
			ctx.close(zo, k/E, 0, 1e-9, "direction"); ctx.close(A, E, 1e-9, 1e-9, "energy"); zi, Ai = aberration.calc_boost_1d(zo, -beta); ctx.close(zi, z, 0, 1e-7, "reverse"); ctx.close(A*Ai, np.ones(41), 1e-7, 0, "reverse energy")
			ctx.check(np.all(np.abs(zo) <= 1), "stays a cosine")
		with ctx.case("planck", x=beta):
			for f, T in itertools.product((30e9,150e9,545e9),(2.725,5.0,20.0)):
				ctx.close(utils.planck(f,T), P(f,T), 1e-5, 0, "spectrum"); ctx.close(utils.dplanck(f,T), dP(f,T), 1e-5, 0, "derivative"); ctx.close(utils.iplanck_T(f,utils.planck(f,T)), np.float64(T), 1e-9, 0, "temperature from intensity")
				ctx.close(utils.dplanck(f,T), (P(f,T*1.0001)-P(f,T*0.9999))/(T*0.0002), 1e-5, 0, "numerical derivative")

def units(tier):
	q = tier == "quick"
	gs = [(8,16,True,True),(8,16,False,False),(9,16,True,False),(10,18,False,True),(12,24,True,True)]
	full = [(g,d,c) for g in gs for d in (DIRS if not q else DIRS[:4]) for c in (COMPS if not q else COMPS[:5])]
	part = [(g,d,c) for g in patches() for d in (DIRS if not q else DIRS[:4:3]+DIRS[5:]) for c in (COMPS if not q else COMPS[:5])]
	mod = [(mo,di,f,T0,u,c,d,b) for mo in ("T2lin","lin2T","lin2lin","T2T","plain","none") for di in (False,True) for f in (30e9,150e9,545e9) for T0 in (2.725,10.0) for u in (1e-6,1.0) for c in COMPS for d,b in ((DIRS[0],0.001235),(DIRS[1],-0.3))]
	if q: mod = [x for i,x in enumerate(mod) if x[2] == 150e9 or i % 3 == 0]
	return chunked("full", full, unit_full, 20)+chunked("partial", part, unit_part, 20)+chunked("modulate", mod, unit_mod, 16)+chunked("boost", list(BETA)+[0.9,-0.99], unit_1d, 2)
