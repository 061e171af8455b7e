"""C30: reprojection between pixelisations and coordinate systems."""
import numpy as np, itertools, warnings
from pixell import curvedsky, enmap, utils, reproject
from ..core import chunked
from .. import geo as G
from .c12 import fullsky, Ref, fill, mdata, groups
from .c18 import refinterp

RULE   = "every combination of direction, interpolation method, rotation, component/spin layout, output form and batch size; values are compared with brute-force harmonics evaluated at the rotated pixel centres, or with explicit interpolation of the input samples there, with polarisation turned by the independently constructed angle between the two local norths; every pixel of every output is a transition"
BOUNDS = "healpix nside 1..4, lmax 3, full-sky and partial maps of 5x8 to 13x24 pixels, 6 rotations plus the 4 named ones, thumbnails of 9 positions (up to 78 degrees from the equator, seam) x 3 methods x 3 orders, nside 1..130 in every mode"
ASSUME = ["healpy's pixel centres and bilinear weights are correct", "thumbnails reaching over a pole of the input map are not claimed, and they are compared away from the apodised rim, and given geometries are only supported with a matching radius (documented)"]

deg = np.pi/180
def Rz(a): return np.array([[np.cos(a),-np.sin(a),0],[np.sin(a),np.cos(a),0],[0,0,1]])
def Ry(a): return np.array([[np.cos(a),0,np.sin(a)],[0,1,0],[-np.sin(a),0,np.cos(a)]])
def gal():
	"""Matrix taking equatorial (J2000) to galactic directions, from the IAU definition of the galactic pole"""
	ra, dec, l0 = 192.85948*deg, 27.12825*deg, 122.93192*deg
	z = np.array([np.cos(dec)*np.cos(ra),np.cos(dec)*np.sin(ra),np.sin(dec)])
	# the north celestial pole is at galactic longitude l0
	n = np.array([0,0,1.0]); e = n-z*(n@z); e /= np.linalg.norm(e); f = np.cross(z,e)
	x = np.cos(l0)*e-np.sin(l0)*f; y = np.sin(l0)*e+np.cos(l0)*f
	return np.array([x,y,z])
ROTS = {"none":None, "id":(0.0,0.0,0.0), "z":(0.7,0.0,0.4), "y":(0.0,1.1,0.0), "gen":(0.4,0.7,-1.1), "gen2":(2.0,-0.4,0.3), "flip":(0.0,np.pi,0.2),
	"cel,gal":"cel,gal", "gal,cel":"gal,cel", "equ,gal":"equ,gal", "gal,equ":"gal,equ", "gal,gal":"gal,gal", "cel,equ":"cel,equ"}
def matrix(name):
	r = ROTS[name]
	if r is None: return np.eye(3)
	if isinstance(r, str):
		a, b = r.split(","); M = np.eye(3)
		if a == "gal": M = gal().T
		if b == "gal": M = gal() @ M
		return M
	return Rz(r[2]) @ Ry(r[1]) @ Rz(r[0])
def north(th, ph): return np.array([-np.cos(th)*np.cos(ph),-np.cos(th)*np.sin(ph),np.sin(th)])
def east(th, ph): return np.array([-np.sin(ph),np.cos(ph),0*ph])
def vec(th, ph): return np.array([np.sin(th)*np.cos(ph),np.sin(th)*np.sin(ph),np.cos(th)])
def ang(u): return np.arctan2(np.hypot(u[0],u[1]),u[2]), np.arctan2(u[1],u[0])%(2*np.pi)
def source(M, th, ph):
	"""Where output directions come from, and the angle from output north to the carried-along input north, towards east"""
	ti, pi = ang(M.T @ vec(th,ph)); n = M @ north(ti,pi)
	return ti, pi, np.arctan2(np.sum(n*east(th,ph),0), np.sum(n*north(th,ph),0))
def spun(vals, chi, spin):
	"""Components [...,ncomp,n] expressed in the output system"""
	out = np.array(vals, float)
	if out.ndim < 2: return out
	for s, i, j in groups(spin, out.shape[-2], 0):
		if s:
			z = (out[...,i,:]+1j*out[...,i+1,:])*np.exp(-1j*s*chi); out[...,i,:] = z.real; out[...,i+1,:] = z.imag
	return out
COMPS = [([0,2],()),([0,2],(3,)),([0],(2,)),(2,(2,)),([0,2],(2,3)),([0,1],(3,))]

def hpix(nside):
	import healpy
	return healpy.pix2ang(nside, np.arange(12*nside**2))

def unit_harm(ctx, items):
	lmax = 3; ai = curvedsky.alm_info(lmax)
	for rot, (spin, pre), dt in items:
		M = matrix(rot); tol = 3e-4 if dt == "f4" else (3e-4 if "," in rot else 1e-8); cdt = np.complex64 if dt == "f4" else np.complex128
		alm = fill(ai, pre, np.complex128)
		for s, i, j in groups(spin, pre[-1] if pre else 1, 0):
			if s: alm[...,i:j,:][...,[int(ai.lm2ind(l,m)) for l in range(s) for m in range(l+1)]] = 0
		sp = [0] if not pre else spin
		def field(th, ph):
			ti, pi, chi = source(M, th, ph); return spun(Ref(ti,pi,lmax).Y(ai, alm if pre else alm[None], sp, 0), chi, sp) if pre else Ref(ti,pi,lmax).Y(ai, alm[None], [0], 0)[0]
		def plain(th, ph): return Ref(th,ph,lmax).Y(ai, alm if pre else alm[None], sp, 0) if pre else Ref(th,ph,lmax).Y(ai, alm[None], [0], 0)[0]
		with ctx.case("map2healpix harm", rot=rot, spin=spin, pre=pre, dtype=dt):
			shape, wcs = fullsky("CC", 7, 12, True, True, 15)
			dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape)); imap = enmap.ndmap(plain((np.pi/2-dr[0]).reshape(-1), dr[1].reshape(-1)).reshape(pre+shape).astype(dt), wcs); keep = np.array(imap)
			for nside in (1,2):
				th, ph = hpix(nside); want = field(th, ph)
				for mname in ("harm","harmonic"):
					got = reproject.map2healpix(imap, nside=nside, lmax=lmax, rot=ROTS[rot], spin=spin, method=mname)
					ctx.check(got.shape == pre+(12*nside**2,), "shape"); ctx.eq(got.dtype, np.dtype(dt), "dtype"); ctx.close(got, want, 0, tol, "values, nside %d" % nside)
				out = np.full(pre+(12*nside**2,), 7, dt); got = reproject.map2healpix(imap, out=out, lmax=lmax, rot=ROTS[rot], spin=spin); ctx.check(got is out, "writes into the map it was given"); ctx.close(out, want, 0, tol, "given map")
			ctx.eq(np.asarray(imap), keep, "input unchanged")
			if dt == "f8":
				# extensive: value per pixel proportional to the pixel area
				pa = np.asarray(enmap.pixsizemap(shape, wcs)); em = enmap.ndmap(keep*pa, wcs); k2 = np.array(em)
				got = reproject.map2healpix(em, nside=2, lmax=lmax, rot=ROTS[rot], spin=spin, extensive=True); ctx.close(got, field(*hpix(2))*4*np.pi/48, 0, tol, "extensive"); ctx.eq(np.asarray(em), k2, "input unchanged")
				cy = cylmap(); dr = G.ref_pix2sky(unbound(cy[1]), G.pixgrid(cy[0])); cm = enmap.ndmap(plain((np.pi/2-dr[0]).reshape(-1), dr[1].reshape(-1)).reshape(pre+cy[0]), cy[1])
				got = reproject.map2healpix(cm, nside=2, lmax=lmax, rot=ROTS[rot], spin=spin, niter=12); ctx.close(got, field(*hpix(2)), 0, 1e-4, "iterated analysis of an irregular grid")
		with ctx.case("healpix2map harm", rot=rot, spin=spin, pre=pre, dtype=dt):
			nside = 4; th, ph = hpix(nside); iheal = plain(th,ph).astype(dt); keep = iheal.copy()
			for name in ("car","car_full","car_off","tan","cea"):
				shape, wcs = G.alphabet()[name]; dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape)); want = field((np.pi/2-dr[0]).reshape(-1), dr[1].reshape(-1)).reshape(pre+shape)
				t2 = max(tol,3e-5)
				got = reproject.healpix2map(iheal, shape, wcs, lmax=lmax, rot=ROTS[rot], spin=spin, niter=8); ctx.eq(G.wcs_key(got.wcs), G.wcs_key(wcs), "coordinates"); ctx.eq(got.dtype, np.dtype(dt), "dtype"); ctx.close(np.asarray(got), want, 0, t2, "values in %s" % name)
				out = enmap.ndmap(np.full(pre+shape,3,dt),wcs); got = reproject.healpix2map(iheal, out=out, lmax=lmax, rot=ROTS[rot], spin=spin, niter=8); ctx.check(got is out, "writes into the map it was given"); ctx.close(np.asarray(out), want, 0, t2, "given map")
				got = reproject.healpix2map(iheal, (5,)+shape, wcs, lmax=lmax, rot=ROTS[rot], spin=spin, niter=8, extensive=True); ctx.close(np.asarray(got), want*np.asarray(enmap.pixsizemap(shape,wcs))*12*nside**2/(4*np.pi), 0, max(1,np.max(np.asarray(enmap.pixsizemap(shape,wcs)))*192/12.6)*t2, "extensive")
			ctx.eq(iheal, keep, "input unchanged")

def unbound(wcs):
	w = wcs.deepcopy(); w.wcs.bounds_check(False,False); return w
def cylmap(): return (8,12), G.mkwcs("CEA",[40,0],[-30,180/np.pi/4],[4,4.5],[(2,1,1.0)])
def skypix(shape, wcs, dec, ra):
	"""own CAR sky to pixel conversion, columns as close to the map centre as possible"""
	y = dec/deg/wcs.wcs.cdelt[1]+wcs.wcs.crpix[1]-1; n = 360/abs(wcs.wcs.cdelt[0])
	x = (ra/deg-wcs.wcs.crval[0])/wcs.wcs.cdelt[0]+wcs.wcs.crpix[0]-1
	c = (shape[-1]-1)/2; return np.array([y, (x-c+n/2)%n-n/2+c])

def unit_spline(ctx, items):
	import healpy
	for rot, (spin, pre), order in items:
		M = matrix(rot); named = "," in rot; sp = spin if pre else [0]
		for gname in ("full","patch","down"):
			shape, wcs = {"full":fullsky("CC",7,12,True,True,15), "patch":((5,8),G.mkwcs("CAR",[40,0],[-20,20],[3,2])), "down":((9,16),G.mkwcs("CAR",[-100,0],[22.5,-20],[5.5,5]))}[gname]
			with ctx.case("map2healpix spline", rot=rot, spin=spin, pre=pre, order=order, geometry=gname):
				imap = enmap.ndmap(mdata(pre+shape,"f8")+2, wcs); keep = np.array(imap)
				for nside in (1,2,4):
					th, ph = hpix(nside); ti, pi, chi = source(M, th, ph); pix = skypix(shape, wcs, np.pi/2-ti, pi)
					for boundary in ("constant","nearest","wrap"):
						if boundary == "wrap" and gname == "patch": continue
						tol = 1e-3 if named else 1e-4
						if order < 3: vals = refinterp(keep, pix, order, boundary, 0.0)
						else: vals = utils.interpol(keep, pix, order=3, border=boundary)
						want = spun(vals, chi, sp)
						# leave out points on the line between two pixels or on the rim, where rounding decides
						e = np.abs(pix-np.floor(pix)-0.5).min(0) > 2e-4 if order == 0 else np.full(len(th),True)
						rim = np.minimum(np.abs(pix), np.abs(pix.T-(np.array(shape)-1)).T).min(0) < 2e-4
						rim |= np.abs(np.abs(pix[1]-(shape[1]-1)/2)-180/abs(wcs.wcs.cdelt[0])) < 1e-5      # the far side from the map
						if boundary == "wrap": rim = (np.abs(pix[1]-np.round(pix[1])) < -1)
						ok = e & (~rim if boundary != "wrap" or order == 0 else True)
						if boundary == "nearest": ok = ok & (np.abs(np.abs(pix[1]-(shape[1]-1)/2)-180/abs(wcs.wcs.cdelt[0])) > 1e-4)
						if boundary == "nearest": ok = ok & (pix[1] > 0) & (pix[1] < shape[1]-1)   # nearest edge is not unique around the sky
						for bs in (100000,5):
							got = reproject.map2healpix(imap, nside=nside, rot=ROTS[rot], spin=spin, method="spline", order=order, boundary=boundary, bsize=bs)
							ctx.check(got.shape == pre+(len(th),), "shape"); ctx.close(got[...,ok], want[...,ok], 0, tol, "nside %d boundary %s batches of %d" % (nside,boundary,bs))
					out = np.full(pre+(len(th),), 9.0); got = reproject.map2healpix(imap, out=out, rot=ROTS[rot], spin=spin, method="spline", order=order); ctx.check(got is out, "writes into the map it was given")
					ref = reproject.map2healpix(imap, nside=nside, rot=ROTS[rot], spin=spin, method="spline", order=order); ctx.eq(out, ref, "given map")
					em = enmap.ndmap(keep*np.asarray(enmap.pixsizemap(shape,wcs)), wcs); got = reproject.map2healpix(em, nside=nside, rot=ROTS[rot], spin=spin, method="spline", order=order, extensive=True); ctx.close(got, ref*4*np.pi/len(th), 0, 1e-9, "extensive")
				ctx.eq(np.asarray(imap), keep, "input unchanged")
		if order > 1:
			with ctx.case("healpix2map spline", rot=rot, order=order): ctx.raises(lambda: reproject.healpix2map(np.zeros(12), (5,8), wcs, method="spline", order=order), ValueError, "unsupported order")
			continue
		for nside, gname in itertools.product((1,2,4), ("car","car_full","car_fej","tan","zea","cea")):
			shape, wcs = G.alphabet()[gname]
			with ctx.case("healpix2map spline", rot=rot, spin=spin, pre=pre, order=order, nside=nside, geometry=gname):
				iheal = mdata(pre+(12*nside**2,),"f8")+2; keep = iheal.copy()
				dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape)); th, ph = (np.pi/2-dr[0]).reshape(-1), dr[1].reshape(-1); ti, pi, chi = source(M, th, ph)
				if order == 0:
					p = healpy.ang2pix(nside, ti, pi); ok = np.full(len(th),True)
					for a, b in itertools.product((-1e-4,1e-4),repeat=2): ok &= healpy.ang2pix(nside, np.clip(ti+a,0,np.pi), pi+b) == p
					vals = keep[...,p]
				else:
					pp, ww = healpy.get_interp_weights(nside, ti, pi); vals = np.sum(keep[...,pp]*ww, -2); ok = np.full(len(th),True)
				ok &= (th > 1e-6) & (th < np.pi-1e-6) & (ti > 1e-6) & (ti < np.pi-1e-6)        # no north to measure angles from
				want = spun(vals, chi, sp)
				for bs in (100000,1,17):
					got = reproject.healpix2map(iheal, shape, wcs, rot=ROTS[rot], spin=spin, method="spline", order=order, bsize=bs)
					ctx.eq(G.wcs_key(got.wcs), G.wcs_key(wcs), "coordinates"); ctx.check(got.shape == pre+shape, "shape"); ctx.close(np.asarray(got).reshape(pre+(-1,))[...,ok], want[...,ok], 0, 1e-3 if named else 1e-4, "batches of %d" % bs)
				ref = np.array(got); out = enmap.ndmap(np.full(pre+shape,3.0),wcs); got = reproject.healpix2map(iheal, out=out, rot=ROTS[rot], spin=spin, method="spline", order=order); ctx.check(got is out, "writes into the map it was given"); ctx.eq(np.asarray(out), ref, "given map")
				got = reproject.healpix2map(iheal, shape, wcs, rot=ROTS[rot], spin=spin, method="spline", order=order, extensive=True); ctx.close(np.asarray(got), ref*np.asarray(enmap.pixsizemap(shape,wcs))*12*nside**2/(4*np.pi), 1e-9, 1e-9, "extensive")
				ctx.eq(iheal, keep, "input unchanged")

def unit_small(ctx, items):
	for what, arg in items:
		if what == "rot2euler":
			with ctx.case("rot2euler", rot=arg):
				if ROTS[arg] is None: continue
				e = reproject.rot2euler(ROTS[arg]); M = Rz(e[2]) @ Ry(e[1]) @ Rz(e[0]); ctx.close(M, matrix(arg), 0, 2e-5 if "," in arg else 1e-12, "rotation")
				i = reproject.inv_euler(e); ctx.close(Rz(i[2]) @ Ry(i[1]) @ Rz(i[0]), M.T, 0, 1e-12, "inverse")
			with ctx.case("rot2euler bad"):
				for b in ("cel","foo,gal","cel,foo","a,b,c"): ctx.raises(lambda: reproject.rot2euler(b), ValueError, b)
		elif what == "nside":
			with ctx.case("restrict_nside", nside=arg):
				for x in (arg, arg+0.3, arg+0.7, max(arg-0.01,0.01)):
					for rd, f in (("ceil",np.ceil),("floor",np.floor),("round",np.round),(np.ceil,np.ceil)):
						ctx.eq(reproject.restrict_nside(x, "any", rd), max(1,int(f(x))), "any"); p = reproject.restrict_nside(x, "pow2", rd); ctx.check(p & (p-1) == 0 and p >= 1 and isinstance(p,int), "power of two")
						if f is np.ceil: ctx.check(p >= x-1e-9 and (p == 1 or p/2 < x), "smallest power of two that is enough, %s -> %s" % (x,p))
						elif f is np.floor: ctx.check(p <= max(x,1)+1e-9 and 2*p > x, "largest power of two below, %s -> %s" % (x,p))
						else: ctx.check(p/2**0.5-1e-9 <= max(x,1) <= p*2**0.5+1e-9, "closest power of two")
						m = reproject.restrict_nside(x, "mul32", rd)
						if 12*x*x > 1024: ctx.eq(m, max(1,int(f(x/32)*32)), "multiple of 32")
						else: ctx.eq(m, max(1,int(x)), "small values unrestricted")
				ctx.eq(reproject.restrict_nside(arg), reproject.restrict_nside(arg,"mul32","ceil"), "default"); ctx.raises(lambda: reproject.restrict_nside(arg,"foo"), ValueError, "unknown mode")
		elif what == "defaults":
			with ctx.case("default resolution", n=arg):
				shape, wcs = fullsky("CC", arg+1, 2*arg, True, True, 15); m = enmap.ones(shape, wcs); res = np.pi/arg; x = (4*np.pi/res**2/12)**0.5
				for mode in ("pow2","mul32","any"): ctx.eq(reproject.map2healpix(m, nside_mode=mode, method="spline", order=0).shape[-1], 12*reproject.restrict_nside(x,mode)**2, "nside, %s" % mode)
				r = reproject.map2healpix(m); ctx.close(r, np.ones(r.shape), 0, 1e-6, "constant map stays constant")
				ctx.close(np.asarray(reproject.healpix2map(np.ones(12*arg**2), shape, wcs, niter=3)), np.ones(shape), 0, 0.05, "constant healpix map stays constant")
			with ctx.case("bad method"):
				ctx.raises(lambda: reproject.map2healpix(m, method="foo"), ValueError, "map2healpix"); ctx.raises(lambda: reproject.healpix2map(np.zeros(12), shape, wcs, method="foo"), ValueError, "healpix2map")
		elif what == "distribute":
			with ctx.case("distribute", n=arg[0], nmax=arg[1]):
				c = reproject.distribute(*arg); ctx.eq(sum(c), arg[0], "all items"); ctx.check(max(c) <= arg[1] and min(c) > 0, "no cell has more than %d things: got %s" % (arg[1],c))
		elif what == "populate":
			with ctx.case("populate", shape=arg[0], tile=arg[1]):
				shape, wcs = arg[0], G.mkwcs("CAR",[10,0],[-1,1],[4,3]); pm = np.asarray(enmap.posmap(shape,wcs))
				r = quiet(lambda: reproject.populate(shape, wcs, lambda s,w: enmap.posmap(s,w)[0]*100+enmap.posmap(s,w)[1], *arg[1])); ctx.close(np.asarray(r), pm[0]*100+pm[1], 1e-9, 1e-9, "every tile")
		elif what == "cutout":
			with ctx.case("cutout", npix=arg):
				shape, wcs = (20,24), G.mkwcs("CAR",[10,0],[-1,1],[12,10]); m = enmap.ndmap(mdata((2,)+shape,"f8"), wcs)
				for y, x in itertools.product(range(0,20,3), range(0,24,4)):
					dec, ra = G.ref_pix2sky(wcs, np.array([y,x],float)); r = reproject.cutout(m, ra=ra, dec=dec, npix=arg)
					y1 = int(np.round(y-arg/2+0.5)); x1 = int(np.round(x-arg/2+0.5))
					inside = not (int(np.round(y-arg/2)) < 1 or int(np.round(x-arg/2)) < 1 or int(np.round(y+arg/2)) > 19 or int(np.round(x+arg/2)) > 23)
					if arg % 2 == 0:    # odd sizes meet rounding ties
						continue
					if min(y-arg/2, x-arg/2) >= 2 and y+arg/2 <= 18 and x+arg/2 <= 22:
						ctx.check(r is not None, "inside"); ctx.eq(r.shape, (2,arg,arg), "shape"); ctx.eq(np.asarray(r), np.asarray(m)[:,y-arg//2:y+arg//2+1,x-arg//2:x+arg//2+1], "centred on the position"); s = reproject.cutout(m, ra=ra, dec=dec, npix=arg, return_slice=True); ctx.eq(np.asarray(m[s]), np.asarray(r), "slice")
						ctx.close(np.asarray(r.posmap()), np.asarray(enmap.posmap(shape,wcs))[:,y-arg//2:y+arg//2+1,x-arg//2:x+arg//2+1], 1e-9, 1e-9, "coordinates")
					elif y-arg/2 < 0 or x-arg/2 < 0 or y+arg/2 > 20 or x+arg/2 > 24: ctx.check(r is None, "does not fit")
		elif what == "pixsize":
			with ctx.case("get_pixsize_rect", geometry=arg):
				shape, wcs = G.alphabet("cyl")[arg]; ctx.close(reproject.get_pixsize_rect(shape,wcs), np.asarray(enmap.pixsizemap(shape,wcs))[:,0], 1e-6, 1e-12, "areas")
			with ctx.case("rect_geometry", n=arg):
				for w, h, c in itertools.product((4*deg,6*deg),(None,3*deg),((0.,0.),(10*deg,40*deg))):
					b = reproject.rect_box(w, c, h); hh = h or w; ctx.close(b, [[c[0]-hh/2,c[1]-w/2],[c[0]+hh/2,c[1]+w/2]], 0, 1e-12, "box")
					s, wc = reproject.rect_geometry(w, 0.5*deg, h, c); ctx.eq(tuple(s), (int(round(hh/(0.5*deg))),int(round(w/(0.5*deg)))), "shape"); cc = enmap.center(s,wc)-c; cc[1] = (cc[1]+np.pi)%(2*np.pi)-np.pi; ctx.check(np.all(np.abs(cc) < 0.51*deg), "centre to within a pixel")

def quiet(f):
	import io, contextlib
	with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
		warnings.simplefilter("ignore"); return f()

def unit_thumb(ctx, items):
	lmax = 3; ai = curvedsky.alm_info(lmax)
	for (dec, ra), proj, (spin, pre), gname in items:
		coord = np.array([dec,ra])*deg
		shape, wcs = {"car":((181,360),G.mkwcs("CAR",[0,0],[-1,1],[181,91])), "cea":((115,360),G.mkwcs("CEA",[20,0],[-1,1],[180.5,58],[(2,1,1.0)])), "fine":((91,121),G.mkwcs("CAR",[30,0],[-0.5,0.5],[61,46]))}[gname]
		dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape)); ok = np.isfinite(dr[0])
		alm = fill(ai, pre or (1,), np.complex128)
		sp = spin if pre else [0]
		def plain(th, ph):
			r = Ref(th.reshape(-1),ph.reshape(-1),lmax).Y(ai, alm, sp, 0).reshape((pre or (1,))+th.shape); return r if pre else r[0]
		def vals(shape,wcs):
			dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape)); dr[0] = np.clip(np.nan_to_num(dr[0]),-np.pi/2,np.pi/2); return plain(np.pi/2-dr[0], np.nan_to_num(dr[1])%(2*np.pi))
		key = (gname, pre, str(spin))
		if key not in CACHE: CACHE[key] = vals(shape,wcs)
		full = enmap.ndmap(CACHE[key].copy(), wcs); keep = np.array(full)
		r, res = 4*deg, 1*deg
		pol = len(pre) > 0 and pre[-1] == 3
		with ctx.case("thumbnails", coord=(dec,ra), proj=proj, spin=spin, pre=pre, geometry=gname):
			oshape, owcs = enmap.thumbnail_geometry(r=r, res=res, proj=proj or "car")
			od = G.ref_pix2sky(unbound(owcs), G.pixgrid(oshape)); oth, oph = np.pi/2-od[0], od[1]
			# output (0,0) is where coord is: out = Rz(-ra) then Ry(dec) brings it to the equator
			M = Ry(coord[0]) @ Rz(-coord[1]); ti, pi, chi = source(M, oth.reshape(-1), oph.reshape(-1))
			want = plain(ti, pi); want = spun(want, chi, [0,2]) if pol else want; want = np.asarray(want).reshape(pre+oshape)
			rad = np.arccos(np.clip(np.cos(od[0])*np.cos(od[1]),-1,1)); use = rad < r*0.999
			amp = np.abs(keep).max()*(5 if abs(dec) > 60 else 1)
			for method, order, over, tol in (("spline",0,1,0.08),("spline",1,1,2e-3),("spline",3,1,2e-3),("mixed",3,1,2e-3),("mixed",3,2,2e-3),("mixed",3,4,2e-3),("mixed",1,4,4e-3),("nufft",3,4,2e-3)):
				got = reproject.thumbnails(full, coord, r=r, res=res, proj=proj, apod=4*deg, method=method, order=order, oversample=over)
				ctx.check(got.shape == pre+oshape, "shape"); ctx.eq(G.wcs_key(got.wcs), G.wcs_key(owcs), "geometry"); ctx.close(np.asarray(got)[...,use], want[...,use], 0, tol*amp+1e-9, "%s order %d oversample %g" % (method,order,over))
			if pol:
				got = reproject.thumbnails(full, coord, r=r, res=res, proj=proj, apod=4*deg, pol=False); ctx.close(np.asarray(got)[...,use], np.asarray(plain(ti,pi)).reshape(pre+oshape)[...,use], 0, 2e-3*amp, "polarisation rotation turned off")
			else: ctx.raises(lambda: reproject.thumbnails(full, coord, r=r, res=res, proj=proj, pol=True), ValueError, "cannot rotate polarisation")
			# many positions at once, any leading shape
			cs = np.array([[coord,coord+0.02],[coord-0.03,coord*0.5]])
			if abs(dec) < 80:
				got = reproject.thumbnails(full, cs, r=r, res=res, proj=proj, apod=4*deg, oversample=1, order=1); ctx.eq(got.shape, (2,2)+pre+oshape, "one per position")
				for I in np.ndindex(2,2): ctx.close(np.asarray(got[I]), np.asarray(reproject.thumbnails(full, cs[I], r=r, res=res, proj=proj, apod=4*deg, oversample=1, order=1)), 0, 1e-9, "position %s" % (I,))
			ctx.eq(np.asarray(full), keep, "input unchanged")
			# extensive quantities, and the filter and pixel window hooks
			pa = np.asarray(enmap.pixsizemap(shape,wcs)); em = enmap.ndmap((keep-keep.min()+1)*pa, wcs); k2 = np.array(em)
			opa = np.asarray(enmap.pixsizemap(oshape,owcs))
			w2 = np.asarray((plain(ti,pi))).reshape(pre+oshape)-keep.min()+1
			if abs(dec) < 80:
				rim = rad < r-1.5*res      # without an apodisation margin the outermost pixel is not reachable
				got = reproject.thumbnails_ivar(em, coord, r=r, res=res, proj=proj); ctx.close(np.asarray(got/opa)[...,rim], w2[...,rim], 0, 5e-3*np.abs(w2).max(), "extensive ivar"); ctx.check(np.all(np.asarray(got) >= 0), "stays positive")
				got = reproject.thumbnails_ivar(enmap.ndmap(keep-keep.min()+1,wcs), coord, r=r, res=res, proj=proj, extensive=False); ctx.close(np.asarray(got)[...,rim], w2[...,rim], 0, 5e-3*np.abs(w2).max(), "intensive ivar")
				got = reproject.thumbnails(em, coord, r=r, res=res, proj=proj, apod=4*deg, extensive=True, pol=False); ctx.close(np.asarray(got/opa)[...,use], w2[...,use], 0, 5e-3*np.abs(w2).max(), "extensive")
				ctx.eq(np.asarray(em), k2, "input unchanged")
				got = reproject.thumbnails(full, coord, r=r, res=res, proj=proj, apod=4*deg, filter=lambda m: m*2, pol=False); ctx.close(np.asarray(got), 2*np.asarray(reproject.thumbnails(full, coord, r=r, res=res, proj=proj, apod=4*deg, pol=False)), 1e-7, 1e-7, "filter")
			ctx.raises(lambda: reproject.thumbnails(full, coord, r=r, res=res, proj=proj, method="foo"), ValueError, "unknown method")
CACHE = {}

def unit_old(ctx, items):
	import healpy
	lmax = 3; ai = curvedsky.alm_info(lmax)
	for what, arg in items:
		if what == "enmap_from_healpix":
			rot, ncomp, gname = arg; M = matrix(rot or "none"); shape, wcs = G.alphabet()[gname]
			with ctx.case("enmap_from_healpix", rot=rot, ncomp=ncomp, geometry=gname):
				alm = fill(ai,(ncomp,),np.complex128)
				if ncomp == 3: alm[1:,[int(ai.lm2ind(l,m)) for l in range(2) for m in range(l+1)]] = 0
				dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape)); th, ph = (np.pi/2-dr[0]).reshape(-1), dr[1].reshape(-1); ti, pi, chi = source(M, th, ph)
				want = spun(Ref(ti,pi,lmax).Y(ai,alm,[0,2],0), chi, [0,2] if ncomp == 3 else [0]).reshape((ncomp,)+shape)
				r, a = quiet(lambda: reproject.enmap_from_healpix(alm.copy(), shape, wcs, ncomp=ncomp, lmax=lmax, rot=rot, is_alm=True, return_alm=True)); use = np.abs(np.abs(dr[0])-np.pi/2) > 1e-6
				ctx.close(np.asarray(r)[:,use], want[:,use], 0, 2e-4, "from coefficients"); ctx.close(a, alm, 0, 1e-12, "coefficients")
				hm = Ref(*hpix(8),lmax).Y(ai,alm,[0,2],0)
				r = quiet(lambda: reproject.enmap_from_healpix(hm*2, shape, wcs, ncomp=ncomp, lmax=lmax, rot=rot, unit=2)); ctx.close(np.asarray(r)[:,use], want[:,use], 0, 0.05, "from a map")
				r = quiet(lambda: reproject.enmap_from_healpix(alm.copy(), shape, wcs, ncomp=ncomp, lmax=lmax, rot=rot, is_alm=True, f_ell=lambda l: 2.0+0*l)); ctx.close(np.asarray(r)[:,use], 2*want[:,use], 0, 4e-4, "transfer function")
		elif what == "interp":
			rot, gname = arg; M = matrix(rot or "none"); shape, wcs = G.alphabet()[gname]
			with ctx.case("enmap_from_healpix_interp", rot=rot, geometry=gname):
				hm = mdata((48,),"f8")+2; dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape)); th, ph = np.pi/2-dr[0], dr[1]; ti, pi, chi = source(M, th.reshape(-1), ph.reshape(-1))
				p = healpy.ang2pix(2, ti, pi); ok = np.full(len(p),True)
				for a, b in itertools.product((-1e-4,1e-4),repeat=2): ok &= healpy.ang2pix(2, np.clip(ti+a,0,np.pi), pi+b) == p
				ok &= (ti > 1e-6)&(ti < np.pi-1e-6)
				r = quiet(lambda: reproject.enmap_from_healpix_interp(hm, shape, wcs, rot=rot)); ctx.eq(np.asarray(r).reshape(-1)[ok], hm[p][ok], "nearest"); ctx.eq(G.wcs_key(r.wcs), G.wcs_key(wcs), "coordinates")
				r = quiet(lambda: reproject.enmap_from_healpix_interp(hm, shape, wcs, rot=rot, interpolate=True)); pp, ww = healpy.get_interp_weights(2, ti, pi); ctx.close(np.asarray(r).reshape(-1), np.sum(hm[pp]*ww,0), 0, 3e-5, "bilinear")
		elif what == "ivar":
			rot, gname = arg; shape, wcs = G.alphabet()[gname]
			with ctx.case("ivar_hp_to_cyl", rot=rot, geometry=gname):
				hm = mdata((48,),"f8")+0.5; M = gal().T if rot else np.eye(3); dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape)); ti, pi, chi = source(M, (np.pi/2-dr[0]).reshape(-1), dr[1].reshape(-1))
				p = healpy.ang2pix(2, ti, pi); ok = np.full(len(p),True)
				for a, b in itertools.product((-1e-4,1e-4),repeat=2): ok &= healpy.ang2pix(2, np.clip(ti+a,0,np.pi), pi+b) == p
				for mask, ext in itertools.product((True,False),repeat=2):
					v = np.where(hm > 0, hm, 0) if mask else hm; v = v[p].reshape(shape)*(np.asarray(enmap.pixsizemap(shape,wcs))*48/(4*np.pi) if ext else 1)
					r = quiet(lambda: reproject.ivar_hp_to_cyl(hm.copy(), shape, wcs, rot=rot, do_mask=mask, extensive=ext)); ctx.eq(r.shape, (1,)+shape, "shape"); ctx.close(np.asarray(r)[0].reshape(-1)[ok], v.reshape(-1)[ok], 1e-5, 1e-6*max(1,np.abs(v).max()), "mask %s extensive %s" % (mask,ext))
		elif what == "healpix_from_enmap":
			with ctx.case("healpix_from_enmap", nside=arg):
				shape, wcs = fullsky("CC", 7, 12, True, True, 15); dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape)); alm = fill(ai,(1,),np.complex128)
				m = enmap.ndmap(Ref((np.pi/2-dr[0]).reshape(-1),dr[1].reshape(-1),lmax).Y(ai,alm,[0],0).reshape(shape),wcs); ctx.close(reproject.healpix_from_enmap(m, lmax, arg), Ref(*hpix(arg),lmax).Y(ai,alm,[0],0)[0], 0, 1e-8, "values")
		elif what == "centered":
			dec, ra, ncomp = arg
			with ctx.case("centered_map", dec=dec, ra=ra, ncomp=ncomp):
				shape, wcs = (21,31), G.mkwcs("CAR",[0,0],[-0.5,0.5],[1+ra/0.5+15,1-dec/0.5+10]); dr = G.ref_pix2sky(unbound(wcs), G.pixgrid(shape))
				alm = fill(ai,(ncomp,),np.complex128); f = lambda th, ph: Ref(th.reshape(-1),ph.reshape(-1)%(2*np.pi),lmax).Y(ai,alm,[0,2] if ncomp == 3 else [0],0).reshape((ncomp,)+th.shape)
				m = enmap.ndmap(f(np.pi/2-dr[0],dr[1]),wcs); keep = np.array(m)
				r, rpix = quiet(lambda: reproject.centered_map(m, 0.5*deg, width=4*deg, height=3*deg)); od = G.ref_pix2sky(r.wcs, G.pixgrid(r.shape[-2:]))
				# documented reference: pixel shape[0]/2, shape[1]/2 of the *first two* axes
				c = reproject_center(m); M = Ry(c[0]) @ Rz(-c[1]); ti, pi, chi = source(M, (np.pi/2-od[0]).reshape(-1), od[1].reshape(-1)); want = spun(f(ti,pi), chi, [0,2] if ncomp == 3 else [0]).reshape(r.shape); i = (Ellipsis,slice(1,-1),slice(1,-1))
				ctx.close(np.asarray(r)[i], want[i], 0, 3e-3*np.abs(want).max(), "values"); ctx.eq(np.asarray(m), keep, "input unchanged")
def reproject_center(m): return G.ref_pix2sky(m.wcs, np.array([m.shape[-2]/2,m.shape[-1]/2]))

def units(tier):
	q = tier == "quick"
	rots = ["none","id","z","y","gen","gen2","flip","cel,gal","gal,cel","equ,gal","gal,equ","gal,gal","cel,equ"]
	harm = [(r,c,dt) for r in rots for c in (COMPS if not q else COMPS[:5]) for dt in ("f8","f4") if not q or dt == "f8" or r in ("none","gen")]
	spl  = [(r,c,o) for r in rots for c in COMPS for o in (0,1,3)]
	small = ([("rot2euler",r) for r in rots]+[("nside",n) for n in range(1,131)]+[("defaults",n) for n in (3,4,6,8)]+[("distribute",(n,m)) for n in range(1,31) for m in range(1,16)]
		+[("populate",((a,b),(c,d))) for a,b in ((5,7),(12,9),(1,4)) for c,d in ((3,4),(5,2),(400,400))]+[("cutout",n) for n in range(1,8)]+[("pixsize",n) for n in G.alphabet("cyl") if n != "mer"])
	cs = [(0,0),(0,180),(30,100),(-55,-179.5),(75,10),(-78,40),(65,-90),(12.3,359),(-33.4,-120.7)]
	th = [(c,p,s,"car") for c in cs for p in (None,"tan","car") for s in COMPS[:3]+[([0,2],(2,3))]]+[(c,"tan",s,g) for c in ((5,20),(10,30),(-12,40)) for s in COMPS[:2] for g in ("cea","fine")]
	if q: th = [t for i,t in enumerate(th) if i % 2 == 0 or t[3] != "car"]
	old = ([("enmap_from_healpix",(r,n,g)) for r in (None,"gal,equ","equ,gal","gal,cel") for n in (1,3) for g in ("car","car_full","tan","cea")]
		+[("interp",(r,g)) for r in (None,"gal,equ","equ,gal") for g in ("car","car_full","tan")]+[("ivar",(r,g)) for r in (False,True) for g in ("car","car_full","car_fej","cea")]
		+[("healpix_from_enmap",n) for n in (1,2,4)]+[("centered",(d,r,n)) for d in (0,30,-50) for r in (0,20) for n in (1,3)])
	return chunked("harm", harm, unit_harm, 16)+chunked("spline", spl, unit_spline, 16)+chunked("small", small, unit_small, 8)+chunked("thumbnails", th, unit_thumb, 16)+chunked("old", old, unit_old, 8)
