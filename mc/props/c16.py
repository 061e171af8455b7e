"""C16: distance transforms against brute force."""
import numpy as np, itertools, ctypes
from pixell import enmap, distances, utils
from .. import geo as G
from ..core import chunked

RULE   = "every geometry x point set / mask / label pattern within the bounds x method x search limit x block size x thread count; oracle: brute-force minimum of great-circle distances"
BOUNDS = "maps up to 7x12 pixels (some 40x70) of 14 geometries incl. full sky; all sets of 1 and 2 (some of 3) points on a lattice of pixel centres, off-centre, outside the map, near the poles and antipodal; every mask of a 3x4 map and of pairs/stripes of larger ones; healpix nside 1,2,4"
ASSUME = ["the propagation methods (cellgrid, bubble, heap) are documented to be approximate for domains narrower than a pixel: for them the distance must be exactly the distance to the reported point, never too small, and at most one pixel too big; the exact method must be exact", "pixels have finite coordinates", "mask edges: borders of the map count as edges"]

def angd(a, b):
	va, vb = G.unitvec(a), G.unitvec(b)
	return np.arctan2(np.sqrt(np.sum(np.cross(va,vb,axis=0)**2,0)), np.sum(va*vb,0))
def alld(pos, pts): return np.array([angd(pos, np.array(p)[(slice(None),)+(None,)*(pos.ndim-1)]+np.zeros(pos.shape)) for p in np.asarray(pts).T])
try: GOMP = ctypes.CDLL("libgomp.so.1")
except OSError: GOMP = None

def gsetup(name):
	shape, wcs = G.alphabet()[name]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape))
	ny, nx = shape
	tol = max(np.max(angd(pos[:,1:],pos[:,:-1])), np.max(angd(pos[:,:,1:],pos[:,:,:-1])))
	return shape, wcs, pos, tol
def cands(shape, pos):
	ny, nx = shape; c = pos[:,ny//2,nx//2]; d = G.deg
	L = [pos[:,y,x] for y in range(0,ny,2) for x in range(0,nx,3)]
	L += [c+[0.3*d,0.4*d], c+[0.2*d,-0.3*d], c+[-20*d,0], c+[3*d,-40*d], np.array([1.5,2.0]), np.array([-c[0],c[1]+np.pi]), np.array([c[0],c[1]+2*np.pi])]
	return [np.array([np.clip(p[0],-np.pi/2,np.pi/2),p[1]]) for p in L]

def verify(ctx, d, dom, D, rmax, exact, tol, lab):
	"""d, dom against the table of all distances D[point,...]"""
	d, dom = np.asarray(d), None if dom is None else np.asarray(dom)
	true = np.min(D,0)
	lim = np.inf if rmax is None else rmax
	want = np.minimum(true, lim)
	ctx.check(d.shape == want.shape, lab+": shape")
	eps = 1e-9
	if exact: ctx.close(d, want, 0, eps, lab+": distance")
	else:
		ctx.see(want)
		bad = ~((d >= want-eps) & (d <= np.minimum(true+tol,lim)+eps))
		ctx.check(not np.any(bad), "%s: distance off by up to %g (pixel size %g)\n got %s\nwant %s" % (lab, np.max(np.abs(d-want)), tol, d, want), want)
	if dom is not None:
		ctx.check(np.all((dom >= -1) & (dom < len(D))), lab+": valid domain numbers")
		has = dom >= 0
		ctx.check(np.all(has | (d >= lim-eps)), lab+": a domain for everything within the limit")
		ctx.check(np.all(~has | (d <= lim+eps)), lab+": no domain beyond the limit")
		dd = np.take_along_axis(D, np.maximum(dom,0)[None].astype(int), 0)[0]
		ctx.check(np.all(~has | (np.abs(dd-d) < eps)), lab+": the distance is that of the reported point")

def unit_points(ctx, items):
	for name, ii in items:
		shape, wcs, pos, tol = gsetup(name); cs = cands(shape, pos)
		pts = np.array([cs[i] for i in ii]).T; D = alld(pos, pts)
		med = float(np.median(np.min(D,0)))
		# far-side points have no well-defined pixel in an azimuthal projection, so no search limit for them
		far = not name.startswith(("car","cea","mer")) and np.any(angd(pts, np.repeat(pos[:,shape[0]//2,shape[1]//2,None],pts.shape[1],1)) > np.pi/2)
		for method in ("cellgrid","bubble","simple"):
			with ctx.case("distance_from", geometry=name, points=ii, method=method):
				ex = method == "simple" or len(ii) == 1
				for rmax in (None, med*0.9+1e-6, 1e-4):
					if rmax is not None and (far or method == "simple"): continue
					kw = {} if rmax is None else {"rmax":rmax}
					d, dom = enmap.distance_from(shape, wcs, pts, domains=True, method=method, **kw)
					verify(ctx, d, dom, D, rmax, ex, tol, "rmax %s" % rmax)
					ctx.check(d.dtype == np.float64 and isinstance(d, enmap.ndmap), "type")
					om = enmap.full(shape, wcs, 77.0); od = enmap.full(shape, wcs, 5, np.int32)
					d2, dom2 = enmap.distance_from(shape, wcs, pts, omap=om, odomains=od, domains=True, method=method, **kw)
					ctx.eq(np.asarray(om), np.asarray(d), "output buffer"); ctx.eq(np.asarray(od), np.asarray(dom), "output buffer"); ctx.check(d2 is om and dom2 is od, "buffers returned")
					ctx.eq(np.asarray(enmap.distance_from(shape, wcs, pts, method=method, **kw)), np.asarray(d), "without domains")
				for st in (1,2,3,7) if method == "simple" else ():
					d2, dom2 = enmap.distance_from(shape, wcs, pts, domains=True, method=method, step=st); ctx.close(np.asarray(d2), np.asarray(d), 0, 1e-12, "row blocks of %d" % st); verify(ctx, d2, dom2, D, None, True, tol, "row blocks of %d" % st); ctx.close(np.asarray(enmap.distance_from(shape, wcs, pts, method=method, step=st)), np.asarray(d), 0, 1e-12, "row blocks of %d without domains" % st)
				ctx.eq(np.asarray(enmap.distance_from((3,)+shape, wcs, pts, method=method)).shape, shape, "leading axes ignored")
				if len(ii) == 1: ctx.eq(np.asarray(enmap.distance_from(shape, wcs, pts[:,0], method=method)), np.asarray(enmap.distance_from(shape,wcs,pts,method=method)), "single point")
		with ctx.case("block sizes", geometry=name, points=ii):
			pix = utils.nint(enmap.sky2pix(shape, wcs, pts))
			ref = None
			for bs in (1,2,3,(2,5),32):
				for sep in (True,False):
					if sep:
						if not name.startswith(("car","cea","mer")): continue
						y, x = pos[0,:,0], pos[1,0]
					else: y, x = pos
					d, dom = distances.distance_from_points_cellgrid(y, x, pts, pix, domains=True, bsize=bs)
					verify(ctx, d, dom, D, None, len(ii) == 1, tol, "block size %s" % (bs,))
					if far: continue
					d, dom = distances.distance_from_points_cellgrid(y, x, pts, pix, domains=True, bsize=bs, rmax=med+1e-7)
					verify(ctx, d, dom, D, med+1e-7, len(ii) == 1, tol, "block size %s limited" % (bs,))
		if len(ii) <= 2:
			with ctx.case("enmap methods", geometry=name, points=ii):
				m = enmap.zeros(shape, wcs)
				ctx.eq(np.asarray(m.distance_from(pts)), np.asarray(enmap.distance_from(shape,wcs,pts)), "method")

def mask_ref(pos, mask):
	"""exact distance of every pixel to the closest False pixel"""
	z = np.argwhere(~mask)
	if len(z) == 0: return np.full(mask.shape, np.inf)
	return np.min(alld(pos, pos[:,z[:,0],z[:,1]]),0)

def check_mask(ctx, m, pos, tol, methods, rs):
	mask = np.asarray(m); true = mask_ref(pos, mask)
	for method in methods:
		d = np.asarray(enmap.distance_transform(m, method=method)); 
		if np.isfinite(true).all(): vmask(ctx, d, true, method == "simple", tol, method)
		else: ctx.check(np.all(d > 1e100), "nothing masked: infinite distance")
		for r in rs:
			if method == "simple": continue
			d2 = np.asarray(enmap.distance_transform(m, rmax=r, method=method)); vmask(ctx, d2, np.minimum(true, r), False, tol, method+" limited")
			ctx.check(np.all(d2 <= r+1e-12), "limit")
	for r in rs:
		if np.any(np.abs(true-r) < 1e-9): continue
		sh = np.asarray(enmap.shrink_mask(m, r)); 
		far = true > r; ctx.see(far)
		ctx.check(sh.dtype == bool and np.all(sh[far]), "shrinking keeps what is further than r from a masked pixel"); ctx.check(not np.any(sh[true < r-tol]), "shrinking removes what is within r"); ctx.check(not np.any(sh & ~mask), "shrinking only removes")
		inv = enmap.enmap(~m, m.wcs); gr = np.asarray(enmap.grow_mask(inv, r))
		ctx.eq(gr, ~sh, "growing the complement"); ctx.check(np.all(gr[~mask]), "growing only adds")
	ctx.eq(np.asarray(m), mask, "mask unchanged")

def vmask(ctx, d, true, exact, tol, lab):
	if exact: ctx.close(d, true, 0, 1e-9, lab)
	else:
		ctx.see(true)
		ctx.check(np.all(d >= true-1e-9) and np.all(d <= true+tol+1e-9) and np.all(d[true==0] == 0), "%s: off by up to %g (pixel %g)\n got %s\nwant %s" % (lab, np.max(np.abs(d-true)), tol, d, true), true)

def unit_masks(ctx, items):
	for name, shape, bits in items:
		wcs = G.alphabet()[name][1]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape)); n = shape[0]*shape[1]
		tol = max(np.max(angd(pos[:,1:],pos[:,:-1])), np.max(angd(pos[:,:,1:],pos[:,:,:-1])))
		for b in bits:
			mask = np.array([(b>>i)&1 for i in range(n)],bool).reshape(shape)
			with ctx.case("distance_transform", geometry=name, shape=shape, mask=b):
				check_mask(ctx, enmap.ndmap(mask, wcs), pos, tol, ("cellgrid","bubble","simple"), (1.3*tol,))
			if b % 7 == 0:
				with ctx.case("find_edges", shape=shape, mask=b):
					pad = np.pad(mask, 1, constant_values=True)
					want = [i for i in range(n) if not mask.flat[i] and (lambda y,x: pad[y,x+1] or pad[y+2,x+1] or pad[y+1,x] or pad[y+1,x+2])(*divmod(i,shape[1]))]
					for mm in (mask, mask.astype(np.uint8), mask.astype(np.int64)*3, np.asfortranarray(mask)):
						ctx.eq(sorted(set(int(v) for v in distances.find_edges(mm, flat=True))), want, "edges")
						y, x = distances.find_edges(mm); ctx.eq(sorted(set(int(v) for v in np.asarray(y)*shape[1]+np.asarray(x))), want, "edges 2d")

def unit_bigmask(ctx, items):
	for name, ii in items:
		shape, wcs, pos, tol = gsetup(name); n = shape[0]*shape[1]
		mask = np.ones(shape,bool); mask.flat[list(ii)] = False
		with ctx.case("distance_transform pairs", geometry=name, masked=ii):
			check_mask(ctx, enmap.ndmap(mask, wcs), pos, tol, ("cellgrid","bubble","simple"), (1.3*tol, 2.2*tol))
			check_mask(ctx, enmap.ndmap(~mask, wcs), pos, tol, ("cellgrid",), (0.7*tol,))

def unit_labels(ctx, items):
	for name, shape, code in items:
		wcs = G.alphabet()[name][1]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape)); n = shape[0]*shape[1]
		tol = max(np.max(angd(pos[:,1:],pos[:,:-1])), np.max(angd(pos[:,:,1:],pos[:,:,:-1])))
		lab = np.array([(code//3**i)%3 for i in range(n)],np.int32).reshape(shape)
		for method in ("cellgrid","bubble","simple"):
			with ctx.case("labeled", geometry=name, shape=shape, labels=code, method=method):
				tab = {l: np.min(alld(pos, pos[:,lab==l]),0) for l in (1,2) if np.any(lab==l)}
				true = np.min(list(tab.values()),0) if tab else None
				for rmax in (None, 1.3*tol):
					if method == "simple" and rmax: continue
					for dt in (np.int32,np.int64):
						m = enmap.ndmap(lab.astype(dt), wcs); d, dom = enmap.labeled_distance_transform(m, rmax=rmax, method=method); d, dom = np.asarray(d), np.asarray(dom)
						if true is None: ctx.check(np.all(d >= (rmax or 1e100)) and np.all(dom <= 0), "no labels"); continue
						lim = rmax or np.inf
						vmask(ctx, d, np.minimum(true,lim), method == "simple", tol, "distance")
						ctx.eq(dom[lab!=0], lab[lab!=0], "inside a region its own label")
						for l in (0,1,2):
							sel = dom == l
							if l == 0: ctx.check(np.all(d[sel] >= lim-1e-9), "only unreached pixels have no label")
							elif l in tab: ctx.check(np.all(np.abs(tab[l][sel]-d[sel]) < 1e-9), "the distance is that of the reported label", l)
							else: ctx.check(not np.any(sel), "only existing labels")
						od = enmap.full(shape, wcs, 9, np.int32); om = enmap.full(shape, wcs, 9.0)
						enmap.labeled_distance_transform(m, rmax=rmax, method=method, omap=om, odomains=od); ctx.eq(np.asarray(om), d, "buffer"); ctx.eq(np.asarray(od), dom, "label buffer")
				with_pre = enmap.ndmap(np.array([lab,lab[::-1]]), wcs)
				if true is not None:
					d, dom = enmap.labeled_distance_transform(with_pre, method=method); d0, dom0 = enmap.labeled_distance_transform(with_pre[0], method=method); d1, dom1 = enmap.labeled_distance_transform(with_pre[1], method=method)
					ctx.eq(np.asarray(d), np.array([d0,d1]), "several maps"); ctx.eq(np.asarray(dom), np.array([dom0,dom1]), "several maps")

def unit_hp(ctx, items):
	import healpy
	for nside, kind, ii in items:
		npix = 12*nside**2; th, ph = healpy.pix2ang(nside, np.arange(npix)); pos = np.array([np.pi/2-th, ph])
		tol = 2*np.sqrt(4*np.pi/npix)
		info = distances.healpix_info(nside)
		if kind == "info":
			with ctx.case("healpix layout", nside=nside):
				ctx.eq([info.nside,info.npix,info.ny], [nside,npix,4*nside-1], "sizes")
				y, x = distances.unravel_healpix(info, np.arange(npix)); ctx.eq(distances.ravel_healpix(info, np.array([y,x])), np.arange(npix), "ravel")
				ctx.close(info.dec[y], pos[0], 0, 1e-12, "dec"); ctx.close(np.cos(info.ra0[y]+x*2*np.pi/info.nx[y]), np.cos(pos[1]), 0, 1e-12, "ra"); ctx.close(np.sin(info.ra0[y]+x*2*np.pi/info.nx[y]), np.sin(pos[1]), 0, 1e-12, "ra")
				for i in range(npix):
					ny, nx = distances.get_healpix_neighs(info, int(y[i]), int(x[i])); got = sorted(int(v) for v in distances.ravel_healpix(info, np.array([ny,nx])))
					nb = healpy.get_all_neighbours(nside, i); want = sorted(int(v) for v in nb[[0,2,4,6]])
					ctx.eq(got, want, "neighbours of pixel %d" % i)
			continue
		if kind == "points":
			d0 = G.deg; cs = list(pos[:, ::max(1,npix//16)].T)+[np.array([0.1,0.2]),np.array([np.pi/2,0.0]),np.array([-1.55,3.0]),np.array([0.12,0.25])]
			if max(ii) >= len(cs): continue
			pts = np.array([cs[i] for i in ii]).T; D = alld(pos, pts)
			for method in ("bubble","heap"):
				with ctx.case("distance_from_healpix", nside=nside, points=ii, method=method):
					for rmax in (None, float(np.median(D))*0.8+1e-6):
						d, dom = enmap.distance_from_healpix(nside, pts, domains=True, rmax=rmax, method=method); verify(ctx, d, dom, D, rmax, len(ii) == 1, tol, "rmax %s" % rmax)
						om = np.full(npix, 7.0); od = np.full(npix, 7, np.int32); enmap.distance_from_healpix(nside, pts, omap=om, odomains=od, domains=True, rmax=rmax, method=method); ctx.eq(om, d, "buffer"); ctx.eq(od, dom, "buffer")
						ctx.eq(enmap.distance_from_healpix(nside, pts, rmax=rmax, method=method), d, "without domains")
		else:
			mask = np.ones(npix,bool); mask[list(ii)] = False
			if kind == "inv": mask = ~mask
			true = np.min(alld(pos, pos[:,~mask]),0) if np.any(~mask) else np.full(npix,np.inf)
			for method in ("bubble","heap"):
				with ctx.case("distance_transform_healpix", nside=nside, kind=kind, masked=ii, method=method):
					for rmax in (None, 0.9*tol):
						d = enmap.distance_transform_healpix(mask, rmax=rmax, method=method)
						if np.isfinite(true).all(): vmask(ctx, d, np.minimum(true, rmax or np.inf), False, tol, "distance")
						else: ctx.check(np.all(d >= (rmax or 1e100)-1e-12), "nothing masked")
						d2 = enmap.distance_transform_healpix(np.array([mask,~mask]), rmax=rmax, method=method); ctx.eq(d2[0], d, "several maps")
					lab = np.zeros(npix,np.int32); lab[list(ii)] = np.arange(len(ii))+1
					if kind == "mask" and len(ii):
						tab = alld(pos, pos[:,list(ii)]); d, dom = enmap.labeled_distance_transform_healpix(lab, method=method); vmask(ctx, d, np.min(tab,0), False, tol, "labeled")
						dd = np.take_along_axis(tab, np.asarray(dom).astype(int)[None]-1, 0)[0]; ctx.close(dd, d, 0, 1e-9, "distance to the reported label"); ctx.eq(np.asarray(dom)[list(ii)].astype(int), lab[list(ii)], "own label")

def unit_large(ctx, items):
	"""Maps with many blocks, with various numbers of threads"""
	for name, pat in items:
		wcs0 = G.alphabet()[name][1]; shape = (40,70); wcs = wcs0.deepcopy()
		if name == "car_full": wcs.wcs.cdelt = [-360/70,180/40]; wcs.wcs.crpix = [35.5,20.5]; wcs.wcs.crval = [0,0]
		else: wcs.wcs.cdelt = np.sign(wcs0.wcs.cdelt)*0.5; wcs.wcs.crpix = [35,20]
		pos = G.ref_pix2sky(wcs, G.pixgrid(shape)); tol = max(np.max(angd(pos[:,1:],pos[:,:-1])), np.max(angd(pos[:,:,1:],pos[:,:,:-1])))
		Y, X = G.pixgrid(shape).astype(int)
		mask = {"pt": (Y==3)&(X==60), "two": ((Y==3)&(X==60))|((Y==33)&(X==5)), "line": Y==X//2, "ring": np.abs((Y-20)**2+(X-35)**2-200)<25, "dots": (Y%9==4)&(X%13==6), "blob": (Y-5)**2+(X-66)**2<30, "edge": (X==0)|(Y==39), "half": X<33}[pat]
		m = enmap.ndmap(~mask, wcs); true = mask_ref(pos, ~mask)
		with ctx.case("large", geometry=name, pattern=pat):
			for method in ("cellgrid","bubble"):
				ref = np.asarray(enmap.distance_transform(m, method=method)); vmask(ctx, ref, true, False, tol, method)
				if GOMP is not None and method == "cellgrid":
					for nt in (2,3,5):
						GOMP.omp_set_num_threads(nt)
						try: d = np.asarray(enmap.distance_transform(m, method=method)); d2 = np.asarray(enmap.distance_transform(m, method=method, rmax=5*tol))
						finally: GOMP.omp_set_num_threads(1)
						vmask(ctx, d, true, False, tol, "%d threads" % nt); vmask(ctx, d2, np.minimum(true,5*tol), False, tol, "%d threads limited" % nt)
				for r in (3.3*tol, 11.7*tol): vmask(ctx, np.asarray(enmap.distance_transform(m, rmax=r, method=method)), np.minimum(true,r), False, tol, method+" limited")

def unit_empty(ctx, items):
	shape, wcs = G.alphabet()["car"]
	with ctx.case("no points"):
		for rmax in (None, 0.3):
			for method in ("cellgrid","bubble","simple"):
				d, dom = enmap.distance_from(shape, wcs, np.zeros((2,0)), domains=True, rmax=rmax, method=method); ctx.check(np.all(np.asarray(d) == (np.inf if rmax is None else rmax)) and np.all(np.asarray(dom) == -1), "no points")
	with ctx.case("leading axes"):
		pos = G.ref_pix2sky(wcs, G.pixgrid(shape)); m = np.ones((2,3)+shape,bool)
		for i in range(6): m.reshape((6,)+shape)[i].flat[i*5%35] = False
		d = np.asarray(enmap.distance_transform(enmap.ndmap(m, wcs)))
		for i in range(6): ctx.close(d.reshape((6,)+shape)[i], mask_ref(pos, m.reshape((6,)+shape)[i]), 0, 1e-9, "each map separately")
		om = enmap.full((2,3)+shape, wcs, 5.0); r = enmap.distance_transform(enmap.ndmap(m, wcs), omap=om); ctx.eq(np.asarray(om), d, "buffer"); ctx.check(np.shares_memory(r,om), "buffer returned")

def units(tier):
	q = tier == "quick"; U = []
	P = []
	for name in G.alphabet():
		shape, wcs, pos, tol = gsetup(name); n = len(cands(shape,pos))
		P += [(name,(i,)) for i in range(n)]
		two = list(itertools.combinations(range(n),2)); three = list(itertools.combinations(range(n),3))
		P += [(name,i) for i in (two[::3] if q else two)] + [(name,i) for i in (three[::29] if q else three[::5])] + [(name,tuple(range(n)))]
	U += chunked("points", P, unit_points, 16 if q else 32)
	full = list(range(4096))
	M = [("car",(3,4),b) for b in np.array_split(full if not q else full[::5], 8)] + [("car_full",(3,4),b) for b in np.array_split(full[::11] if q else full,4)] + [(g,(3,4),full[::31 if q else 3]) for g in ("tan","arc","cea")] + [("car",(1,5),range(32)),("car",(5,1),range(32)),("tan",(2,3),range(64)),("car_full",(2,4),range(256))]
	M = [(g,s,[int(v) for v in b]) for g,s,b in M if s[0] > 1 and s[1] > 1]
	U += chunked("masks", M, unit_masks, len(M))
	B = []
	for g in ("car_full","car_fej","zea","arc","car_off"):
		s = G.alphabet()[g][0]; n = s[0]*s[1]; two = list(itertools.combinations(range(n),2))
		B += [(g,(i,)) for i in range(n)] + [(g,p) for p in two[::17 if q else 2]]
	U += chunked("mask pairs", B, unit_bigmask, 12 if q else 24)
	L = [("car",(3,3),c) for c in range(0,3**9,101 if q else 7)] + [("car_full",(3,3),c) for c in range(0,3**9,307 if q else 23)] + [("tan",(3,3),c) for c in range(0,3**9,503 if q else 37)]
	U += chunked("labels", L, unit_labels, 8)
	H = []
	for ns in (1,2,4) + (() if q else (8,)):
		npix = 12*ns*ns; H.append((ns,"info",()))
		H += [(ns,"points",i) for k in (1,2) for i in itertools.combinations(range(20),k)]
		H += [(ns,"mask",i) for i in itertools.combinations(range(0,npix,1 if ns < 4 else 5),2)][::(3 if q else 1)] + [(ns,"mask",(i,)) for i in range(npix)] + [(ns,"inv",(i,)) for i in range(npix)] + [(ns,"mask",()),(ns,"inv",())]
	U += chunked("healpix", H, unit_hp, 12)
	U += chunked("large", [(g,p) for g in ("car","car_full","tan","arc") for p in ("pt","two","line","ring","dots","blob","edge","half")], unit_large, 8)
	U += [("empty", unit_empty, [0])]
	return U
