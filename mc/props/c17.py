"""C17: source simulation and radial binning against brute force."""
import numpy as np, itertools, ctypes
from pixell import enmap, pointsrcs, srcsim, utils
from .. import geo as G
from ..core import chunked

RULE   = "every geometry x object position on a grid over the whole sky (poles, seam, outside the map) x profile x limits, every ordering and combination of small object sets x operation x cell size x thread count; oracle: brute-force evaluation of every profile in every pixel in double precision"
BOUNDS = "13 geometries of up to 24x36 pixels; positions: 7x13 grid of the sky plus the map's pixels, corners and surroundings; 5 profiles (smooth, coarse, sign-changing, starting off zero, zero in the centre); up to 24 objects, 3 components; cell sizes 1..64; 1..4 threads"
ASSUME = ["the legacy python method of sim_srcs uses a flat-sky search grid with an approximate pixel size: it is only claimed for patches away from the poles and within 3/4 of the requested radius; sim_objects with separable=False on a cylindrical map only for objects inside it", "parts of an object below vmin, and parts beyond rmax, may or may not be painted", "positions have |ra| <= 2 pi", "single precision: values must agree to 1e-5 of the amplitude plus the profile's change over 1e-6 rad"]

d = G.deg
try: GOMP = ctypes.CDLL("libgomp.so.1")
except OSError: GOMP = None
def geoms():
	g = {}
	g["full"]  = ((19,36), G.mkwcs("CAR",[0,0],[-10,10],[18.5,10]))
	g["fej"]   = ((18,36), G.mkwcs("CAR",[5,0],[-10,10],[18,9.5]))
	g["full+"] = ((19,36), G.mkwcs("CAR",[180,0],[10,-10],[18,10]))
	g["patch"] = ((20,24), G.mkwcs("CAR",[180,0],[-1,1],[12,-20]))
	g["wide"]  = ((14,30), G.mkwcs("CAR",[150,0],[10,5],[15.5,7]))
	g["pole"]  = ((17,24), G.mkwcs("CAR",[0,0],[-15,2],[12.5,-28]))
	g["thin"]  = ((3,22),  G.mkwcs("CAR",[0,0],[-2,2],[1,1]))
	g["cea"]   = ((16,18), G.mkwcs("CEA",[40,0],[-3,3],[9,8.5],[(2,1,1.0)]))
	g["mer"]   = ((16,18), G.mkwcs("MER",[-20,0],[-4,4],[9,8.5]))
	g["tan"]   = ((18,20), G.mkwcs("TAN",[50,30],[-1,1],[10,9.5]))
	g["zea"]   = ((18,17), G.mkwcs("ZEA",[50,-89],[-2,2],[9,8.5]))
	g["arc"]   = ((17,20), G.mkwcs("ARC",[0,90],[-2,2],[10,9]))
	g["stg"]   = ((16,18), G.mkwcs("STG",[350,-45],[2,2],[9,8]))
	return g
def angd(a, b):
	va, vb = G.unitvec(a), G.unitvec(b)
	return np.arctan2(np.sqrt(np.sum(np.cross(va,vb,axis=0)**2,0)), np.sum(va*vb,0))
def pixsize(wcs): return np.max(np.abs(wcs.wcs.cdelt))*d
def prof(kind, s):
	if kind == "gauss":  r = np.linspace(0,5*s,101); return np.array([r,np.exp(-0.5*(r/s)**2)])
	if kind == "coarse": return np.array([[0,s,3*s,3.5*s],[1,0.5,0.2,0.1]])
	if kind == "coarse_equi": return np.array([[0,s,2*s,3*s],[1,0.5,0.2,0.02]])
	if kind == "ring":   r = np.linspace(0,4*s,81); return np.array([r,np.sin(r/s*np.pi/2)*np.exp(-r/s)])
	if kind == "offset": return np.array([[0.5*s,s,2.5*s],[1,-0.5,0.3]])
PROFS = ("gauss","coarse","coarse_equi","ring","offset")
CYL = ("full","fej","full+","patch","wide","pole","thin","cea","mer")
def pixof(wcs, poss): return wcs.wcs_world2pix(poss[::-1].T/d, 0).T[::-1]
def evalp(p, r):
	"""value and tolerance"""
	v = np.interp(r, p[0], p[1]); v = np.where(r >= p[0,-1], 0, v)
	grad = np.max(np.abs(np.diff(p[1])/np.diff(p[0])))
	tol = np.full(r.shape, grad*2e-6) + 2e-6*np.max(np.abs(p[1]))
	tol = np.where(np.abs(r-p[0,-1]) < 3e-6, abs(p[1,-1])*1.01+tol, tol)   # at the very end of the table the profile jumps to 0
	return v, tol
def outer(p, vrel):
	"""the largest radius where |profile| >= vrel"""
	rr = np.concatenate([np.linspace(a,b,60) for a,b in zip(p[0,:-1],p[0,1:])])
	v = np.abs(np.interp(rr, p[0], p[1])); ok = np.where(v > vrel*(1+1e-5))[0]
	return rr[ok[-1]] if len(ok) else -1.0
def reference(pos, poss, amps, profs, pids, vmin, rmax):
	"""-> contributions [nobj,ncomp,ny,nx], tolerances, mandatory [nobj,ny,nx]"""
	C, T, M = [], [], []
	for i in range(poss.shape[1]):
		p = profs[pids[i]]
		r = angd(pos, poss[:,i,None,None]+np.zeros(pos.shape))
		v, t = evalp(p, r)
		am = np.max(np.abs(amps[:,i]))
		ro = outer(p, vmin/am) if am > 0 else -1.0
		if rmax: ro = min(ro, rmax)
		C.append(amps[:,i,None,None]*v); T.append(np.abs(amps[:,i,None,None])*(t+1e-5*np.abs(v))); M.append(r < ro-2e-6)
	return np.array(C), np.array(T), np.array(M)
def bounds(base, C, T, M, op):
	"""lowest and highest allowed value of every pixel"""
	M = M[:,None]
	if op == "add":
		lo = base + np.sum(np.where(M,C,np.minimum(C,0)),0); hi = base + np.sum(np.where(M,C,np.maximum(C,0)),0)
	elif op == "max":
		lo = np.maximum(base, np.max(np.where(M,C,-np.inf),0)); hi = np.maximum(base, np.max(C,0))
	else:
		hi = np.minimum(base, np.min(np.where(M,C,np.inf),0)); lo = np.minimum(base, np.min(C,0))
	t = np.sum(T,0)+1e-6*np.abs(base)
	return lo-t, hi+t
def inside(ctx, m, lo, hi, lab):
	m = np.asarray(m, float); ctx.see(m)
	bad = ~((m >= lo) & (m <= hi))
	if np.any(bad):
		i = tuple(np.argwhere(bad)[0])
		ctx.check(False, "%s: %d pixels outside their allowed range, e.g. pixel %s is %.8g, should be in [%.8g,%.8g]" % (lab, np.sum(bad), i, m[i], lo[i], hi[i]))
	ctx.check(True, lab)

def positions(shape, wcs):
	P = [(dec*d, ra*d) for dec in (-90,-75,-47,-13,5,38,70,90) for ra in (-180,-151,-100,-55,-31,0,17,49,88,110,150,175,180,350)]
	ny, nx = shape
	pix = [(y,x) for y in (-3,-0.5,0,ny/2,ny-1,ny-0.3,ny+2.4) for x in (-3,-0.5,0,nx/2+0.3,nx-1,nx-0.3,nx+2.4)]
	q = G.ref_pix2sky(wcs, np.array(pix).T)
	ok = np.all(np.isfinite(q),0)
	return P + [(a,b) for a,b in q[:,ok].T if abs(a) <= np.pi/2]

def unit_single(ctx, items):
	for name, kind, scale, rlim in items:
		shape, wcs = geoms()[name]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape))
		p = prof(kind, scale*pixsize(wcs))
		for pi, pp in enumerate(positions(shape, wcs)):
			poss = np.array(pp)[:,None]
			with ctx.case("single object", geometry=name, profile=kind, scale=scale, rmax=rlim, dec=poss[0,0]/d, ra=poss[1,0]/d):
				amps = np.array([[-2.5]]) if pi % 2 else np.array([[3.0]])
				rmax = rlim*p[0,-1] if rlim else None
				for vmin in (0, 0.3):
					C, T, M = reference(pos, poss, amps, [p], [0], vmin, rmax)
					m = pointsrcs.sim_objects(shape, wcs, poss, amps[0], p, vmin=vmin, rmax=rmax)
					ctx.check(m.shape == shape and m.dtype == np.float32 and isinstance(m, enmap.ndmap), "type of the result")
					lo, hi = bounds(0, C, T, M, "add"); inside(ctx, m, lo[0], hi[0], "vmin %g" % vmin)
				if name in CYL and not np.all((pixof(wcs,poss)[:,0] > -1) & (pixof(wcs,poss)[:,0] < shape)): continue
				m = pointsrcs.sim_objects(shape, wcs, poss, amps[0], p, vmin=0, rmax=rmax, separable=False)
				C, T, M = reference(pos, poss, amps, [p], [0], 0, rmax)
				lo, hi = bounds(0, C, T, M, "add"); inside(ctx, m, lo[0], hi[0], "non-separable coordinates")

def unit_radial(ctx, items):
	for name, ei in items:
		shape, wcs = geoms()[name]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape)); ps = pixsize(wcs)
		edges = [np.linspace(0,6,5)*ps, np.array([0,1,1.5,6])*ps, np.array([0.7,2,5.2])*ps, np.linspace(0,3,3)*ps][ei].astype(np.float32)
		PP = positions(shape, wcs)
		poss = np.array(PP).T
		map = enmap.enmap(G.ramp((2,)+shape, np.float32)%13+1, wcs)
		R = np.array([angd(pos, poss[:,i,None,None]+np.zeros(pos.shape)) for i in range(len(PP))])
		def ref(m):
			lo = np.zeros((len(PP),len(m),len(edges)-1)); hi = lo.copy()
			for b in range(len(edges)-1):
				sure = (R >= edges[b]+2e-6) & (R < edges[b+1]-2e-6); may = (R >= edges[b]-2e-6) & (R < edges[b+1]+2e-6)
				lo[:,:,b] = np.einsum("oyx,cyx->oc", sure, m); hi[:,:,b] = np.einsum("oyx,cyx->oc", may, m)
			return lo, hi
		lo, hi = ref(np.asarray(map,float))
		for sep in ("auto",) if name in CYL else ("auto", False):
			with ctx.case("radial_sum", geometry=name, edges=edges, separable=sep):
				o = pointsrcs.radial_sum(map, poss, edges, separable=sep)
				ctx.check(o.shape == lo.shape and o.dtype == np.float32, "shape")
				bad = ~((o >= lo-1e-2) & (o <= hi+1e-2)); ctx.see(o)
				if np.any(bad):
					i = tuple(np.argwhere(bad)[0]); ctx.check(False, "object at dec %g ra %g, component %d, bin %d: sum is %g, should be in [%g,%g]; %d wrong" % (poss[0,i[0]]/d, poss[1,i[0]]/d, i[1], i[2], o[i], lo[i], hi[i], np.sum(bad)))
				ctx.check(True, "radial_sum")
				buf = np.ones(lo.shape, np.float32); o2 = pointsrcs.radial_sum(map, poss, edges, oprofs=buf, separable=sep)
				ctx.check(o2 is buf, "buffer returned"); ctx.close(buf, o+1, 1e-5, 1e-3, "added to the buffer")
				ctx.eq(pointsrcs.radial_sum(map[0], poss, edges, separable=sep), o[:,0], "one component")
			with ctx.case("radial_bin", geometry=name, edges=edges, separable=sep):
				w = enmap.enmap((G.ramp(shape, np.float32)%5)+1, wcs)
				with np.errstate(all="ignore"):
					o = pointsrcs.radial_sum(map, poss, edges, separable=sep); n = pointsrcs.radial_sum(map[0]*0+1, poss, edges, separable=sep)
					a = pointsrcs.radial_bin(map, poss, edges, separable=sep)
					ctx.close(np.nan_to_num(a), np.nan_to_num(o/n[:,None]), 1e-5, 0, "mean")
					a = pointsrcs.radial_bin(map, poss, edges, weights=w, separable=sep)
					ow = pointsrcs.radial_sum(map*w, poss, edges, separable=sep); nw = pointsrcs.radial_sum(w, poss, edges, separable=sep)
					ctx.close(np.nan_to_num(a), np.nan_to_num(ow/nw[:,None]), 1e-5, 0, "weighted mean")

def catalog(shape, wcs, n, seed):
	PP = positions(shape, wcs); k = len(PP)
	idx = [(seed*31 + i*37) % k for i in range(n)]
	return np.array([PP[i] for i in idx]).T
def unit_multi(ctx, items):
	for name, n, ci in items:
		shape, wcs = geoms()[name]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape)); ps = pixsize(wcs)
		profs = [prof("gauss",1.5*ps), prof("ring",2*ps), prof("coarse",ps)]
		poss = catalog(shape, wcs, n, ci)
		amps = ((np.arange(3*n).reshape(3,n)*7)%11-5).astype(float)
		amps[0] = np.abs(amps[0])+1
		pids = np.arange(n)%3
		if n > 30: pids = pids*0
		base = (G.ramp((3,)+shape)%7-3)
		for vmin in (0, 0.02, 1.0):
			C, T, M = reference(pos, poss, amps, profs, pids, vmin, 0)
			for op in ("add","max","min"):
				with ctx.case("many objects", geometry=name, n=n, catalog=ci, op=op, vmin=vmin):
					lo0, hi0 = bounds(np.zeros((3,)+shape), C, T, M, op); lo, hi = bounds(base, C, T, M, op)
					m = pointsrcs.sim_objects(shape, wcs, poss, amps, profs, prof_ids=pids, vmin=vmin, op=op)
					inside(ctx, m, lo0, hi0, "fresh map")
					om = enmap.enmap(base.astype(np.float32), wcs)
					r = pointsrcs.sim_objects(shape, wcs, poss, amps, profs, prof_ids=pids, vmin=vmin, op=op, omap=om)
					inside(ctx, r, lo, hi, "existing map"); ctx.eq(np.asarray(om), np.asarray(r), "the supplied map is updated")
					o = np.arange(n)[::-1] if ci % 2 else np.roll(np.arange(n),n//2)
					m = pointsrcs.sim_objects(shape, wcs, poss[:,o], amps[:,o], profs, prof_ids=pids[o], vmin=vmin, op=op)
					inside(ctx, m, lo0, hi0, "other object order")
					m = pointsrcs.sim_objects(shape, wcs, poss, amps[0], profs[0], vmin=vmin, op=op)
					C1, T1, M1 = reference(pos, poss, amps[:1], profs, pids*0, vmin, 0)
					a, b = bounds(np.zeros((1,)+shape), C1, T1, M1, op); inside(ctx, m, a[0], b[0], "scalar map, one profile")
		C, T, M = reference(pos, poss, amps, profs, pids, 0.02, 0); lo0, hi0 = bounds(np.zeros((3,)+shape), C, T, M, "add")
		od, ora = np.ascontiguousarray(poss.astype(np.float32)); oy, ox = np.ascontiguousarray(utils.nint(enmap.sky2pix(shape, wcs, poss)).astype(np.int32))
		pm = [np.ascontiguousarray(a) for a in ((pos[0,:,0],pos[1,0]) if name in CYL else pos)]
		for cs in (1,2,3,5,8,64):
			for nt in (1,3):
				with ctx.case("cell size and threads", geometry=name, n=n, catalog=ci, csize=cs, threads=nt):
					if GOMP: GOMP.omp_set_num_threads(nt)
					try:
						for op in ("add","max"):
							om = np.zeros((3,)+shape, np.float32)
							srcsim.sim_objects(om, od, ora, oy, ox, np.ascontiguousarray(amps.astype(np.float32)), [p.astype(np.float32) for p in profs], pids.astype(np.int32), pm, 0.02, csize=cs, op=op, separable=name in CYL)
							a, b = bounds(np.zeros((3,)+shape), C, T, M, op); inside(ctx, om, a, b, "op %s" % op)
					finally:
						if GOMP: GOMP.omp_set_num_threads(1)
		with ctx.case("transpose", geometry=name, n=n, catalog=ci):
			C, T, M = reference(pos, poss, np.ones((1,n)), profs, pids, 0, 0)
			src = enmap.enmap(base.astype(np.float32), wcs); keep = np.array(src)
			a = np.zeros((3,n), np.float32)
			pointsrcs.sim_objects(shape, wcs, poss, a, profs, prof_ids=pids, vmin=0, omap=src, transpose=True)
			want = np.einsum("oyx,cyx->co", C[:,0], base); tol = np.einsum("oyx,cyx->co", T[:,0], np.abs(base))+1e-4
			ctx.check(np.all(np.abs(a-want) <= tol), "adjoint: off by %g" % np.max(np.abs(a-want)), a); ctx.eq(np.asarray(src), keep, "map untouched")

def unit_srcs(ctx, items):
	"""the catalogue interface, in its two implementations"""
	for name, n, ci, method in items:
		shape, wcs = geoms()[name]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape)); ps = pixsize(wcs)
		poss = catalog(shape, wcs, n, ci); amps = ((np.arange(3*n).reshape(3,n)*7)%11-5).astype(float); amps[0] = np.abs(amps[0])+1
		srcs = np.concatenate([poss, amps]).T
		sig = 1.2*ps
		for beam, bref in ((sig, None), (prof("gauss",sig), prof("gauss",sig)), (prof("ring",sig), prof("ring",sig)))[:2 if method == "python" else 3]:
			for ncomp in (0,1,3):
				with ctx.case("sim_srcs", geometry=name, n=n, catalog=ci, method=method, beam=np.shape(beam), comps=ncomp):
					pre = (ncomp,) if ncomp else ()
					nc = max(ncomp,1)
					if bref is None: r = np.linspace(0,5*sig,2000); p = np.array([r,np.exp(-0.5*(r/sig)**2)])
					else: p = bref
					vrel = np.exp(-0.5*5**2)
					for op in (np.add, np.maximum, np.minimum) if method == "python" else (np.add, "max", "min", np.maximum, np.minimum):
						nm = {np.add:"add",np.maximum:"max",np.minimum:"min"}.get(op, op)
						kw = {"dtype":np.float64} if method == "python" else {}
						m = pointsrcs.sim_srcs(pre+shape, wcs, srcs, beam, op=op, method=method, **kw)
						ctx.check(m.shape == pre+shape and m.dtype == (np.float64 if method == "python" else np.float32), "shape and type")
						# vmin is relative to the amplitude in the python version
						C, T, M = reference(pos, poss, amps[:nc], [p], [0]*n, vrel*np.max(np.abs(amps[:nc]))*1.01, 0)
						lo, hi = bounds(np.zeros((nc,)+shape), C, T+1e-3*np.max(np.abs(amps))*vrel, M, nm)
						inside(ctx, np.asarray(m).reshape((nc,)+shape), lo, hi, "op %s" % nm)
					om = enmap.enmap(np.full(pre+shape,2.0,np.float64 if method == "python" else np.float32), wcs)
					r = pointsrcs.sim_srcs(pre+shape, wcs, srcs, beam, omap=om, method=method)
					C, T, M = reference(pos, poss, amps[:nc], [p], [0]*n, vrel*np.max(np.abs(amps[:nc]))*1.01, 0)
					lo, hi = bounds(np.full((nc,)+shape,2.0), C, T+1e-3*np.max(np.abs(amps))*vrel, M, "add")
					inside(ctx, np.asarray(om).reshape((nc,)+shape), lo, hi, "existing map")

def unit_opts(ctx, items):
	"""tuning options of the object interface must not change the result, and those that should must do what they say"""
	for name, n, ci in items:
		shape, wcs = geoms()[name]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape)); ps = pixsize(wcs)
		poss = catalog(shape, wcs, n, ci); amps = ((np.arange(3*n).reshape(3,n)*7)%11-5).astype(float); amps[0] = np.abs(amps[0])+1; amps[amps == 0] = 0.5
		for kind in PROFS:
			p = prof(kind, 1.5*ps)
			C, T, M = reference(pos, poss, amps, [p], [0]*n, 1e-3*np.min(np.abs(amps))*1.0001, 0); lo, hi = bounds(np.zeros((3,)+shape), C, T, M, "add")
			with ctx.case("options", geometry=name, n=n, catalog=ci, profile=kind):
				m = pointsrcs.sim_objects(shape, wcs, poss, amps, p); inside(ctx, m, lo, hi, "default limit")
				inside(ctx, pointsrcs.sim_objects((5,)+shape, wcs, list(poss), amps.tolist(), p.tolist()), lo, hi, "lists")
				inside(ctx, pointsrcs.sim_objects(shape, wcs, poss, amps, p, prof_equi=False), lo, hi, "general profile lookup")
				if kind in ("gauss","coarse_equi","ring"): inside(ctx, pointsrcs.sim_objects(shape, wcs, poss, amps, p, prof_equi=True), lo, hi, "equispaced profile lookup")
				r, t = pointsrcs.sim_objects(shape, wcs, poss, amps, p, return_times=True); inside(ctx, r, lo, hi, "with times")
				cache = {"x":1}
				for k in range(3): inside(ctx, pointsrcs.sim_objects(shape, wcs, poss, amps, p, cache=cache), lo, hi, "cached coordinates, use %d" % k)
				r = pointsrcs.sim_objects(shape, wcs, poss, amps.reshape(3,1,n), p); ctx.check(r.shape == (3,1)+shape, "two leading dimensions"); inside(ctx, r[:,0], lo, hi, "two leading dimensions")
				om = enmap.zeros((1,3)+shape, wcs, np.float32); r = pointsrcs.sim_objects(shape, wcs, poss, amps[None], p, omap=om); inside(ctx, om[0], lo, hi, "supplied map with two leading dimensions")
				for order in (0,1):
					r = pointsrcs.sim_objects(shape, wcs, poss, amps, p, pixwin=True, pixwin_order=order); ctx.close(np.asarray(r), np.asarray(enmap.apply_window(m, order=order)), 1e-4, 1e-4, "pixel window of order %d" % order)
			edges = (p[0] if kind == "coarse_equi" else np.array([0,0.5,2,3])*ps).astype(np.float32)
			if kind in ("coarse","coarse_equi"):
				with ctx.case("radial options", geometry=name, n=n, catalog=ci, edges=edges):
					mm = enmap.enmap(G.ramp((2,2)+shape, np.float32)%13+1, wcs); a = pointsrcs.radial_sum(mm, poss, edges); ctx.check(a.shape == (n,2,2,len(edges)-1), "two leading dimensions")
					for i, j in itertools.product(range(2), range(2)): ctx.eq(pointsrcs.radial_sum(mm[i,j], poss, edges), a[:,i,j], "each component by itself")
					cache = {"x":1}
					for k in range(3): ctx.eq(pointsrcs.radial_sum(mm, poss, edges, cache=cache), a, "cached coordinates")
					if kind == "coarse_equi": ctx.close(np.sum(pointsrcs.radial_sum(mm, poss, edges, prof_equi=False),-1), np.sum(a,-1), 1e-4, 14, "general bin lookup")
					r, t = pointsrcs.radial_sum(mm, poss, edges, return_times=True); ctx.eq(r, a, "with times"); ctx.eq(pointsrcs.radial_sum(mm, poss, edges.tolist()), a, "list of edges")
					w = enmap.enmap((G.ramp(shape, np.float32)%5)+1, wcs)
					with np.errstate(all="ignore"):
						b = pointsrcs.radial_bin(mm, poss, edges, weights=w); ctx.check(b.shape == a.shape, "binned shape")
						for i, j in itertools.product(range(2), range(2)): ctx.close(np.nan_to_num(b[:,i,j]), np.nan_to_num(pointsrcs.radial_bin(mm[i,j], poss, edges, weights=w)), 1e-5, 0, "binned, each component by itself")
						r, t = pointsrcs.radial_bin(mm, poss, edges, weights=w, return_times=True, cache={"x":1}); ctx.close(np.nan_to_num(r), np.nan_to_num(b), 1e-6, 0, "binned with times")
def unit_sopts(ctx, items):
	"""options of the catalogue interface"""
	for name, n, ci, method in items:
		shape, wcs = geoms()[name]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape)); ps = pixsize(wcs)
		poss = catalog(shape, wcs, n, ci); amps = ((np.arange(3*n).reshape(3,n)*7)%11-5).astype(float); amps[0] = np.abs(amps[0])+1; A = np.max(np.abs(amps))
		srcs = np.concatenate([poss, amps]).T; keep = srcs.copy(); sig = 1.2*ps; kw0 = {"dtype":np.float64} if method == "python" else {}
		def gauss(rmax): r = np.linspace(0,rmax,2000); return np.array([r,np.exp(-0.5*(r/sig)**2)])
		def verify(m, rb, vmin, rmax, lab, base=0, mul=1):
			C, T, M = reference(pos, poss, amps*mul, [gauss(rb)], [0]*n, vmin, rmax); T += 1e-4*A*np.exp(-0.5*(rb/sig)**2)+2e-5*A
			if method == "python": M = reference(pos, poss, amps*mul, [gauss(rb)], [0]*n, vmin, 0.75*min(rb, rmax or np.inf))[2]   # the radius is turned into pixels approximately
			lo, hi = bounds(np.full((3,)+shape,float(base)), C, T, M, "add"); inside(ctx, m, lo, hi, lab)
		with ctx.case("sim_srcs options", geometry=name, n=n, catalog=ci, method=method):
			kw = dict(kw0, method=method)
			for nsigma in (3,4,4.5,5,6): verify(pointsrcs.sim_srcs((3,)+shape, wcs, srcs, sig, nsigma=nsigma, **kw), nsigma*sig, np.exp(-0.5*nsigma**2)*A*1.01, 0, "nsigma %g" % nsigma)
			for rm in (2*sig,3.3*sig): verify(pointsrcs.sim_srcs((3,)+shape, wcs, srcs, sig, rmax=rm, **kw), rm, np.exp(-0.5*5**2)*A*1.01, rm, "rmax %g" % rm); verify(pointsrcs.sim_srcs((3,)+shape, wcs, srcs, gauss(5*sig), rmax=rm, **kw), 5*sig, np.exp(-0.5*5**2)*A*1.01, rm, "tabulated beam, rmax %g" % rm)
			if method == "c":
				for v in (0,0.01,0.5): verify(pointsrcs.sim_srcs((3,)+shape, wcs, srcs, gauss(5*sig), vmin=v, **kw), 5*sig, v, 0, "vmin %g" % v)
				ctx.raises(lambda: pointsrcs.sim_srcs(shape, wcs, srcs, sig, smul=2), AssertionError, "smul"); ctx.raises(lambda: pointsrcs.sim_srcs(shape, wcs, srcs, sig, dtype=np.float64), AssertionError, "dtype")
				ctx.raises(lambda: pointsrcs.sim_srcs(shape, wcs, srcs, sig, op=np.subtract), ValueError, "op"); ctx.raises(lambda: pointsrcs.sim_srcs(shape, wcs, srcs, sig, return_padded=True), ValueError, "padding")
				cache = {"x":1}
			else:
				v = np.exp(-0.5*25)*A*1.01
				verify(pointsrcs.sim_srcs((3,)+shape, wcs, srcs, sig, smul=-2.5, **kw), 5*sig, 2.5*v, 0, "smul", mul=-2.5)
				om = enmap.full((3,)+shape, wcs, 4.0); r = pointsrcs.sim_srcs((3,)+shape, wcs, srcs, sig, omap=om, smul=0.5, method=method); verify(om, 5*sig, v, 0, "smul into a map", base=4, mul=0.5); ctx.eq(np.asarray(r), np.asarray(om), "the supplied map is returned")
				r, sel = pointsrcs.sim_srcs((3,)+shape, wcs, srcs, sig, return_padded=True, **kw); verify(r[(Ellipsis,)+tuple(sel[-2:])], 5*sig, v, 0, "padded"); ctx.check(r.shape[-2] > shape[0] and r.shape[-1] > shape[1], "padding is returned")
				m4 = pointsrcs.sim_srcs((3,)+shape, wcs, srcs, sig, dtype=np.float32, method=method); ctx.check(m4.dtype == np.float32, "dtype"); verify(m4, 5*sig, v, 0, "single precision")
				cache = [None]
			for k in range(3): verify(pointsrcs.sim_srcs((3,)+shape, wcs, srcs, sig, cache=cache, **kw), 5*sig, np.exp(-0.5*25)*A*1.01, 0, "cached, use %d" % k)
			if method == "python": verify(pointsrcs.sim_srcs((3,)+shape, wcs, srcs, sig, separable=False, **kw), 5*sig, np.exp(-0.5*25)*A*1.01, 0, "non-separable coordinates")
			# more components in the map than in the catalogue, and fewer
			r = pointsrcs.sim_srcs((3,)+shape, wcs, srcs[:,:3], sig, **kw) if method == "c" else None
			if r is not None: ctx.check(not np.any(np.asarray(r[1:])), "missing components are empty"); ctx.eq(np.asarray(r[0]), np.asarray(pointsrcs.sim_srcs(shape, wcs, srcs[:,:3], sig, **kw)), "first component")
			ctx.eq(srcs, keep, "catalogue unchanged")

def unit_match(ctx, items):
	"""cross-matching and cells"""
	for ci, n1, n2, tol in items:
		with ctx.case("crossmatch", ci=ci, n1=n1, n2=n2, tol=tol):
			def cat(n, s):
				dec = ((np.arange(n)*37+s*11)%17-8)/8*np.pi/2; ra = ((np.arange(n)*53+s*29)%23)/23*2*np.pi-np.pi*(ci%2)
				return np.array([ra,dec]).T
			a = cat(n1, ci); b = np.concatenate([cat(n2, ci+3), a[:n1//2]+[tol*0.3,tol*0.2]]) if n1 > 1 else cat(n2,ci+3)
			b[:,1] = np.clip(b[:,1],-np.pi/2,np.pi/2)
			D = np.array([[angd(x[::-1],y[::-1]) for y in b] for x in a])
			m = np.asarray(pointsrcs.crossmatch(a, b, tol=tol)).reshape(-1,2)
			best = np.argmin(D,1)
			got = dict(m.tolist())
			ctx.check(len(got) == len(m), "one match per source")
			for i in range(n1):
				dm = D[i,best[i]]
				if abs(dm-tol) < 1e-9: continue
				ctx.check((i in got) == (dm < tol), "source %d at %g from its nearest" % (i, dm), dm)
				if i in got: ctx.check(D[i,got[i]] < dm+1e-9, "nearest chosen")
	for shape, res in [((6,8),(2,3)),((7,9),(2,2)),((5,5),(5,5)),((4,6),(1,2))]:
		with ctx.case("cellify", shape=shape, res=res):
			m = G.ramp((2,)+shape); c = pointsrcs.cellify(m, res)
			ncy, ncx = shape[0]//res[0], shape[1]//res[1]
			for y in range(ncy):
				for x in range(ncx): ctx.eq(c[:,y,x], m[:,y*res[0]:(y+1)*res[0],x*res[1]:(x+1)*res[1]], "cell")
			ctx.eq(pointsrcs.uncellify(c), m[:,:ncy*res[0],:ncx*res[1]], "round trip")

def units(tier):
	q = tier == "quick"
	names = list(geoms()); u = []
	small = [n for n in names if n not in ("full+","stg")] if q else names
	u += chunked("single", [(n,k,s,r) for n in small for k in PROFS for s in ((1.0,2.5) if q else (0.6,1.0,2.5,4.0)) for r in ((None,) if q and k not in ("gauss","coarse") else (None,0.4))], unit_single, 4 if q else 8)
	u += chunked("radial", [(n,e) for n in names for e in range(4)], unit_radial, 8)
	u += chunked("multi", [(n,k,c) for n in names for k,cs in ((2,range(3 if q else 20)),(7,range(2 if q else 8)),(40,range(1 if q else 4))) for c in cs], unit_multi, 4)
	u += chunked("srcs", [(n,k,c,m) for n in names for k,c in (((1,0),(1,1),(6,2)) if q else [(1,i) for i in range(8)]+[(6,i) for i in range(4)]+[(30,0)]) for m in ("c","python") if m == "c" or n in ("patch","cea","mer","tan","stg")], unit_srcs, 6)
	u += chunked("options", [(n,k,c) for n in names for k,c in (((5,1),) if q else ((1,0),(5,1),(5,2),(12,3)))], unit_opts, 2)
	u += chunked("srcopts", [(n,k,c,m) for n in names for k,c in (((1,1),(6,2)) if q else [(1,i) for i in range(5)]+[(6,i) for i in range(3)]) for m in ("c","python") if m == "c" or n in ("patch","cea","tan","stg")], unit_sopts, 3)
	u += chunked("match", [(c,a,b,t) for c in range(4 if q else 12) for a in (1,3,8) for b in (1,4,9) for t in (1*d/60,5*d,40*d)], unit_match, 20)
	return u
