"""C01: indexing a map keeps the values numpy would keep, and the coordinate
system of the result describes exactly the kept pixels."""
import numpy as np, itertools, copy, pickle
from pixell import enmap, wcsutils
from ..geo import *
from ..core import chunked

RULE   = "every index expression built from the slice/int/None/Ellipsis/array/bool alphabet below, applied to every geometry of the alphabet, data compared with numpy indexing and pixel footprints compared with wcslib"
BOUNDS = "map sides <= 7; start/stop in [-n-2,n+2] or None; |step| <= 3; up to 2 leading axes; sequences of 2 slices"
ASSUME = ["astropy/wcslib computes reference sky coordinates", "map sides above the bound behave like those within it"]

def slices1d(n, full):
	vals  = [None] + list(range(-n-2, n+3))
	steps = [None,1,2,3,-1,-2,-3] if full else [None,2,-1,-2]
	for a in vals:
		for b in vals:
			for c in steps:
				yield slice(a,b,c)

def footprint_ok(ctx, shape, wcs, sel2, res, tag=""):
	"""res: resulting ndmap. Every output pixel must cover |step| input pixels beginning
	with the kept one, so its pixel edges are at known input pixel edges."""
	axes = []
	for s, n in zip(sel2, shape[-2:]):
		inds = np.arange(n)[s]
		step = s.step or 1
		axes.append((inds, step))
	ctx.eq(tuple(res.shape[-2:]), tuple(len(a[0]) for a in axes), tag+"shape")
	if 0 in res.shape[-2:]: return
	# Check the centre and two corners of every output pixel
	ny, nx = res.shape[-2:]
	yy, xx = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
	for fy, fx in ((0.0,0.0),(-0.5,-0.5),(0.5,0.5)):
		opix = np.array([yy+fy, xx+fx])
		# output offset f inside a pixel corresponds to input position
		# kept + sign*((|step|-1)/2) + f*step
		ipix = []
		for (inds, step), k, f in ((axes[0],yy,fy),(axes[1],xx,fx)):
			sgn = 1 if step > 0 else -1
			ipix.append(inds[k] + sgn*(abs(step)-1)/2 + f*step)
		want = ref_pix2sky(wcs, np.array(ipix))
		got  = ref_pix2sky(res.wcs, opix)
		ok = same_sky(got, want, 1e-7)
		ctx.see(want)
		if not np.all(ok): ctx.check(False, tag+"pixel footprint moved: got %s want %s" % (got[:,~ok][:,0]/deg, want[:,~ok][:,0]/deg))

def unit_slices(ctx, items):
	for gname, dim, full in items:
		shape, wcs = alphabet()[gname]
		m = enmap.ndmap(ramp(shape), wcs)
		for s in slices1d(shape[dim], full):
			sel2 = [slice(None),slice(None)]; sel2[dim] = s
			with ctx.case("slice", geo=gname, dim=dim, sel=s):
				res = m[tuple(sel2)] if dim == 1 else m[s]
				ctx.eq(np.asarray(res), np.asarray(m)[tuple(sel2)], "values")
				ctx.check(isinstance(res, enmap.ndmap), "result is a map")
				footprint_ok(ctx, shape, wcs, sel2, res)
				# Geometry-level slicing agrees with map-level slicing
				if res.size == 0:
					ctx.eq(tuple(enmap.slice_geometry(shape, wcs, tuple(sel2))[0]), res.shape, "empty geometry")
					continue
				gs, gw = enmap.slice_geometry(shape, wcs, tuple(sel2))
				ctx.eq(tuple(gs), res.shape, "geometry slicing gives the shape of the sliced map")
				footprint_ok(ctx, shape, wcs, sel2, enmap.ndmap(np.zeros(gs), gw), "geometry: ")
				ctx.eq(wcs_key(m.wcs), wcs_key(wcs), "original coordinates untouched")

def unit_slices2(ctx, items):
	"""both axes at once, with leading axes and ellipsis spellings"""
	one = [slice(None), slice(1,None), slice(None,-1), slice(None,None,-1), slice(1,4,2), slice(-2,None,-2), slice(-3,-1)]
	for gname, pre in items:
		shape, wcs = alphabet()[gname]
		m = enmap.ndmap(ramp(pre+shape), wcs)
		plain = np.asarray(m)
		pres = {0: [(), (Ellipsis,)], 1: [(Ellipsis,), (slice(None),), (1,), (-1,), (slice(None,None,-1),), ([1,0,0],), (np.array([True,False,True]),), (None,Ellipsis), (None, 1)],
			2: [(Ellipsis,), (1,), (1,0), (0,slice(None)), (slice(None),1), (slice(1,2),Ellipsis), (slice(None),None,0), (1,Ellipsis), ([0,1],[1,0])]}[len(pre)]
		for p in pres:
			for sy, sx in itertools.product(one, one):
				sel = p + (sy,sx)
				# partially specified leading axes without an ellipsis shift onto pixel axes: only use complete ones
				nspec = sum(1 for a in p if a is not None and a is not Ellipsis)
				if Ellipsis not in [a for a in p if not isinstance(a,(list,np.ndarray))] and nspec != len(pre): continue
				with ctx.case("slice2", geo=gname, pre=pre, sel=str(sel)):
					want = plain[sel]
					res  = m[sel]
					ctx.eq(np.asarray(res), want, "values")
					ctx.check(isinstance(res, enmap.ndmap), "result is a map")
					footprint_ok(ctx, shape, wcs, (sy,sx), res)
		# expressions that drop or do not touch pixel axes
		drops = [0, -1, (0,), (Ellipsis,0), (Ellipsis,0,slice(None)), (Ellipsis,slice(None),2), (Ellipsis,1,2), (Ellipsis,[0,2],[1,1]), (Ellipsis,[0,2],slice(None)), (Ellipsis,), ()]
		for sel in drops:
			with ctx.case("slice-drop", geo=gname, pre=pre, sel=str(sel)):
				want = plain[sel]
				got  = m[sel]
				ctx.eq(np.asarray(got), want, "values")
				if isinstance(got, enmap.ndmap) and got.ndim >= 2 and sel in (Ellipsis,(Ellipsis,),()):
					footprint_ok(ctx, shape, wcs, (slice(None),slice(None)), got)
				if isinstance(sel,int) and len(pre) > 0:
					ctx.check(isinstance(got, enmap.ndmap), "component selection is a map")
					footprint_ok(ctx, shape, wcs, (slice(None),slice(None)), got)
		with ctx.case("slice-mask", geo=gname, pre=pre):
			mask = plain % 3 == 0
			ctx.eq(np.asarray(m[mask]), plain[mask], "boolean map mask")
			m2 = m.copy(); m2[mask] = 0
			p2 = plain.copy(); p2[mask] = 0
			ctx.eq(np.asarray(m2), p2, "masked assignment")

def unit_chain(ctx, items):
	"""histories of two slices: the second starts from a non-initial state; views share data, not coordinates"""
	one = [slice(None), slice(1,None), slice(None,-1), slice(None,None,-1), slice(1,None,2), slice(-2,None,-2), slice(0,3)]
	for gname in items:
		shape, wcs = alphabet()[gname]
		for a, b in itertools.product(itertools.product(one,one), itertools.product(one,one)):
			m = enmap.ndmap(ramp(shape), wcs)
			p = np.asarray(m)
			with ctx.case("chain", geo=gname, first=str(a), second=str(b)):
				m1  = m[a]
				k1  = wcs_key(m1.wcs)
				m2  = m1[b]
				ctx.eq(np.asarray(m2), p[a][b], "values")
				ctx.eq(wcs_key(m1.wcs), k1, "slicing a view leaves the coordinates of the view alone")
				if m1.size and m2.size:
					footprint_ok(ctx, m1.shape, m1.wcs, b, m2, "second: ")
				ctx.eq(wcs_key(m.wcs), wcs_key(wcs), "original coordinates untouched")
				# writing through the view reaches exactly the kept pixels
				m2[...] = -1
				want = ramp(shape); want[a][b] = -1
				ctx.eq(np.asarray(m), want, "write through a view")

def unit_geoobj(ctx, items):
	one = [slice(None), slice(1,None), slice(None,-1), slice(None,None,-1), slice(1,4,2), slice(-2,None,-2), slice(-3,-1)]
	for gname in items:
		shape, wcs = alphabet()[gname]
		for pre in ((),(3,)):
			geo = enmap.Geometry(pre+shape, wcs)
			for sel in itertools.product(one, one):
				with ctx.case("geometry-object", geo=gname, pre=pre, sel=str(sel)):
					sub = geo[sel] if pre == () else geo[(Ellipsis,)+sel]
					ctx.eq(tuple(sub.shape), np.zeros(pre+shape)[(Ellipsis,)+sel].shape, "shape")
					footprint_ok(ctx, shape, wcs, sel, enmap.ndmap(np.zeros(sub.shape), sub.wcs))
			with ctx.case("geometry-object-misc", geo=gname, pre=pre):
				ctx.eq(geo.npix, shape[0]*shape[1], "npix")
				ctx.eq(tuple(geo.nopre.shape), shape, "nopre")
				ctx.eq(tuple(geo.with_pre((2,4)).shape), (2,4)+shape, "with_pre")
				s, w = geo
				ctx.eq(tuple(s), pre+shape, "unpacks as a pair")
				ctx.eq(wcs_key(w), wcs_key(wcs), "unpacks as a pair")

def unit_history(ctx, items):
	"""ufuncs, reductions, copies, pickling keep the coordinate system"""
	ops = {
		"copy":   (lambda m: m.copy(),          lambda a: a.copy()),
		"deepcopy": (lambda m: copy.deepcopy(m),lambda a: a.copy()),
		"pickle": (lambda m: pickle.loads(pickle.dumps(m)), lambda a: a),
		"add":    (lambda m: m+1,               lambda a: a+1),
		"rsub":   (lambda m: 3-m,               lambda a: 3-a),
		"mulself":(lambda m: m*m,               lambda a: a*a),
		"sin":    (lambda m: np.sin(m),         lambda a: np.sin(a)),
		"astype": (lambda m: m.astype(np.float32), lambda a: a.astype(np.float32)),
		"gt":     (lambda m: (m > 4)*1.0,       lambda a: (a > 4)*1.0),
		"sum0":   (lambda m: np.sum(m,0),       lambda a: np.sum(a,0)),
		"max0":   (lambda m: m.max(0),          lambda a: a.max(0)),
		"neg":    (lambda m: 0-m,                lambda a: 0-a),
		"flipy":  (lambda m: m[...,::-1,:],     lambda a: a[...,::-1,:]),
		"crop":   (lambda m: m[...,1:-1,1:],    lambda a: a[...,1:-1,1:]),
		"comp":   (lambda m: m[0],              lambda a: a[0]),
		"newax":  (lambda m: m[None],           lambda a: a[None]),
		"preflat":(lambda m: m.preflat,         lambda a: a.reshape((-1,)+a.shape[-2:])),
		"iadd":   (lambda m: m.__iadd__(1),     lambda a: a+1),
	}
	for gname in items:
		shape, wcs = alphabet()[gname]
		# model: array + pixel index arrays (yi,xi); footprint via the recorded affine map
		names = list(ops)
		for hist in itertools.product(names, names):
			with ctx.case("history", geo=gname, ops=list(hist)):
				m = enmap.ndmap(ramp((2,)+shape), wcs)
				a = ramp((2,)+shape)
				py = np.broadcast_to(np.arange(shape[0])[:,None], shape).astype(float)
				px = np.broadcast_to(np.arange(shape[1])[None,:], shape).astype(float)
				for h in hist:
					if h in ("comp","sum0","max0") and a.ndim == 2: break
					m = ops[h][0](m); a = ops[h][1](a)
					if h == "flipy": py, px = py[::-1], px[::-1]
					if h == "crop":  py, px = py[1:-1,1:], px[1:-1,1:]
					ctx.close(np.asarray(m), a, msg="values after "+h)
					ctx.check(isinstance(m, enmap.ndmap), "still a map after "+h)
					got  = ref_pix2sky(m.wcs, pixgrid(m.shape))
					want = ref_pix2sky(wcs, np.array([py,px]))
					ctx.see(want)
					if not np.all(same_sky(got,want,1e-7)): ctx.check(False, "coordinates wrong after "+h)

def units(tier):
	g = list(alphabet())
	full = tier == "thorough"
	quick_g = ["car","car_off","car_down","car_full","cea","tan","zea"]
	gl = g if full else quick_g
	out  = chunked("slices", [(n,d,full or n in ("car","car_down")) for n in gl for d in (0,1)], unit_slices, 14)
	out += chunked("slices2", [(n,p) for n in (g if full else ["car","car_full","tan"]) for p in ((),(3,),(2,2))], unit_slices2, 9)
	out += chunked("chain", g if full else ["car","car_full","tan"], unit_chain, 14)
	out += chunked("geoobj", gl, unit_geoobj, 4)
	out += chunked("history", g if full else ["car","car_down","tan"], unit_history, 4)
	return out
