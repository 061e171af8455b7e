"""C04: cutting out and pasting in regions moves every value with its sky position."""
import numpy as np, itertools
from pixell import enmap, wcsutils, utils
from ..geo import *
from ..core import chunked

RULE   = "regions of every size/stride/orientation placed at every offset around every geometry of the alphabet; reference: per-pixel index arithmetic with the sky's period"
BOUNDS = "map sides <= 14, region sides <= 6 (plus larger than the map), offsets to beyond one full turn, |stride| <= 3, three combining operations"
ASSUME = ["azimuthal geometries are not asked for pixels a full 360 degrees away"]

GEOS = {
	"full12":   ((5,12), mkwcs("CAR",[0,0],[-30,30],[6.5,3])),
	"full12up": ((5,12), mkwcs("CAR",[100,0],[30,-30],[4,3])),
	"wide":     ((3,14), mkwcs("CAR",[0,0],[-30,30],[6.5,2])),
	"part":     ((4,7),  mkwcs("CAR",[50,0],[-30,20],[2,3])),
	"tiny":     ((2,1),  mkwcs("CAR",[20,0],[40,-40],[1,1.5])),
	"smallpix": ((4,5),  mkwcs("CAR",[10,0],[-1,1],[150,30])),
	"cea":      ((4,8),  mkwcs("CEA",[0,0],[-45,20],[4.5,2.5],[(2,1,1.0)])),
	"tan":      ((4,5),  mkwcs("TAN",[50,30],[-1,1],[3,2.5])),
	"zea":      ((4,5),  mkwcs("ZEA",[50,-90],[-2,2],[3,2.5])),
}
def period(shape, wcs):
	n = int(round(360/abs(wcs.wcs.cdelt[0])))
	return n*((n+shape[-1]-1)//n)

def ref_index(shape, wcs, yi, xi, wrap="auto"):
	"""For integer pixel coordinates (possibly outside) -> (valid, y, x)"""
	ny, nx = shape[-2:]
	yi, xi = np.asarray(yi), np.asarray(xi)
	p = period(shape, wcs) if isinstance(wrap,str) else wrap
	x = xi % p if p else xi
	ok = (yi>=0)&(yi<ny)&(x>=0)&(x<nx)
	return ok, yi, x

def ref_extract(arr, shape, wcs, ys, xs, cval, base=None, op=None, wrap="auto"):
	yy, xx = np.meshgrid(ys, xs, indexing="ij")
	ok, y, x = ref_index(shape, wcs, yy, xx, wrap)
	out = np.full(arr.shape[:-2]+yy.shape, cval, arr.dtype) if base is None else base.copy()
	if base is None: out[...,ok] = arr[...,y[ok],x[ok]]
	else: out[...,ok] = op(base[...,ok], arr[...,y[ok],x[ok]])
	return out

def foot(ctx, wcs, ys, xs, res, sy=1, sx=1, msg="coordinates"):
	"""pixel centres of res lie at the expected (fractional) input pixel coordinates"""
	if res.size == 0: return
	yy, xx = np.meshgrid(np.asarray(ys)+np.sign(sy)*(abs(sy)-1)/2, np.asarray(xs)+np.sign(sx)*(abs(sx)-1)/2, indexing="ij")
	want, got = ref_pix2sky(wcs, [yy,xx]), ref_pix2sky(res.wcs, pixgrid(res.shape))
	ctx.see(want)
	good = same_sky(got, want, 1e-7) | ~np.all(np.isfinite(want),0) | ~np.all(np.isfinite(got),0)
	if not np.all(good): ctx.check(False, "%s: got %s want %s" % (msg, got[:,~good][:,0]/deg, want[:,~good][:,0]/deg))

OPS = {"set": (lambda a,b:b), "add": (lambda a,b:a+b), "max": np.maximum}

def snapshot(m): return (np.array(m), wcs_key(m.wcs))
def unchanged(ctx, m, snap, msg="input unchanged"):
	ctx.eq(np.asarray(m), snap[0], msg+" (values)"); ctx.eq(wcs_key(m.wcs), snap[1], msg+" (coordinates)")

def xoffs(name, shape, wcs):
	p = period(shape,wcs); nx = shape[-1]
	if p > 40: return list(range(-nx-1, nx+2)) + ([p-2, -p+1] if wcsutils.is_cyl(wcs) else [])
	return list(range(-p-2, p+nx+2))

def unit_pixbox(ctx, items):
	for name, pre in items:
		shape, wcs = GEOS[name]; ny, nx = shape
		base = ramp(pre+shape)
		sizes = [(1,1),(2,3),(ny,nx),(ny+3,nx+4)]
		for (h,w), y0, x0 in itertools.product(sizes, range(-3,ny+2,2 if ctx.quick else 1), xoffs(name,shape,wcs)):
			for sy, sx in ((1,1),(-1,1),(1,-1),(2,1),(1,2),(-1,-1),(3,2),(-2,-3)):
				if (h,w) in ((1,1),) and (sy,sx) != (1,1): continue
				if ctx.quick and (sy,sx) in ((2,1),(-1,-1)) : continue
				if sy > 0: by = (y0, y0+h*sy, sy)
				else:      by = (y0+(h-1)*-sy, y0+sy, sy)
				if sx > 0: bx = (x0, x0+w*sx, sx)
				else:      bx = (x0+(w-1)*-sx, x0+sx, sx)
				ys, xs = list(range(*by)), list(range(*bx))
				pb = np.array([by,bx]).T
				if (sy,sx) == (1,1): pb = pb[:2]
				with ctx.case("extract_pixbox", geo=name, pre=pre, pixbox=pb):
					m = enmap.ndmap(base.copy(), wcs); snap = snapshot(m); pb0 = pb.copy()
					r = enmap.extract_pixbox(m, pb, cval=-5)
					want = ref_extract(base, shape, wcs, ys, xs, -5)
					ctx.eq(np.asarray(r), want, "values"); foot(ctx, wcs, ys, xs, r, sy, sx)
					ctx.eq(pb, pb0, "pixel box unchanged"); unchanged(ctx, m, snap)
				if (sy,sx) == (1,1) and pre == ():
					with ctx.case("extract_pixbox-recenter", geo=name, pixbox=pb):
						if wcsutils.is_cyl(wcs) and "cea" not in name:
							r = enmap.extract_pixbox(m, pb, cval=-5, recenter=True)
							ctx.eq(np.asarray(r), want, "recentered values"); foot(ctx, wcs, ys, xs, r, msg="recentered coordinates")
							ctx.check(abs(r.wcs.wcs.crpix[0]-(w+1)/2) <= 0.5+1e-9, "reference point inside")
						r = enmap.extract_pixbox(m, pb, wrap=0, cval=-5)
						ctx.eq(np.asarray(r), ref_extract(base, shape, wcs, ys, xs, -5, wrap=0), "no wrapping")
					with ctx.case("padslice", geo=name, pixbox=pb):
						r = enmap.padslice(m, pb, default=-7)
						ctx.eq(np.asarray(r), ref_extract(base, shape, wcs, ys, xs, -7, wrap=0), "values"); foot(ctx, wcs, ys, xs, r)
						unchanged(ctx, m, snap)
				# output map supplied, with an operation; reverse direction
				if w > nx or h > ny or w*abs(sx) > period(shape,wcs): continue
				for opn, op in OPS.items():
					if opn != "add" and (sy,sx) != (1,1): continue
					with ctx.case("extract_pixbox-op", geo=name, pre=pre, pixbox=pb, op=opn):
						o0 = ramp(pre+(len(ys),len(xs)), start=500)
						om = enmap.ndmap(o0.copy(), r.wcs if (sy,sx)==(1,1) else wcs)
						enmap.extract_pixbox(m, pb, omap=om, op=op)
						ctx.eq(np.asarray(om), ref_extract(base, shape, wcs, ys, xs, 0, base=o0, op=op), "values")
						unchanged(ctx, m, snap)
					with ctx.case("insert_at", geo=name, pre=pre, pixbox=pb, op=opn):
						tgt = enmap.ndmap(base.copy(), wcs)
						src = enmap.ndmap(ramp(pre+(len(ys),len(xs)), start=500)*(-1 if opn == "max" else 1), wcs); s2 = snapshot(src)
						pos = pb if (sy,sx) != (1,1) else [y0,x0]
						out = enmap.insert_at(tgt, pos, src, op=op)
						want = base.copy()
						yy, xx = np.meshgrid(ys, xs, indexing="ij"); ok, y, x = ref_index(shape, wcs, yy, xx)
						want[...,y[ok],x[ok]] = op(want[...,y[ok],x[ok]], np.asarray(src)[...,ok])
						ctx.eq(np.asarray(tgt), want, "values"); ctx.eq(np.asarray(out), want, "returns the target")
						ctx.eq(wcs_key(tgt.wcs), wcs_key(wcs), "target coordinates")
						unchanged(ctx, src, s2)

def shifted_wcs(wcs, dy, dx, k=0):
	"""wcs of a map whose pixel (0,0) is pixel (dy,dx) of the original, with the reference moved k pixels along the equator"""
	w = wcs.deepcopy(); w.wcs.crpix -= (dx,dy)
	if k: w.wcs.crval[0] += k*w.wcs.cdelt[0]; w.wcs.crpix[0] += k
	w.wcs.set(); return w

def unit_extract(ctx, items):
	for name, pre, k in items:
		shape, wcs = GEOS[name]; ny, nx = shape
		cyl = wcsutils.is_cyl(wcs)
		if k and (pre or not cyl): continue
		if True:
			base = ramp(pre+shape)
			for (h,w), dy, dx in itertools.product([(2,3),(ny,nx),(ny+2,nx+3),(1,1)], range(-3,ny+2), xoffs(name,shape,wcs)[::(1 if ctx.thorough or not (k or pre) else 3)]):
				if ctx.quick and (h,w) == (1,1) and (k or pre): continue
				if True:
					ow = shifted_wcs(wcs,dy,dx,k)
					ys, xs = np.arange(dy,dy+h), np.arange(dx,dx+w)
					with ctx.case("extract", geo=name, pre=pre, size=[h,w], off=[dy,dx], refshift=k):
						m = enmap.ndmap(base.copy(), wcs); snap = snapshot(m); k0 = wcs_key(ow)
						want = ref_extract(base, shape, wcs, ys, xs, 3)
						r = enmap.extract(m, (h,w), ow, cval=3)
						ctx.eq(np.asarray(r), want, "values"); foot(ctx, wcs, ys, xs, r)
						ctx.eq(wcs_key(r.wcs), wcs_key(ow), "requested coordinates")
						ctx.eq(np.asarray(m.extract((h,w), ow, cval=3)), want, "method")
						ctx.eq(np.asarray(enmap.pixbox_of(wcs, (h,w), ow)).tolist(), [[dy,dx],[dy+h,dx+w]], "pixbox_of")
						unchanged(ctx, m, snap)
						ctx.eq(wcs_key(ow), k0, "requested geometry unchanged")
						if w <= nx and h <= ny:
							for opn, op in OPS.items():
								src = enmap.ndmap(ramp(pre+(h,w), start=500), ow); s2 = snapshot(src)
								tgt = enmap.ndmap(base.copy(), wcs)
								out = enmap.insert(tgt, src, op=op)
								wi = base.copy()
								yy, xx = np.meshgrid(ys, xs, indexing="ij"); ok, y, x = ref_index(shape, wcs, yy, xx)
								wi[...,y[ok],x[ok]] = op(wi[...,y[ok],x[ok]], np.asarray(src)[...,ok])
								ctx.eq(np.asarray(tgt), wi, "insert"); ctx.eq(np.asarray(out), wi, "insert returns the target")
								ctx.eq(wcs_key(tgt.wcs), wcs_key(wcs), "insert keeps target coordinates")
								unchanged(ctx, src, s2, "inserted map unchanged")
							# extract then insert restores
							r2 = enmap.extract(m, (h,w), ow)
							enmap.insert(m, r2)
							unchanged(ctx, m, snap, "extract then insert")
					if not pre and k == 0:
						with ctx.case("insert-nowrap", geo=name, size=[h,w], off=[dy,dx]):
							if w <= nx and h <= ny:
								src = enmap.ndmap(ramp((h,w), start=500), ow)
								tgt = enmap.ndmap(base.copy(), wcs)
								enmap.insert(tgt, src, wrap=0)
								wi = base.copy()
								yy, xx = np.meshgrid(ys, xs, indexing="ij"); ok, y, x = ref_index(shape, wcs, yy, xx, wrap=0)
								wi[...,y[ok],x[ok]] = np.asarray(src)[...,ok]
								ctx.eq(np.asarray(tgt), wi, "insert without wrapping")
						with ctx.case("overlap", geo=name, size=[h,w], off=[dy,dx]):
							# region not crossing the seam: plain rectangle intersection
							if -3 <= dx <= nx+1 and dx+w <= nx+3 and nx+3 < period(shape,wcs):
								os, ov = enmap.overlap(shape, wcs, (h,w), ow)
								iy = [i for i in range(dy,dy+h) if 0 <= i < ny]; ix = [i for i in range(dx,dx+w) if 0 <= i < nx]
								n = len(iy)*len(ix)
								ctx.eq(int(np.prod(os)), n, "overlap size")
								if n: ctx.eq(tuple(int(v) for v in os), (len(iy),len(ix)), "overlap shape"); foot(ctx, wcs, iy, ix, enmap.ndmap(np.zeros(os),ov))
								pb = np.array([[dy,dx],[dy+h,dx+w]]); pb0 = pb.copy()
								os2, ov2 = enmap.overlap(shape, wcs, pb)
								ctx.eq(tuple(int(v) for v in os2), tuple(int(v) for v in os), "overlap with a pixel box")
								ctx.eq(pb, pb0, "pixel box unchanged")
						with ctx.case("union", geo=name, size=[h,w], off=[dy,dx]):
							if max(nx,dx+w)-min(0,dx) > period(shape,wcs): continue
							m2 = enmap.ndmap(ramp((h,w),start=1000), ow)
							us, uw = enmap.union_geometry([(shape,wcs),((h,w),ow)])
							y1,y2,x1,x2 = min(0,dy),max(ny,dy+h),min(0,dx),max(nx,dx+w)
							ctx.eq(tuple(int(v) for v in us), (y2-y1,x2-x1), "union shape")
							foot(ctx, wcs, range(y1,y2), range(x1,x2), enmap.ndmap(np.zeros(us),uw))
							u = enmap.map_union(m, m2)
							want = np.zeros((y2-y1,x2-x1)); want[-y1:-y1+ny,-x1:-x1+nx] += base; want[dy-y1:dy-y1+h,dx-x1:dx-x1+w] += np.asarray(m2)
							ctx.eq(np.asarray(u), want, "map_union"); foot(ctx, wcs, range(y1,y2), range(x1,x2), u)

def unit_submap(ctx, items):
	fr = [-0.5,-0.2,0.0,0.3]
	modes = {"round": (np.round,np.round), "floor": (np.floor,np.floor), "ceil": (np.ceil,np.ceil), "inclusive": (np.floor,np.ceil), "exclusive": (np.ceil,np.floor)}
	for name, mode in items:
		shape, wcs = GEOS[name]; ny, nx = shape
		base = ramp(shape); m = enmap.ndmap(base.copy(), wcs); snap = snapshot(m)
		f0, f1 = modes[mode or "round"]
		p = period(shape, wcs)
		ylist = [(a+f,b+g) for a,b in ((0,ny-1),(1,3),(-1,2),(0,1)) for f in fr for g in fr if b+g-a-f > 0.4]
		xlist = [(a+f,b+g) for a,b in ((0,nx-1),(1,3),(-2,2),(nx-2,nx+1),(0,1)) for f in (-0.5,0.0,0.3) for g in (-0.5,0.0,0.3) if 0.4 < b+g-a-f < (p-0.6 if p < 40 else 1e9)]
		if ctx.quick: ylist = ylist[::3]
		eps = 1e-4
		for (ya,yb),(xa,xb) in itertools.product(ylist, xlist):
			corner = ref_pix2sky(wcs, [[ya,yb],[xa,xb]])
			if not np.all(np.isfinite(corner)) or (abs(ya+0.5-wcs.wcs.crpix[1]+0.5)*abs(wcs.wcs.cdelt[1]) > 89): continue
			# continuous box in ra
			corner[1,1] = corner[1,0] + (xb-xa)*wcs.wcs.cdelt[0]*deg
			for flipy, flipx in itertools.product((False,True),(False,True)):
				if (flipy or flipx) and mode in ("inclusive","exclusive"): continue
				box = corner.T.copy()
				if flipy: box[:,0] = box[::-1,0]
				if flipx: box[:,1] = box[::-1,1]
				y1,y2 = int(f0(ya+eps)), int(f1(yb+eps)); x1,x2 = int(f0(xa+eps)), int(f1(xb+eps))
				if y2 <= y1 or x2 <= x1: continue
				# ties of the rounding itself (p+eps landing on a boundary) are excluded by the choice of fractions
				ys, xs = np.arange(y1,y2), np.arange(x1,x2)
				if flipy: ys = ys[::-1]
				if flipx: xs = xs[::-1]
				with ctx.case("submap", geo=name, mode=mode, y=[ya,yb], x=[xa,xb], flip=[flipy,flipx]):
					r = m.submap(box, mode=mode) if mode else m.submap(box)
					xs2 = None
					want = ref_extract(base, shape, wcs, ys, xs, 0)
					ctx.eq(np.asarray(r), want, "values")
					foot(ctx, wcs, ys, xs, r, -1 if flipy else 1, -1 if flipx else 1)
					unchanged(ctx, m, snap)
					b3 = enmap.subinds(shape, wcs, box, mode=mode, cap=False)
					gotx = list(range(*[int(v) for v in b3[:,1]])); goty = list(range(*[int(v) for v in b3[:,0]]))
					ctx.eq(goty, ys.tolist(), "row indices")
					ctx.eq([v % p for v in gotx], [v % p for v in xs.tolist()], "column indices")
					bc = enmap.subinds(shape, wcs, box, mode=mode, cap=True)
					if y1 >= 0 and y2 <= ny: ctx.eq(list(range(*[int(v) for v in bc[:,0]])), ys.tolist(), "capped row indices")
					else: ctx.eq(list(range(*[int(v) for v in bc[:,0]])), [y for y in ys if 0 <= y < ny], "capped row indices")
					if not (flipy or flipx):
						gs, gw = enmap.subgeo(shape, wcs, box, mode=mode)
						ctx.eq(tuple(int(v) for v in gs), r.shape, "geometry-only shape")
						foot(ctx, wcs, ys, xs, enmap.ndmap(np.zeros(gs),gw), msg="geometry-only")
						g2 = enmap.Geometry(shape, wcs).submap(box, mode=mode)
						ctx.eq(tuple(int(v) for v in g2.shape), r.shape, "Geometry.submap")

def unit_subopts(ctx, items):
	"""The optional arguments of cutting out by sky box: no wrapping, recentering, plain arrays with a separate geometry, unflipped geometries"""
	for name in items:
		shape, wcs = GEOS[name]; ny, nx = shape; p = period(shape, wcs)
		for pre in ((),(2,)):
			base = ramp(pre+shape); m = enmap.ndmap(base.copy(), wcs); snap = snapshot(m)
			for (ya,yb),(xa,xb),(flipy,flipx) in itertools.product(((-0.5,ny-0.5),(0.5,2.5),(-1.5,1.5)), ((-0.5,nx-0.5),(0.5,2.5),(-2.5,1.5),(nx-2.5,nx+0.5)), itertools.product((False,True),(False,True))):
				corner = ref_pix2sky(wcs, [[ya,yb],[xa,xb]])
				if np.any(np.abs((np.array([ya,yb])+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]) > 89) or xb-xa > p-0.6 or not np.all(np.isfinite(corner)): continue
				corner[1,1] = corner[1,0] + (xb-xa)*wcs.wcs.cdelt[0]*deg
				box = corner.T.copy()
				if flipy: box[:,0] = box[::-1,0]
				if flipx: box[:,1] = box[::-1,1]
				y1,y2,x1,x2 = [int(v+0.5) if v > -0.5 else int(v-0.5)+1 for v in (ya,yb,xa,xb)]
				ys0, xs0 = np.arange(y1,y2), np.arange(x1,x2)
				ys, xs = (ys0[::-1] if flipy else ys0), (xs0[::-1] if flipx else xs0)
				sy, sx = (-1 if flipy else 1), (-1 if flipx else 1)
				desc = dict(geo=name, pre=pre, y=[ya,yb], x=[xa,xb], flip=[flipy,flipx])
				with ctx.case("submap-nowrap", **desc):
					r = enmap.submap(m, box, wrap=0); g = enmap.subinds(shape, wcs, box, cap=False)
					xx = np.arange(*[int(v) for v in g[:,1]]) # the copy of the sky used is the code's choice
					ctx.eq([int(v)%p for v in xx], [int(v)%p for v in xs], "columns")
					ctx.eq(np.asarray(r), ref_extract(base, shape, wcs, ys, xx, 0, wrap=0), "values without wrapping"); foot(ctx, wcs, ys, xs, r, sy, sx)
					unchanged(ctx, m, snap)
				with ctx.case("submap-recenter", **desc):
					if "cea" in name: continue
					for r in (enmap.submap(m, box, recenter=True), m.submap(box, recenter=True)):
						ctx.eq(np.asarray(r), ref_extract(base, shape, wcs, ys, xs, 0), "recentered values"); foot(ctx, wcs, ys, xs, r, sy, sx, msg="recentered coordinates")
						ctx.check(abs(r.wcs.wcs.crpix[0]-(r.shape[-1]+1)/2) <= 0.5+1e-9, "reference point in the middle")
					gs, gw = enmap.subgeo(pre+shape, wcs, box, noflip=True, recenter=True)
					ctx.eq(tuple(int(v) for v in gs), pre+(len(ys),len(xs)), "geometry shape"); foot(ctx, wcs, ys0, xs0, enmap.ndmap(np.zeros(gs),gw), msg="recentered unflipped geometry")
					unchanged(ctx, m, snap)
				with ctx.case("submap-iwcs", **desc):
					arr = base.copy(); r = enmap.submap(arr, box, iwcs=wcs)
					ctx.eq(np.asarray(r), ref_extract(base, shape, wcs, ys, xs, 0), "values from a plain array"); foot(ctx, wcs, ys, xs, r, sy, sx)
					ctx.eq(arr, base, "array unchanged")
				with ctx.case("subgeo", **desc):
					gs, gw = enmap.subgeo(pre+shape, wcs, box)
					ctx.eq(tuple(int(v) for v in gs), pre+(len(ys),len(xs)), "shape"); foot(ctx, wcs, ys, xs, enmap.ndmap(np.zeros(gs),gw), sy, sx)
					gs, gw = enmap.subgeo(pre+shape, wcs, box, noflip=True)
					ctx.eq(tuple(int(v) for v in gs), pre+(len(ys),len(xs)), "unflipped shape"); foot(ctx, wcs, ys0, xs0, enmap.ndmap(np.zeros(gs),gw), msg="unflipped coordinates")
					gs, gw = enmap.subgeo(pre+shape, wcs, pixbox=np.array([[y1,x1],[y2,x2]]))
					ctx.eq(tuple(int(v) for v in gs), pre+(len(ys),len(xs)), "pixel box shape"); foot(ctx, wcs, ys0, xs0, enmap.ndmap(np.zeros(gs),gw), msg="pixel box coordinates")
					b = enmap.subinds(shape, wcs, box, noflip=True, cap=False)
					ctx.eq([[int(v) for v in b[:,0]], [int(b[0,1])%p,int(b[1,1]-b[0,1]),int(b[2,1])]], [[y1,y2,1],[x1%p,x2-x1,1]], "unflipped indices")
			# explicit wrapping lengths along either or both axes, and extraction with a separate geometry
			for wrap in (0, nx+2, [0,nx+1], [ny+1,0], [ny,nx]):
				wy, wx = np.zeros(2,int)+wrap
				for y0, x0, h, w in itertools.product((-2,0,ny-1), (-nx-1,-2,0,nx-1,nx+3), (2,ny), (2,nx)):
					ys, xs = np.arange(y0,y0+h), np.arange(x0,x0+w)
					with ctx.case("wrap-length", geo=name, pre=pre, wrap=wrap, off=[y0,x0], size=[h,w]):
						yy, xx = np.meshgrid(ys%wy if wy else ys, xs%wx if wx else xs, indexing="ij")
						ok = (yy>=0)&(yy<ny)&(xx>=0)&(xx<nx)
						want = np.full(pre+(h,w), 4.0); want[...,ok] = base[...,yy[ok],xx[ok]]
						pb = np.array([[y0,x0],[y0+h,x0+w]])
						ctx.eq(np.asarray(enmap.extract_pixbox(m, pb, wrap=wrap, cval=4)), want, "extract_pixbox")
						ctx.eq(np.asarray(enmap.extract_pixbox(base, pb, wrap=wrap, cval=4, iwcs=wcs)), want, "extract_pixbox from a plain array")
						ow = shifted_wcs(wcs, y0, x0)
						ctx.eq(np.asarray(enmap.extract(m, (h,w), ow, wrap=wrap, cval=4)), want, "extract")
						src = enmap.ndmap(ramp(pre+(h,w), start=500), ow)
						wi = base.copy(); wi[...,yy[ok],xx[ok]] += np.asarray(src)[...,ok]
						tgt = enmap.ndmap(base.copy(), wcs); enmap.insert(tgt, src, wrap=wrap, op=np.add); ctx.eq(np.asarray(tgt), wi, "insert")
						tgt = enmap.ndmap(base.copy(), wcs); enmap.insert_at(tgt, [y0,x0], src, wrap=wrap, op=np.add); ctx.eq(np.asarray(tgt), wi, "insert_at")
						unchanged(ctx, m, snap)

def unit_neigh(ctx, _):
	"""The pixel box of a neighbourhood contains every pixel that close, and is no larger than the stated coordinate box"""
	for name, (shape, wcs) in {"car": ((8,12), mkwcs("CAR",[20,0],[-5,5],[6,4])), "up": ((9,10), mkwcs("CAR",[-60,0],[4,-6],[3,2])), "high": ((8,12), mkwcs("CAR",[20,0],[-5,5],[6,-8])), "plain": ((8,9), mkwcs("plain",[0,0],[-2,3],[3,4]))}.items():
		ny, nx = shape; unit = 1.0 if name == "plain" else deg
		pos = np.array([ref_pix2sky(wcs, [y,x]) if name != "plain" else np.array([(y+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1],(x+1-wcs.wcs.crpix[0])*wcs.wcs.cdelt[0]])*enmap.get_unit(wcs) for y in (0,2.3,ny-1) for x in (1.6,4,nx-2)])
		grid = enmap.posmap(shape, wcs)
		for r in (3,8,20):
			with ctx.case("neighborhood_pixboxes", geo=name, r=r):
				rr = r*(deg if name != "plain" else enmap.get_unit(wcs))
				boxes = enmap.neighborhood_pixboxes(shape, wcs, pos, rr); ctx.eq(boxes.shape, (len(pos),2,2), "shape"); ctx.check(boxes.dtype.kind == "i", "whole pixels")
				for (dec,ra), b in zip(pos, boxes):
					if name == "plain": d = np.maximum(abs(grid[0]-dec),abs(grid[1]-ra))
					else: d = np.arccos(np.clip(np.sum(unitvec(np.asarray(grid))*unitvec([dec,ra])[:,None,None],0),-1,1))
					y, x = np.where(np.asarray(d) < rr*(1-1e-9))
					nph = 10**9 if name == "plain" else int(round(360/abs(wcs.wcs.cdelt[0])))
					ctx.check(np.all((y>=b[0,0])&(y<b[1,0])&((x-b[0,1])%nph < b[1,1]-b[0,1])), "contains every pixel within the radius, modulo whole turns", state=b.tolist())
					ctx.check(((b[1,0]-b[0,0])-1-2*rr/(abs(wcs.wcs.cdelt[1])*(deg if name != "plain" else enmap.get_unit(wcs)))) <= 1.01, "height")
				one = enmap.neighborhood_pixboxes(shape, wcs, pos, np.full(len(pos),rr)); ctx.eq(one, boxes, "one radius per position")

def unit_pad(ctx, items):
	for name in items:
		shape, wcs = GEOS[name]; ny, nx = shape
		for pre in ((),(2,)):
			base = ramp(pre+shape)
			pads = [0,1,3,[1,2],[0,2],[[1,2],[3,0]],[[0,0],[0,3]],[[2,0],[0,0]],[[0,1],[1,0]],[[1,1],[2,2]]]
			for p in pads:
				q = np.array(p); q = np.array([[q,q],[q,q]]) if q.ndim==0 else np.array([q,q]) if q.ndim == 1 else q
				ys, xs = np.arange(-q[0,0],ny+q[1,0]), np.arange(-q[0,1],nx+q[1,1])
				with ctx.case("pad", geo=name, pre=pre, pad=p):
					m = enmap.ndmap(base.copy(), wcs); snap = snapshot(m)
					r = enmap.pad(m, p, value=9)
					ctx.eq(np.asarray(r), ref_extract(base, shape, wcs, ys, xs, 9, wrap=0), "values"); foot(ctx, wcs, ys, xs, r)
					r, sl = enmap.pad(m, p, return_slice=True)
					ctx.eq(np.asarray(r[sl]), base, "slice recovers the map"); foot(ctx, wcs, range(ny), range(nx), r[sl])
					unchanged(ctx, m, snap)
				with ctx.case("pad-wrap", geo=name, pre=pre, pad=p):
					if np.any(np.max(q,0) > [ny,nx]): continue
					r = enmap.pad(m, p, wrap=True)
					want = base[...,ys%ny,:][...,:,xs%nx]
					ctx.eq(np.asarray(r), want, "values repeat periodically"); foot(ctx, wcs, ys, xs, r)
			with ctx.case("stamps", geo=name, pre=pre):
				for y0,x0,h,w in itertools.product(range(-2,ny+1),range(-3,nx+2),(1,3),(2,)):
					st = enmap.stamps(m, [[y0,x0],[0,0]], [h,w], aslist=True)
					ys, xs = np.arange(y0,y0+h), np.arange(x0,x0+w)
					ctx.eq(np.asarray(st[0]), ref_extract(base, shape, wcs, ys, xs, np.nan, wrap=0), "stamp"); foot(ctx, wcs, ys, xs, st[0])
					st = m.stamps([[y0,x0],[0,0]], [h,w])
					ctx.eq(np.asarray(st)[0], ref_extract(base, shape, wcs, ys, xs, np.nan, wrap=0), "stamp array"); foot(ctx, wcs, ys, xs, st[0])
					ctx.eq(np.asarray(st)[1], ref_extract(base, shape, wcs, np.arange(h), np.arange(w), np.nan, wrap=0), "second stamp")
			with ctx.case("tile_maps", geo=name, pre=pre):
				for cy, cx in itertools.product(range(1,ny), range(1,nx)):
					tiles = [[m[...,:cy,:cx],m[...,:cy,cx:]],[m[...,cy:,:cx],m[...,cy:,cx:]]]
					t = enmap.tile_maps(tiles)
					ctx.eq(np.asarray(t), base, "reassembled"); foot(ctx, wcs, range(ny), range(nx), t)

def unit_padtiles(ctx, items):
	"""Reading gives neighbours' data; writing the tiles back unchanged reproduces the map"""
	for name, tshape, pad, margin in items:
		shape, wcs = {"part": ((7,9), mkwcs("CAR",[50,0],[-5,5],[2,3])), "full": ((4,12), mkwcs("CAR",[0,0],[-30,30],[6.5,2.5])),
			"tan": ((6,8), mkwcs("TAN",[50,30],[-1,1],[3,2.5]))}[name]
		ny, nx = shape
		for pre in ((),(2,)):
			base = ramp(pre+shape)
			with ctx.case("padtiles", geo=name, tshape=tshape, pad=pad, margin=margin, pre=pre):
				m = enmap.ndmap(base.copy(), wcs); om = enmap.ndmap(np.zeros(pre+shape), wcs); snap = snapshot(m)
				n = 0
				nty, ntx = (ny+tshape[0]-1)//tshape[0], (nx+tshape[1]-1)//tshape[1]
				for it, ot in enmap.padtiles(m, om, tshape=tshape, pad=pad, margin=margin):
					ty, tx = n//ntx, n%ntx
					g = pad+margin
					ys, xs = np.arange(ty*tshape[0]-g,(ty+1)*tshape[0]+g), np.arange(tx*tshape[1]-g,(tx+1)*tshape[1]+g)
					ctx.eq(np.asarray(it), ref_extract(base, shape, wcs, ys, xs, 0), "tile data"); foot(ctx, wcs, ys, xs, it)
					ctx.eq(np.asarray(ot), np.zeros(it.shape), "output tile starts at zero")
					ot[:] = it
					n += 1
				ctx.eq(n, nty*ntx, "number of tiles")
				ctx.close(np.asarray(om), base, msg="crossfaded tiles add up to the map")
				unchanged(ctx, m, snap)
			with ctx.case("padtiles-modes", geo=name, tshape=tshape, pad=pad, margin=margin, pre=pre):
				m2 = enmap.ndmap(base*2, wcs); o1, o2 = [enmap.ndmap(np.zeros(pre+shape), wcs) for i in range(2)]
				for a, b, c in enmap.padtiles(m, m2, o1, tshape=tshape, pad=pad, margin=margin): c[:] = a+b; a[:] = 99
				ctx.close(np.asarray(o1), base*3, msg="two inputs, one output"); o1[:] = 0
				for c, a, d in enmap.padtiles(o1, m, o2, tshape=tshape, pad=[pad,0], margin=[0,margin], mode="wrw"):
					ctx.eq(a.shape[-2:], (tshape[0]+2*pad,tshape[1]+2*margin), "tile shape with different padding per axis"); c[:] = a; d[:] = -a
				ctx.close(np.asarray(o1), base, msg="outputs first"); ctx.close(np.asarray(o2), -base, msg="second output")
				ctx.eq(len(list(enmap.padtiles(m, tshape=tshape, pad=pad, margin=margin))), nty*ntx, "single map is read")
				if tshape[0] == 4:
					for (a,) in enmap.padtiles(m, tshape=4, pad=pad, margin=margin): ctx.eq(a.shape[-2:], (4+2*(pad+margin),)*2, "one number for both axes")
				unchanged(ctx, m, snap)
			with ctx.case("padtiles-split", geo=name, tshape=tshape, pad=pad, margin=margin, pre=pre):
				# work split over processes adds up
				tot = np.zeros(pre+shape)
				for rank in range(2):
					om = enmap.ndmap(np.zeros(pre+shape), wcs)
					for it, ot in enmap.padtiles(m, om, tshape=tshape, pad=pad, margin=margin, start=rank, step=2): ot[:] = it
					tot += np.asarray(om)
				ctx.close(tot, base, msg="sum over ranks")

def units(tier):
	out  = chunked("pixbox", [(n,p) for n in GEOS for p in ((),(2,))], unit_pixbox, 18)
	out += chunked("extract", [(n,p,k) for n in GEOS for p,k in (((),0),((2,),0),((),2),((),-5))], unit_extract, 36)
	out += chunked("submap", [(n,mo) for n in GEOS if wcsutils.is_cyl(GEOS[n][1]) and n not in ("tiny","wide","cea") for mo in (None,"round","floor","ceil","inclusive","exclusive")], unit_submap, 24)
	out += chunked("subopts", ["full12","full12up","part","smallpix"], unit_subopts, 4) + [("neighborhood", unit_neigh, None)]
	out += chunked("pad", list(GEOS), unit_pad, 5)
	out += chunked("padtiles", [(n,t,p,ma) for n in ("part","full","tan") for t in ((3,4),(4,3),(2,5),(7,12),(4,6)) for p in (0,1) for ma in (0,1,2)], unit_padtiles, 6)
	return out
