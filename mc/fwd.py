"""Method wrappers: for every combination of the arguments a map method offers, the method gives what the
corresponding module function gives when called with the same named arguments (the functions themselves are
decided against independent references by the checks that use this table)."""
import numpy as np, itertools
from pixell import enmap
from .geo import *

def same(ctx, got, want, msg):
	if isinstance(want, (list, tuple)):
		ctx.eq(len(got), len(want), msg+": length")
		for i, (g, w) in enumerate(zip(got, want)): same(ctx, g, w, "%s[%d]" % (msg, i))
	elif isinstance(want, enmap.ndmap):
		ctx.check(isinstance(got, enmap.ndmap), msg+": is a map"); ctx.eq(str(np.asarray(got).dtype), str(want.dtype), msg+": dtype")
		ctx.close(np.asarray(got), np.asarray(want), msg=msg); ctx.eq(wcs_key(got.wcs), wcs_key(want.wcs), msg+": coordinates")
	elif hasattr(want, "wcs"): ctx.eq(wcs_key(got), wcs_key(want), msg)
	elif isinstance(want, dict) or hasattr(want, "keys"):
		ctx.eq(sorted(got.keys()), sorted(want.keys()), msg)
		for k in want: same(ctx, got[k], want[k], msg+"."+k)
	elif want is None or isinstance(want, str): ctx.eq(got, want, msg)
	else: ctx.close(np.asarray(got), np.asarray(want), msg=msg)

def prod(**kw):
	keys = list(kw)
	return [dict(zip(keys, v)) for v in itertools.product(*[kw[k] for k in keys])]
B = [False, True]
# name: (property, first arguments of the function ("map", "geo"), argument dictionaries given the map)
def table():
	sub = lambda m: enmap.Geometry(m.shape, m.wcs)[1:4,1:5] if True else None
	geo2 = lambda m: tuple(enmap.slice_geometry(m.shape[-2:], m.wcs, (slice(-1,4),slice(1,m.shape[-1]+2)))) if False else tuple(enmap.slice_geometry(m.shape[-2:], m.wcs, (slice(1,4),slice(0,3))))
	pts = lambda m: enmap.pix2sky(m.shape, m.wcs, np.array([[1.25,2,3],[1,2.5,2]]))
	sbox = lambda m: enmap.pix2sky(m.shape, m.wcs, np.array([[0.7,2.6],[1.2,3.4]])).T
	T = {}
	def add(prop, name, how, fn): T.setdefault(prop, []).append((name, how, fn))
	add("C02","sky2pix","geo", lambda m: [dict(coords=pts(m), **k) for k in prod(safe=B, corner=B)])
	add("C02","pix2sky","geo", lambda m: [dict(pix=np.array([[0.5,3],[1,2.]]), **k) for k in prod(safe=B, corner=B)])
	add("C02","contains","geo", lambda m: [dict(pos=pts(m)), dict(pos=pts(m), unit="coord"), dict(pos=np.array([[0.5,30],[1,2.]]), unit="pix")])
	add("C02","corners","geo", lambda m: [dict()]+prod(npoint=[3,10], corner=B))
	add("C02","box","geo", lambda m: [dict()]+prod(npoint=[3,10], corner=B))
	add("C02","posmap","geo", lambda m: [dict()]+prod(safe=B, corner=B, separable=["auto",False], dtype=[np.float32,np.float64]))
	add("C02","posaxes","geo", lambda m: ([dict()]+prod(safe=B, corner=B, dtype=[np.float32,np.float64])))
	add("C02","pixmap","geo", lambda m: [dict()])
	add("C02","modrmap","geo", lambda m: [dict()]+prod(ref=["center",pts(m)[:,0]], safe=B, corner=B))
	add("C02","argmax","map", lambda m: [dict()]+prod(unit=["coord","pix"]))
	add("C02","center","geo", lambda m: [dict()])
	add("C02","l2pix","geo", lambda m: [dict(ls=np.array([[0.,100,-300],[50,20,7]]))])
	add("C02","pix2l","geo", lambda m: [dict(pix=np.array([[0.,1,2],[1,2,0]]))])
	add("C03","area","geo", lambda m: [dict()])
	add("C03","pixsize","geo", lambda m: [dict()])
	add("C03","pixshape","geo", lambda m: [dict()]+prod(signed=B))
	add("C03","pixsizemap","geo", lambda m: [dict()]+prod(separable=["auto",False], broadcastable=B))
	add("C03","pixshapemap","geo", lambda m: [dict()]+prod(separable=["auto",False], signed=B))
	add("C03","extent","geo", lambda m: [dict()]+prod(method=["auto","intermediate","subgrid"], signed=B))
	add("C10","lpixsize","geo", lambda m: [dict()]+prod(signed=B, method=["auto","intermediate"]))
	add("C10","lpixshape","geo", lambda m: [dict()]+prod(signed=B, method=["auto","intermediate"]))
	add("C10","laxes","geo", lambda m: [dict()]+prod(oversample=[1,3], method=["auto","intermediate"], broadcastable=B))
	add("C10","lmap","geo", lambda m: [dict()]+prod(oversample=[1,3]))
	add("C10","modlmap","geo", lambda m: [dict()]+prod(oversample=[1,3], min=[0,2]))
	add("C10","lbin","map", lambda m: [dict()]+prod(bsize=[None,40], brel=[1.0,2.0], return_nhit=B, return_bins=B))
	add("C10","rbin","map", lambda m: [dict()]+prod(center=[[0,0],pts(m)[:,0]], bsize=[None,0.1], brel=[1.0,2.0], return_nhit=B, return_bins=B))
	add("C09","resample","map", lambda m: [dict(oshape=(4,5))]+[dict(oshape=(8,9),**k) for k in prod(off=[(0,0),(0.5,1)], method=["fft"], corner=B)]+[dict(oshape=(8,9),**k) for k in prod(off=[(0,0),(0.5,1)], method=["spline"], border=["wrap","constant"], corner=B, order=[0,3])])
	add("C18","project","map", lambda m: [dict(zip(("shape","wcs"),geo2(m)))]+[dict(zip(("shape","wcs"),geo2(m)),**k) for k in prod(mode=["spline"], order=[0,1,3], border=["constant","wrap"], cval=[0,5], safe=B)])
	add("C18","at","map", lambda m: [dict(pos=pts(m))]+[dict(pos=p,unit=u,**k) for p,u in ((pts(m),"coord"),(np.array([[1.5,2,-3],[0.2,1,2]]),"pix")) for k in prod(mode=["spline"], order=[0,1,3], border=["constant","wrap"], cval=[0,5.0], safe=B)]+prod(pos=[pts(m)], mode=["nearest","linear","cubic"]))
	add("C04","extract","map", lambda m: [dict(zip(("shape","wcs"),geo2(m)),**k) for k in [dict()]+prod(wrap=["auto",False,5], cval=[0,7.0])+[dict(reverse=True,omap=enmap.zeros(*geo2(m)))]])
	add("C04","extract_pixbox","map", lambda m: [dict(pixbox=pb,**k) for pb in ([[1,0],[3,4]],[[-1,-2],[3,4]]) for k in prod(wrap=["auto",0,5], cval=[0,7.0])])
	add("C04","submap","map", lambda m: [dict(box=sbox(m),**k) for k in prod(mode=[None,"round","floor","ceil","inclusive","exclusive"], wrap=["auto"], recenter=B)])
	add("C04","padslice","map", lambda m: [dict(box=[[0,1],[3,3]]), dict(box=[[-1,1],[3,30]]), dict(box=[[-1,1],[3,30]], default=5)])
	add("C04","stamps","map", lambda m: [dict(pos=[[1,2],[0,3],[-2,1]], shape=(2,3), aslist=a) for a in B])
	add("C29","autocrop","map", lambda m: [dict()]+prod(method=["plain"], value=["auto",1.0], margin=[0,1], factors=[None,[3,4]], return_info=[False]))
	add("C29","apod","map", lambda m: [dict(width=2), dict(width=[1,2])]+prod(width=[2], profile=["cos","lin"], fill=["zero","mean","median","crossfade"]))
	add("C29","fillbad","map", lambda m: [dict()]+prod(val=[0,3.0], inplace=[False]))
	add("C16","distance_from","geo", lambda m: [dict(points=pts(m))]+[dict(points=pts(m),**k) for k in prod(domains=B, method=["cellgrid","bubble","simple"], rmax=[None,0.05], step=[2,1024])])
	add("C16","distance_transform","map", lambda m: [dict()]+prod(rmax=[None,0.05], method=["cellgrid","bubble","simple"]))
	add("C16","labeled_distance_transform","map", lambda m: [dict()]+prod(rmax=[None,0.05], method=["cellgrid","bubble","simple"]))
	add("C06","downgrade","map", lambda m: [dict(factor=2), dict(factor=[1,2])]+prod(factor=[2,[3,1]], op=[np.mean,np.sum,np.max], off=[None,[1,0],[1,1]])+[dict(factor=2, ref=pts(m)[:,0])])
	add("C06","upgrade","map", lambda m: [dict(factor=2), dict(factor=[1,2])]+prod(factor=[2,[3,1]], off=[None], inclusive=B)+[dict(factor=[2,3], off=[1,1], oshape=(m.shape[-2]*2-1,m.shape[-1]*3-2)), dict(factor=[2,3], off=[1,2], inclusive=True)])
	return T

GEO = {k:alphabet()[k] for k in ("car_full","car_off","tan","cea")}
def run(ctx, prop):
	for name, how, fn in table()[prop]:
		for gname, (shape, wcs) in GEO.items():
			for pre in ((),) if name in ("stamps","argmax") or name.endswith("distance_transform") else ((),(2,)):
				if name == "posaxes" and gname == "tan": continue
				m = enmap.enmap(ramp(pre+shape) % 7, wcs)
				if name.endswith("distance_transform"): m = enmap.enmap((m > 3).astype(int)*np.array(m,dtype=int), wcs)
				if name == "fillbad": m[...,0,1] = np.nan; m[...,2,2] = np.inf
				if name == "autocrop": m[...,0,:] = 0; m[...,:,-1] = 0; m[...,:,0] = 1; m[...,1,1] = 9
				for kw in fn(m):
					if prop == "C10" and gname == "tan" and kw.get("oversample",1) > 1: pass
					with ctx.case("ndmap.%s %s" % (name, ",".join(sorted(kw))), geometry=gname, pre=pre, args={k:v for k,v in kw.items() if not hasattr(v,"wcs")}):
						import warnings
						with warnings.catch_warnings():
							warnings.simplefilter("ignore")
							c = lambda: {k:(v.copy() if isinstance(v, np.ndarray) else v) for k,v in kw.items()}
							f = getattr(enmap, name)
							args = (m,) if how == "map" else (m.shape, m.wcs)
							try: want = f(*args, **c())
							except Exception as e: ctx.raises(lambda: getattr(m,name)(**c()), type(e), "fails as the function does"); continue
							same(ctx, getattr(m, name)(**c()), want, "method %s" % name)
def unit(prop): return [("methods", lambda ctx, arg=None: run(ctx, prop), None)]
