"""C06: changing resolution by whole factors conserves content and coordinates."""
import numpy as np, itertools
from pixell import enmap, wcsutils, utils, resample
from ..geo import *
from ..core import chunked

RULE   = "every map shape x factor pair x offset x inclusive/exclusive x reduction x geometry, and every 1d length x block x offset x axis for the block operations; reference: explicit loops over the input pixels of each block"
BOUNDS = "map sides 1..9, factors 1..4 per axis, all offsets below the factor, four reductions, three leading shapes; 1d lengths 1..12, blocks 1..7"
ASSUME = ["reductions that are not separable over the two axes (e.g. median) are outside the claim"]

OPS = {"mean": np.mean, "sum": np.sum, "max": np.max, "min": np.min}

def blocks(n, f, off, inclusive):
	"""list of index lists along one axis"""
	if f == 1 and off == 0: return [[i] for i in range(n)]
	out = []
	if inclusive and off > 0 : out.append(list(range(0,min(off,n))))
	i = off
	while i+f <= n: out.append(list(range(i,i+f))); i += f
	if inclusive and i < n: out.append(list(range(i,n)))
	return out

def ref_down(arr, fy, fx, oy, ox, inclusive, op):
	by, bx = blocks(arr.shape[-2],fy,oy,inclusive), blocks(arr.shape[-1],fx,ox,inclusive)
	out = np.zeros(arr.shape[:-2]+(len(by),len(bx)), arr.dtype if op is not np.mean else np.result_type(arr.dtype,np.float64) if arr.dtype.kind in "iu" else arr.dtype)
	for j, y in enumerate(by):
		for i, x in enumerate(bx):
			sub = arr[...,y[0]:y[-1]+1,x[0]:x[-1]+1]
			# a partial block in one axis keeps its own weight
			out[...,j,i] = op(sub.reshape(sub.shape[:-2]+(-1,)),-1)
	return out, by, bx

def check_foot(ctx, wcs, f, off, inclusive, res):
	"""output pixel (J,I) covers input pixels off+f*(J-lead)..., i.e. its edges coincide with input edges"""
	fy, fx = f; lead = [int(inclusive and o > 0) for o in off]
	J, I = pixgrid(res.shape)
	y = off[0]+fy*(J-lead[0])+(fy-1)/2; x = off[1]+fx*(I-lead[1])+(fx-1)/2
	a, b = ref_pix2sky(wcs,[y,x]), ref_pix2sky(res.wcs, [J,I])
	good = same_sky(a,b,1e-8) | ~np.all(np.isfinite(a),0)
	ctx.see(a)
	if not np.all(good): ctx.check(False, "coordinates: got %s want %s" % (b[:,~good][:,0]/deg, a[:,~good][:,0]/deg))
	ctx.close(res.wcs.wcs.cdelt, wcs.wcs.cdelt*[fx,fy], msg="pixel size")

def unit_down(ctx, items):
	for name, shape, pre in items:
		w0 = alphabet()[name][1]; key = wcs_key(w0)
		base = ramp(pre+shape)**1.5
		for fy, fx in itertools.product((1,2,3,4), repeat=2):
			if ctx.quick and fy*fx in (12,) : continue
			for oy, ox in itertools.product(range(fy), range(fx)):
				if oy >= shape[0] or ox >= shape[1]: continue
				for inc in (False, True):
					by, bx = blocks(shape[0],fy,oy,inc), blocks(shape[1],fx,ox,inc)
					if not by or not bx: continue
					for opn in (("mean","sum") if pre else ("mean","max")) if ctx.quick else OPS:
						op = OPS[opn]
						with ctx.case("downgrade", geo=name, shape=pre+shape, factor=(fy,fx), off=(oy,ox), inclusive=inc, op=opn):
							m = enmap.ndmap(base.copy(), w0)
							want, by, bx = ref_down(base, fy, fx, oy, ox, inc, op)
							got = enmap.downgrade(m, (fy,fx), op=op, off=(oy,ox), inclusive=inc)
							ctx.close(np.asarray(got), want, rtol=1e-10, msg="values")
							check_foot(ctx, w0, (fy,fx), (oy,ox), inc, got)
							ctx.eq(wcs_key(m.wcs), key, "input coordinates unchanged"); ctx.eq(np.asarray(m), base, "input unchanged")
							if opn == "mean" and (fy,fx) != (1,1):
								# expanding with the same parameters
								up = enmap.upgrade(got, (fy,fx), off=(oy,ox), oshape=shape, inclusive=inc)
								ctx.eq(tuple(up.shape), pre+shape, "upgraded shape")
								w = np.zeros(pre+shape)
								for j,ys in enumerate(by):
									for i,xs in enumerate(bx): w[...,ys[0]:ys[-1]+1,xs[0]:xs[-1]+1] = want[...,j,i,None,None]
								ctx.close(np.asarray(up), w, rtol=1e-10, msg="each pixel repeated over the area it covers")
								a, b = ref_pix2sky(w0, pixgrid(shape)), ref_pix2sky(up.wcs, pixgrid(shape))
								ctx.check(np.all(same_sky(a,b,1e-8)|~np.all(np.isfinite(a),0)), "upgraded coordinates are the original ones", a)
							if opn == "mean" and not inc:
								ctx.close(np.asarray(m.downgrade((fy,fx), off=(oy,ox))), want, rtol=1e-10, msg="method")
				if oy == 0 and ox == 0:
					with ctx.case("upgrade", geo=name, shape=pre+shape, factor=(fy,fx)):
						m = enmap.ndmap(base.copy(), w0)
						up = enmap.upgrade(m, (fy,fx))
						ctx.eq(np.asarray(up), np.repeat(np.repeat(base,fy,-2),fx,-1), "values")
						q = (pixgrid(shape)+0.5)*np.array([fy,fx])[:,None,None]-0.5
						a, b = ref_pix2sky(w0,pixgrid(shape)), ref_pix2sky(up.wcs,q)
						ctx.check(np.all(same_sky(a,b,1e-8)|~np.all(np.isfinite(a),0)), "coordinates", a)
						ctx.eq(wcs_key(m.wcs), key, "input coordinates unchanged")
						ctx.close(np.asarray(m.upgrade((fy,fx))), np.asarray(up), msg="method")
						back = enmap.downgrade(up, (fy,fx))
						ctx.close(np.asarray(back), base, rtol=1e-10, msg="undone by downgrading"); ctx.close(back.wcs.wcs.crpix, w0.wcs.crpix, msg="coordinates restored"); ctx.close(back.wcs.wcs.cdelt, w0.wcs.cdelt, msg="coordinates restored")
						gs, gw = enmap.upgrade_geometry(pre+shape, w0, (fy,fx))
						ctx.eq(tuple(int(v) for v in gs), tuple(up.shape), "geometry-only shape"); ctx.close(gw.wcs.crpix, up.wcs.wcs.crpix, msg="geometry-only coordinates"); ctx.close(gw.wcs.cdelt, up.wcs.wcs.cdelt, msg="geometry-only coordinates")
						if shape[0] >= fy and shape[1] >= fx:
							d = enmap.downgrade(m, (fy,fx))
							gs, gw = enmap.downgrade_geometry(pre+shape, w0, (fy,fx))
							ctx.eq(tuple(int(v) for v in gs), tuple(d.shape), "geometry-only shape"); ctx.close(gw.wcs.crpix, d.wcs.wcs.crpix, msg="geometry-only coordinates"); ctx.close(gw.wcs.cdelt, d.wcs.wcs.cdelt, msg="geometry-only coordinates")
		for f in (None, 1, 2, 3):
			if f and f > min(shape): continue
			with ctx.case("downgrade scalar", geo=name, shape=pre+shape, factor=f):
				for dt in (np.float32, np.int32, np.complex128):
					m = enmap.ndmap(base.astype(dt), w0)
					got = enmap.downgrade(m, f)
					want = ref_down(base.astype(dt), f or 1, f or 1, 0, 0, False, np.mean)[0]
					ctx.close(np.asarray(got), want, rtol=1e-6, msg="values")

def unit_ref(ctx, items):
	"""Maps that are cut-outs of one another and downgraded relative to the same position stay compatible"""
	for name, f in items:
		shape, w0 = (11,12), alphabet()[name][1]
		full = enmap.ndmap(ramp(shape)**1.5, w0)
		f = np.zeros(2,int)+f
		ry, rx = 5, 4
		ref = ref_pix2sky(w0, [ry,rx])
		F = enmap.downgrade(full, f, ref=ref)
		for y0, x0 in itertools.product(range(0,5), range(0,4)):
			with ctx.case("downgrade ref", geo=name, factor=f, start=(y0,x0)):
				sub = full[y0:,x0:]
				S = enmap.downgrade(sub, f, ref=ref)
				ctx.check(wcsutils.is_compatible(F.wcs, S.wcs), "compatible")
				# Same block contents: position of block in full-map pixel units
				oy, ox = (ry-y0)%f[0], (rx-x0)%f[1]
				want = ref_down(np.asarray(full), f[0], f[1], y0+oy, x0+ox, False, np.mean)[0]
				ctx.close(np.asarray(S), want, rtol=1e-10, msg="values")
				off = enmap.get_downgrade_offset(sub.shape, sub.wcs, f, ref)
				ctx.eq(np.asarray(off), np.array([oy,ox]), "offset")
		ctx.eq(np.asarray(enmap.get_downgrade_offset(shape, w0, f)), np.zeros(2,int), "no reference, no offset")

def unit_block(ctx, items):
	for n in items:
		for axis, pre in ((-1,()),(0,()),(-1,(2,)),(0,(3,)),(1,(2,)),(-2,(2,)),(1,(2,3))):
			shp = list(pre)+[n] if axis in (-1,len(pre)) else ([n]+list(pre) if axis == 0 else list(pre[:-1])+[n]+list(pre[-1:]))
			if axis == 0: shp = [n]+list(pre)
			elif axis == -2: shp = list(pre[:-1])+[n]+list(pre[-1:])
			elif axis == 1: shp = [pre[0],n]+list(pre[1:])
			a = ramp(shp)**1.5
			for b in range(1,8):
				for off in range(0, min(b,n)):
					for inc in (True, False):
						bl = blocks(n,b,off,inc)
						if not bl: continue
						for opn, op in OPS.items():
							with ctx.case("block_reduce", shape=shp, axis=axis, bsize=b, off=off, inclusive=inc, op=opn):
								want = np.stack([op(np.take(a,v,axis),axis) for v in bl],axis)
								a0 = a.copy()
								got = utils.block_reduce(a, b, axis=axis, off=off, op=op, inclusive=inc)
								ctx.close(got, want, rtol=1e-12, msg="values"); ctx.eq(a, a0, "input unchanged")
						with ctx.case("block_expand", shape=shp, axis=axis, bsize=b, off=off, inclusive=inc):
							red = utils.block_reduce(a, b, axis=axis, off=off, inclusive=inc)
							got = utils.block_expand(red, b, n, axis=axis, off=off, inclusive=inc)
							want = np.zeros(a.shape)
							for k,v in enumerate(bl):
								for i in v:
									s = [slice(None)]*a.ndim; s[axis] = i
									want[tuple(s)] = np.take(np.stack([np.mean(np.take(a,v2,axis),axis) for v2 in bl],axis),k,axis)
							ctx.close(got, want, rtol=1e-12, msg="values")
		for b in range(1,6):
			with ctx.case("block_expand linear", n=n, bsize=b):
				a = ramp((2,n))**1.5
				x = (np.arange(n*b)+0.5)/b-0.5
				ctx.close(utils.block_expand(a, b, n*b, op="linear"), np.array([np.interp(x,np.arange(n),r) for r in a]), msg="values")
			if n%b == 0:
				with ctx.case("block_mean_filter", n=n, width=b):
					a = ramp((2,n))**1.5; a0 = a.copy()
					ctx.close(utils.block_mean_filter(a,b), np.repeat(np.mean(a.reshape(2,n//b,b),-1),b,-1), msg="values"); ctx.eq(a, a0, "input unchanged")
		for m in range(1,7):
			a = ramp((n,m))**1.5
			for sy, sx in itertools.product((1,2,3),repeat=2):
				with ctx.case("downsample_bin", shape=(n,m), steps=(sy,sx)):
					if n >= sy and m >= sx:
						ctx.close(resample.downsample_bin(a,[sy,sx]), ref_down(a,sy,sx,0,0,False,np.mean)[0], msg="mean of bins")
						ctx.close(resample.downsample_bin(a,[sx],[1]), ref_down(a,1,sx,0,0,False,np.mean)[0], msg="one axis")
						ctx.close(resample.downsample_bin(a,[sy],[0]), ref_down(a,sy,1,0,0,False,np.mean)[0], msg="one axis")
						ctx.close(resample.resample_bin(a,[1/sy,1/sx]), ref_down(a,sy,sx,0,0,False,np.mean)[0], msg="resample_bin down")
					up = np.repeat(np.repeat(a,sy,0),sx,1)
					ctx.close(resample.upsample_bin(a,[sy,sx]), up, msg="repetition")
					ctx.close(resample.upsample_bin(a,[sy,sx],[0,1]), up, msg="repetition, explicit axes")
					ctx.close(resample.resample_bin(a,[sy,sx]), up, msg="resample_bin up")

def units(tier):
	q = tier == "quick"
	names = ["car","car_off","car_down","cea","tan","car_full"] if q else list(alphabet())
	shapes = [((5,7),()),((4,6),(2,)),((1,3),()),((8,3),()),((9,9),()),((2,2),(2,1))] if q else [(s,()) for s in itertools.product((1,2,3,4,5,6,7,8,9),(1,2,3,5,6,8))]+[((4,6),(2,)),((5,7),(2,3)),((2,2),(2,1))]
	if not q: names = ["car","car_off","car_down","cea","tan"]
	out  = chunked("down", [(n,s,p) for n in names for s,p in shapes], unit_down, 48)
	out += chunked("ref", [(n,f) for n in alphabet() for f in (2,3,(2,3),(1,4),4)], unit_ref, 8)
	out += chunked("block", range(1,10 if q else 14), unit_block, 16)
	return out
