"""C21: multimaps behave as a list of maps."""
import numpy as np, itertools, os
from pixell import enmap, multimap
from .. import geo as G
from ..core import chunked

RULE   = "every combination of map geometries x leading axes; every history up to the depth of reads, writes, arithmetic, slicing and copies, compared after each step with a plain list of arrays; every per-map operation compared with the same operation on each map; file round trips"
BOUNDS = "1..3 maps of 1x1..7x12 pixels, leading axes (),(2,),(2,3), histories of depth 3 (quick) or 4 over 15 operations"
ASSUME = ["per-map operations are compared with the single-map operations checked by the other properties"]

GEOS = {k: v for k, v in G.alphabet().items()}
GEOS["one"] = ((1,1), G.mkwcs("CAR",[0,0],[-1,1],[1,1]))
GEOS["row"] = ((1,4), G.mkwcs("CAR",[0,0],[-1,1],[1,1]))
SETS = [("car",),("one",),("car","tan"),("one","car_full"),("row","one","arc"),("cea","car","car_down"),("car","car","car")]
def mk(names, pre, dt=np.float64, start=1):
	maps = []; off = start
	for n in names:
		sh, w = GEOS[n]; k = int(np.prod(pre+sh)); maps.append(enmap.enmap((np.arange(k)+off).reshape(pre+sh).astype(dt), w)); off += k
	return maps
def same(ctx, mm, model, names, msg):
	ctx.check(isinstance(mm, multimap.ndmaps) and mm.nmap == len(model) and len(mm.maps) == len(model), msg+": number of maps")
	ctx.check(mm.pre == model[0].shape[:-2] and list(mm.npixs) == [m.shape[-2]*m.shape[-1] for m in model] and mm.ntot == mm.shape[-1], msg+": shapes")
	for i, (a, n) in enumerate(zip(model, names)):
		for j in (i, i-len(model)):
			g = mm.maps[j]; ctx.check(isinstance(g, enmap.ndmap) and G.wcs_key(g.wcs) == G.wcs_key(GEOS[n][1]), msg+": geometry"); ctx.eq(np.asarray(g), a, msg+": map %d" % j)
	ctx.check(len(list(mm.maps)) == len(model), msg+": iteration")

def mkops(names, pre):
	"""(name, fn(mm, model) -> mm, model)"""
	n = len(names); ops = []
	def setmap(i):
		def f(mm, mo):
			v = mo[i]*0.5+3; mm.maps[i] = v; mo[i][:] = v; return mm, mo
		return f
	def setpart(i):
		def f(mm, mo):
			mm.maps[i,...,0] = -4.0; mo[i][...,0] = -4; return mm, mo
		return f
	def viaview(i):
		def f(mm, mo):
			v = mm.maps[i]; v += 2; mo[i] += 2; return mm, mo
		return f
	ops += [("set0",setmap(0)),("setlast",setmap(-1)),("part0",setpart(0)),("partlast",setpart(-1)),("view",viaview(n//2))]
	def imul(mm, mo):
		mm *= 2; return mm, [m*2 for m in mo]
	def add(mm, mo): return mm+1, [m+1 for m in mo]
	def neg(mm, mo): return -mm, [-m for m in mo]
	def selfmul(mm, mo): return mm*mm, [m*m for m in mo]
	def sq(mm, mo): return np.abs(mm)**0.5, [np.abs(m)**0.5 for m in mo]
	def cp(mm, mo):
		c = mm.copy(); c.maps[0] = 99; return mm, mo
	def cont(mm, mo): return mm.contig(), mo
	ops += [("imul",imul),("add",add),("neg",neg),("square",selfmul),("sqrt",sq),("copy",cp),("contig",cont)]
	def rebuild(mm, mo): return multimap.multimap([m for m in mm.maps]), mo
	ops += [("rebuild",rebuild)]
	def pre0(mm, mo): return (mm[0], [m[0] for m in mo]) if len(mm.pre) else (mm, mo)
	def prelast(mm, mo): return (mm[...,1,:], [m[...,1,:,:] for m in mo]) if len(mm.pre) and mm.pre[-1] > 1 else (mm, mo)
	def same_(mm, mo): return multimap.samegeos(np.array(mm), mm), mo
	ops += [("pre0",pre0),("prelast",prelast),("samegeos",same_)]
	return ops
def unit_hist(ctx, items):
	for names, pre, depth, first in items:
		ops = mkops(names, pre)
		for rest in itertools.product(range(len(ops)), repeat=depth-1):
			seq = (first,)+rest
			with ctx.case("history", names=names, pre=pre, ops=[ops[i][0] for i in seq]):
				mm = multimap.multimap(mk(names,pre)); mo = [np.array(m) for m in mk(names,pre)]
				for i in seq:
					mm, mo = ops[i][1](mm, [m for m in mo])
				same(ctx, mm, mo, names, "after the history")

def unit_build(ctx, items):
	for names, pre, dt in items:
		geos = [(pre+GEOS[n][0],GEOS[n][1]) for n in names]; sg = [GEOS[n] for n in names]; n = len(names)
		with ctx.case("construct", names=names, pre=pre, dtype=np.dtype(dt).name):
			maps = mk(names,pre,dt); keep = [np.array(m) for m in maps]; mm = multimap.multimap(maps); ctx.check(mm.dtype == dt, "dtype"); same(ctx, mm, keep, names, "multimap"); mm += 1
			for m,k in zip(maps,keep): ctx.eq(np.array(m), k, "the maps are copied")
			z = multimap.zeros(geos, dt); ctx.check(z.dtype == dt, "dtype"); same(ctx, z, [k*0 for k in keep], names, "zeros")
			e = multimap.empty(geos, dt); ctx.check(e.shape == z.shape and e.dtype == dt, "empty")
			f = multimap.full(geos, 3, dt); ctx.check(f.dtype == dt, "dtype"); same(ctx, f, [k*0+3 for k in keep], names, "full")
			v = np.arange(n)+5; f = multimap.full(geos, v, dt); same(ctx, f, [k*0+x for k,x in zip(keep,v)], names, "full with one value for each map")
			if pre:
				v = np.arange(int(np.prod(pre))*n).reshape(pre+(n,)); f = multimap.full(geos, v, dt); same(ctx, f, [np.broadcast_to(v[...,i][...,None,None],k.shape) for i,k in enumerate(keep)], names, "full with all values")
			g = multimap.nopre(geos); ctx.check(all(tuple(a.shape) == s[0] for a,s in zip(g,sg)), "nopre")
			ctx.raises(lambda: multimap.multimap(mk(names,pre)+mk(names,pre+(2,))), ValueError, "incompatible leading axes"); ctx.raises(lambda: multimap.zeros(geos+[((7,)+GEOS["car"][0],GEOS["car"][1])]), ValueError, "incompatible leading axes")
			for i in (n, -n-1): ctx.raises(lambda: mm.maps[i], IndexError, "out of range")
		with ctx.case("reductions", names=names, pre=pre, dtype=np.dtype(dt).name):
			mm = multimap.multimap(mk(names,pre,dt,-7)); maps = [np.array(m,float) for m in mm.maps]
			for nm in ("mean","median","max","min","var","std"):
				want = np.array([getattr(np,nm)(m,(-2,-1)) for m in maps]); ctx.close(getattr(multimap,nm)(mm), want, 1e-5 if dt == np.float32 else 1e-12, 1e-12, nm)
		with ctx.case("coordinates", names=names, pre=pre):
			mm = multimap.multimap(mk(names,pre)) if dt == np.float64 else None
			if mm is None: continue
			for nm, kws in (("posmap",({},{"corner":True},{"safe":False},{"dtype":np.float32})),("pixmap",({},{"dtype":np.float32})),("lmap",({},{"dtype":np.float32})),("modlmap",({},{"dtype":np.float32})),("modrmap",({},{"ref":[0.1,0.2]},{"safe":False},{"corner":True},{"dtype":np.float32}))):
				for kw in kws:
					ek = {k:v for k,v in kw.items() if k != "dtype"}; d = kw.get("dtype",np.float64)
					want = [np.array(getattr(enmap,nm)(*g,**ek)).astype(d) for g in sg]
					for got in (getattr(multimap,nm)(sg,**kw), getattr(mm,nm)(**kw)):
						ctx.check(got.dtype == d, nm+" dtype")
						for i in range(n): ctx.close(np.array(got.maps[i]), want[i], 1e-6 if d == np.float32 else 0, 0, nm)
			ctx.close(multimap.pixsize(sg), [enmap.pixsize(*g) for g in sg], 1e-14, 0, "pixsize"); ctx.close(mm.pixsize(), [enmap.pixsize(*g) for g in sg], 1e-14, 0, "pixsize")
			p = multimap.pixsizemap(sg)
			for i in range(n): ctx.close(np.array(p.maps[i]), np.array(enmap.pixsizemap(*sg[i])), 1e-14, 0, "pixsizemap")
		if dt != np.float64: continue
		with ctx.case("transforms", names=names, pre=pre):
			mm = multimap.multimap([m*0+np.cos(m) for m in mk(names,pre)]); keep = np.array(mm)
			for norm in (True, False, "phys"):
				for nm in ("fft","fft_adjoint","dct","dct_adjoint"):
					if "dct" in nm and any(min(GEOS[x][0]) < 2 for x in names): continue
					got = getattr(multimap,nm)(mm, normalize=norm); ctx.eq(np.array(mm), keep, "untouched by "+nm)
					inv = getattr(multimap,{"fft":"ifft","fft_adjoint":"ifft_adjoint","dct":"idct","dct_adjoint":"idct_adjoint"}[nm])(got, normalize=norm)
					for i in range(n):
						a = mm.maps[i]; w = getattr(enmap,nm)(a if "dct" in nm or nm == "fft" else a+0j, normalize=norm)
						ctx.close(np.array(got.maps[i]), np.array(w), 1e-10, 1e-10*np.max(np.abs(w)), nm)
						w2 = getattr(enmap,{"fft":"ifft","fft_adjoint":"ifft_adjoint","dct":"idct","dct_adjoint":"idct_adjoint"}[nm])(w, normalize=norm)
						ctx.close(np.array(inv.maps[i]), np.array(w2), 1e-9, 1e-9*np.max(np.abs(w2)), "inverse of "+nm)
			o = multimap.multimap([m*0j for m in mm.maps]); r = multimap.fft(mm, omap=o); ctx.close(np.array(o), np.array(r), 1e-12, 1e-12, "output buffer")
		with ctx.case("matrices", names=names, pre=pre):
			if len(pre) == 0: continue
			k = pre[-1]; A = multimap.multimap([enmap.enmap(np.cos(np.arange(int(np.prod(pre+(k,)+GEOS[x][0])))).reshape(pre+(k,)+GEOS[x][0]),GEOS[x][1]) for x in names]); v = multimap.multimap(mk(names,pre))
			got = multimap.map_mul(A, v); same(ctx, got, [np.array(got.maps[i]) for i in range(n)], names, "kind")
			for i in range(n): ctx.close(np.array(got.maps[i]), np.einsum("...abyx,...byx->...ayx",np.array(A.maps[i]),np.array(v.maps[i])), 1e-12, 1e-12, "map_mul")
			d = multimap.multimap(mk(names,())); ctx.close(np.array(multimap.map_mul(d, v)), np.array(d)*np.array(v), 1e-12, 0, "scalar product")
			if k >= 2:
				r = multimap.rotate_pol(v, 0.3)
				for i in range(n): ctx.close(np.array(r.maps[i]), np.array(enmap.rotate_pol(v.maps[i],0.3)), 1e-12, 1e-12, "rotate_pol")
				ang = np.array(multimap.multimap(mk(names,())))*0.1; r = multimap.rotate_pol(v, multimap.ndmaps(ang, v.geometries))
				off = 0
				for i in range(n):
					q = np.array(v.maps[i]); a = ang[off:off+q.shape[-1]*q.shape[-2]].reshape(q.shape[-2:]); off += a.size; ctx.close(np.array(r.maps[i]), np.array(enmap.rotate_pol(v.maps[i],a)), 1e-12, 1e-10, "rotate_pol by a map")
			l = multimap.lmap(sg)
			for kw in ({},{"inverse":True},{"iau":True},{"spin":1}):
				R = multimap.queb_rotmat(l, **kw)
				for i in range(n): ctx.close(np.array(R.maps[i]), np.array(enmap.queb_rotmat(enmap.lmap(*sg[i]),**kw)), 1e-12, 1e-12, "queb_rotmat")
			if k == 3 or k == 2:
				sp = [0,2] if k == 3 else [2]; mm = multimap.multimap([np.cos(m) for m in mk(names,pre)]); keep = np.array(mm)
				for kw in ({},{"iau":True},{"normalize":"phys"},{"normalize":False}):
					h = multimap.map2harm(mm, spin=sp, **kw); b = multimap.harm2map(h, spin=sp, **kw); ci = multimap.harm2map(h, spin=sp, keep_imag=True, **kw); ad = multimap.harm2map_adjoint(mm, spin=sp, **kw); ma = multimap.map2harm_adjoint(h, spin=sp, **kw)
					ctx.eq(np.array(mm), keep, "untouched"); ctx.check(np.iscomplexobj(ci) and not np.iscomplexobj(b), "keep_imag")
					for i in range(n):
						w = enmap.map2harm(mm.maps[i], spin=sp, **kw); ctx.close(np.array(h.maps[i]), np.array(w), 1e-10, 1e-10*np.max(np.abs(w)), "map2harm"); ctx.close(np.array(b.maps[i]), np.array(enmap.harm2map(w,spin=sp,**kw)), 1e-9, 1e-9, "harm2map")
						x = enmap.harm2map_adjoint(mm.maps[i],spin=sp,**kw); ctx.close(np.array(ad.maps[i]), np.array(x), 1e-10, 1e-10*np.max(np.abs(x)), "harm2map_adjoint"); x = enmap.map2harm_adjoint(w,spin=sp,**kw); ctx.close(np.array(ma.maps[i]), np.array(x), 1e-9, 1e-9*np.max(np.abs(x)), "map2harm_adjoint")

def unit_io(ctx, items):
	for names, pre, dt in items:
		with ctx.case("files", names=names, pre=pre, dtype=np.dtype(dt).name):
			mm = multimap.multimap(mk(names,pre,dt)); keep = np.array(mm); fn = os.path.join(ctx.wdir,"sub","m.fits")
			if os.path.exists(fn): os.remove(fn)
			multimap.write_map(fn, mm, extra={"FOO":7}); ctx.eq(np.array(mm), keep, "untouched")
			r = multimap.read_map(fn); same(ctx, r, [np.array(m) for m in mm.maps], names, "read back"); ctx.check(r.dtype == dt, "data type")
			for i in range(len(names)):
				m = enmap.read_map(fn, hdu=i); ctx.eq(np.array(m), np.array(mm.maps[i]), "individual maps")
			multimap.write_map(fn, mm*2); ctx.eq(np.array(multimap.read_map(fn)), keep*2, "overwritten")
			if all(GEOS[n][0][0] > 1 for n in names):
				s = multimap.read_map(fn, sel=(Ellipsis,slice(1,None),slice(None,2)))
				for i in range(len(names)): ctx.eq(np.array(s.maps[i]), 2*np.array(mm.maps[i])[...,1:,:2], "selection")

def unit_empty(ctx, items):
	with ctx.case("no maps"):
		for mm in (multimap.multimap([]), multimap.zeros([]), multimap.empty([]), multimap.full([],1)):
			ctx.check(mm.nmap == 0 and len(mm.maps) == 0 and mm.ntot == 0 and list(mm.maps) == [] and mm.shape == (0,), "empty")

def units(tier):
	q = tier == "quick"
	nop = 16; d = 3 if q else 4
	hs = [SETS[1],SETS[2],SETS[4]] if q else SETS
	u  = chunked("history", [(s,p,d,f) for s in hs for p in (((),(2,)) if q else ((),(2,),(2,3))) for f in range(nop)], unit_hist, 24)
	u += chunked("build", [(s,p,dt) for s in SETS for p in ((),(2,),(3,),(2,3)) for dt in (np.float64,np.float32)], unit_build, 12)
	u += chunked("files", [(s,p,dt) for s in SETS for p in ((),(2,),(2,3)) for dt in (np.float64,np.float32,np.int32)], unit_io, 4)
	u += [("empty", unit_empty, [])]
	return u
