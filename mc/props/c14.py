"""C14: tiled maps against a dictionary of tiles, under every history of operations."""
import numpy as np, itertools
from pixell import tilemap, enmap, wcsutils
from .. import geo as G
from ..core import chunked

RULE   = "explicit-state exploration: from every start (geometry x leading shape x ordered active lists of two maps) every sequence of operations up to the depth is executed on the real TileMap and on a model (dictionary tile number -> array, ordered list of active tiles; views are views in both), comparing both maps after every operation; plus every geometry/active list for the static structure"
BOUNDS = "maps up to 5x7 pixels, 1 to 9 tiles including partial and oversized ones, leading shapes (), (2,), (2,3); active lists of up to 3 tiles in any order; operation alphabet of about 30; depth 2 from every start and 3 from one (thorough: from 14)"
ASSUME = ["floating point maps", "active lists without repeats", "arithmetic through the operators (not through explicit calls of numpy functions on two maps with different tiles)", "leading axes are reduced by indexing rather than by numpy reductions"]

GEOS = {
	"4x5/2x2":  ((4,5),(2,2), ("CAR",[10,0],[-1,1],[4,3])),
	"5x7/2x3":  ((5,7),(2,3), ("CAR",[10,0],[-1,1],[4,3])),
	"3x4/5x9":  ((3,4),(5,9), ("CAR",[0,0],[1,1],[2.5,1.5])),
	"4x6/4x2":  ((4,6),(4,2), ("TAN",[50,30],[-1,1],[4,3.5])),
	"3x3/1x1":  ((3,3),(1,1), ("CAR",[0,0],[-1,1],[2,2])),
	"6x4/3x4":  ((6,4),(3,4), ("CAR",[0,0],[-1,-1],[2,2])),
	"1x5/2x2":  ((1,5),(2,2), ("CAR",[0,0],[-1,1],[2,2])),
}

class Model:
	"""Dictionary of tiles"""
	def __init__(self, name, pre, active, tiles, dtype):
		self.name, self.pre, self.active, self.tiles, self.dtype = name, tuple(pre), list(active), dict(tiles), np.dtype(dtype)
		(self.ny,self.nx), (self.ty,self.tx), _ = GEOS[name]
		self.gx = -(-self.nx//self.tx); self.gy = -(-self.ny//self.ty); self.ntile = self.gx*self.gy
	def box(self, g):
		y, x = g//self.gx*self.ty, g%self.gx*self.tx
		return y, min(y+self.ty,self.ny), x, min(x+self.tx,self.nx)
	def tshape(self, g):
		y1,y2,x1,x2 = self.box(g); return (y2-y1,x2-x1)
	def new(self, pre=None, active=None, tiles=None, dtype=None):
		return Model(self.name, self.pre if pre is None else pre, self.active if active is None else active, self.tiles if tiles is None else tiles, self.dtype if dtype is None else dtype)
	def copy(self): return self.new(tiles={g:t.copy() for g,t in self.tiles.items()})
	def zero(self, g, pre=None, dtype=None): return np.zeros((self.pre if pre is None else pre)+self.tshape(g), self.dtype if dtype is None else dtype)
	def dense(self):
		o = np.zeros(self.pre+(self.ny,self.nx), self.dtype)
		for g, t in self.tiles.items():
			y1,y2,x1,x2 = self.box(g); o[...,y1:y2,x1:x2] = t
		return o
	def flat(self):
		return np.concatenate([self.tiles[g].reshape(self.pre+(-1,)) for g in self.active],-1) if self.active else np.zeros(self.pre+(0,),self.dtype)

class Err(Exception): pass

def start(name, pre, act, dtype=np.float64, seed=0):
	shape, tshape, w = GEOS[name]
	m = Model(name, pre, act, {}, dtype)
	for g in act:
		n = int(np.prod(pre+m.tshape(g)))
		m.tiles[g] = ((np.arange(n)*(seed+1)+7*g+1+seed*3)%23+1).astype(dtype).reshape(pre+m.tshape(g))
	geo = tilemap.geometry(pre+shape, G.mkwcs(*w), tile_shape=tshape, active=act)
	r = tilemap.zeros(geo, dtype=dtype)
	for g in act: r.tiles[g] = m.tiles[g]
	return r, m

def mbin(f, a, b):
	"""binary operator of the model"""
	pre = np.broadcast_shapes(a.pre, b.pre)
	if a.active == b.active: return a.new(pre=pre, tiles={g: f(a.tiles[g], b.tiles[g]) for g in a.active}, dtype=f(np.ones(1,a.dtype),np.ones(1,b.dtype)).dtype)
	dt = np.result_type(a.dtype,b.dtype); act = sorted(set(a.active)|set(b.active)); out = {}
	for g in act:
		t = a.zero(g, pre, dt)
		if g in a.tiles: t[...] = a.tiles[g]
		if g in b.tiles: t = f(t, b.tiles[g])
		out[g] = np.array(np.broadcast_to(t, pre+a.tshape(g)), dt)
	return a.new(pre=pre, active=act, tiles=out, dtype=dt)
def mibin(f, a, b):
	if set(b.active)-set(a.active): raise Err
	if np.broadcast_shapes(a.pre,b.pre) != a.pre: raise Err
	for g in b.active: f(a.tiles[g], b.tiles[g])
	return a
def mwith(a, act, strict):
	new = list(act) if strict else a.active+[g for g in act if g not in a.tiles]
	return a.new(active=new, tiles={g: a.tiles[g].copy() if g in a.tiles else a.zero(g) for g in new})
def mindex(a, sel):
	t = {g: a.tiles[g][sel] for g in a.active}
	pre = np.zeros(a.pre+(1,1))[sel].shape[:-2]
	return a.new(pre=pre, tiles=t)
def rpow(a,b): return a**b

# An operation: name -> (real(S), model(M)), where S is a dictionary of the two maps
def OPS(name, pre):
	o = {}
	nt = Model(name,(),[],{},float).ntile
	def op(n, real, model): o[n] = (real, model)
	def setA(fr, fm): return (lambda S: S.update(A=fr(S)), lambda S: S.update(A=fm(S)))
	op("A=A+B", *setA(lambda S: S["A"]+S["B"], lambda S: mbin(np.add,S["A"],S["B"])))
	op("A=A-B", *setA(lambda S: S["A"]-S["B"], lambda S: mbin(np.subtract,S["A"],S["B"])))
	op("A=A*B", *setA(lambda S: S["A"]*S["B"], lambda S: mbin(np.multiply,S["A"],S["B"])))
	op("A=B-A", *setA(lambda S: S["B"]-S["A"], lambda S: mbin(np.subtract,S["B"],S["A"])))
	def ri(f):
		def g(S): S["A"] = f(S["A"],S["B"])
		return g
	def radd(a,b): a += b; return a
	def rsub(a,b): a -= b; return a
	def rmul(a,b): a *= b; return a
	op("A+=B", ri(radd), lambda S: mibin(lambda x,y: np.add(x,y,out=x,casting="same_kind"),S["A"],S["B"]))
	op("A-=B", ri(rsub), lambda S: mibin(lambda x,y: np.subtract(x,y,out=x,casting="same_kind"),S["A"],S["B"]))
	op("A*=B", ri(rmul), lambda S: mibin(lambda x,y: np.multiply(x,y,out=x,casting="same_kind"),S["A"],S["B"]))
	op("A=2*A+1", *setA(lambda S: 2*S["A"]+1, lambda S: S["A"].new(tiles={g:2*t+1 for g,t in S["A"].tiles.items()})))
	def rsc(S): S["A"] -= 3
	def msc(S):
		for t in S["A"].tiles.values(): t -= 3
	op("A-=3", rsc, msc)
	op("A=-A", *setA(lambda S: -S["A"], lambda S: S["A"].new(tiles={g:-t for g,t in S["A"].tiles.items()})))
	op("with(B)", *setA(lambda S: S["A"].with_tiles(S["B"]), lambda S: mwith(S["A"],S["B"].active,False)))
	op("with(B,strict)", *setA(lambda S: S["A"].with_tiles(S["B"],strict=True), lambda S: mwith(S["A"],S["B"].active,True)))
	for lst in sorted({(), (0,), (nt-1,0) if nt > 1 else (0,), tuple(range(min(3,nt)))}):
		op("with(%s)"%(lst,), *setA(lambda S,l=lst: S["A"].with_tiles(list(l)), lambda S,l=lst: mwith(S["A"],l,False)))
		op("with(%s,strict)"%(lst,), *setA(lambda S,l=lst: S["A"].with_tiles(list(l),strict=True), lambda S,l=lst: mwith(S["A"],l,True)))
	op("with(all)", *setA(lambda S: S["A"].with_tiles("all"), lambda S: mwith(S["A"],range(nt),False)))
	op("with(all,strict)", *setA(lambda S: S["A"].with_tiles("all",strict=True), lambda S: mwith(S["A"],range(nt),True)))
	op("A=copy", *setA(lambda S: S["A"].copy(), lambda S: S["A"].copy()))
	op("A=contig", *setA(lambda S: S["A"].copy().contig(), lambda S: S["A"].copy()))
	op("B=A", lambda S: S.update(B=S["A"][...]), lambda S: S.update(B=S["A"].new()))
	op("swap", lambda S: S.update(A=S["B"],B=S["A"]), lambda S: S.update(A=S["B"],B=S["A"]))
	def rset(g, v):
		def f(S): S["A"].tiles[g] = v
		return f
	def mset(g, v):
		def f(S):
			if g not in S["A"].tiles: raise Err
			S["A"].tiles[g][...] = v
		return f
	for g in sorted({0, nt-1, nt//2}): op("tiles[%d]=9"%g, rset(g,9), mset(g,9))
	def rsub2(S): S["A"].active_tiles[0,...,0,:] = 5
	def msub2(S):
		if not S["A"].active: raise Err
		S["A"].tiles[S["A"].active[0]][...,0,:] = 5
	op("active[0,..,0,:]=5", rsub2, msub2)
	def rlast(S): t = S["A"].active_tiles[S["A"].nactive-1]; t *= 2
	def mlast(S):
		if not S["A"].active: raise Err
		t = S["A"].tiles[S["A"].active[-1]]; t *= 2
	op("active[last]*=2", rlast, mlast)
	def rneg(S): t = S["A"].active_tiles[-1]; t += 2
	def mneg(S):
		if not S["A"].active: raise Err
		t = S["A"].tiles[S["A"].active[-1]]; t += 2
	op("active[-1]+=2", rneg, mneg)
	def riter(S):
		for i, t in enumerate(S["A"].tiles):
			if t is not None: t += i
	def miter(S):
		for g, t in S["A"].tiles.items(): t += g
	op("iterate", riter, miter)
	op("insert(B)", *setA(lambda S: S["A"].insert(S["B"]), lambda S: mbin(lambda a,b: b.copy(),S["A"],S["B"]) if S["A"].pre == S["B"].pre else _raise()))
	op("insert(B,2a+b)", *setA(lambda S: tilemap.insert(S["A"],S["B"],op=lambda a,b:2*a+b), lambda S: mbin(lambda a,b: 2*a+b,S["A"],S["B"])))
	op("from_tiles", *setA(lambda S: tilemap.from_tiles(list(S["A"].tiles), S["A"].geometry), lambda S: S["A"].copy().new(active=sorted(S["A"].active)) if S["A"].active else _raise()))
	op("from_active", *setA(lambda S: tilemap.from_active_tiles(list(S["A"].active_tiles), S["A"].geometry), lambda S: S["A"].copy() if S["A"].active else _raise()))
	if len(pre) >= 1:
		op("A=A[0]", *setA(lambda S: S["A"][0], lambda S: mindex(S["A"],(0,)) if S["A"].pre else _raise()))
		op("A=A[::-1]", *setA(lambda S: S["A"][::-1], lambda S: mindex(S["A"],(slice(None,None,-1),)) if S["A"].pre else _raise()))
		op("A=A[[1,0,1]]", *setA(lambda S: S["A"][[1,0,1]], lambda S: mindex(S["A"],([1,0,1],)) if S["A"].pre and S["A"].pre[0] > 1 else _raise()))
	op("A=A[None]", *setA(lambda S: S["A"][None], lambda S: mindex(S["A"],(None,)) if len(S["A"].pre) < 3 else _raise()))
	return o
def _raise(): raise Err

def skip(name, M):
	"""Operations outside the claim in this state"""
	A, B = M["A"], M["B"]
	if "B" in name and name not in ("B=A","swap") and "with" not in name:
		try: np.broadcast_shapes(A.pre, B.pre)
		except ValueError: return True
	if name == "insert(B)" and A.pre != B.pre: return True
	if name in ("from_tiles","from_active") and not A.active: return True
	if name in ("A=A[0]","A=A[::-1]") and not A.pre: return True
	if name == "A=A[[1,0,1]]" and not (A.pre and A.pre[0] > 1): return True
	if name == "A=A[None]" and len(A.pre) >= 3: return True
	# a in-place operation between overlapping views in numpy is fine, but overflow is not
	if A.active and max(np.max(np.abs(t),initial=0) for t in A.tiles.values()) > 1e5: return name in ("A=A*B","A*=B")
	return False

def compare(ctx, r, m, lab):
	ctx.eq(isinstance(r, tilemap.TileMap), True, lab+" type")
	geo = r.geometry
	ctx.eq([int(a) for a in geo.active], m.active, lab+" active")
	ctx.eq([int(a) for a in geo.lookup], [m.active.index(g) if g in m.tiles else -1 for g in range(m.ntile)], lab+" lookup")
	ctx.eq(tuple(geo.shape), m.pre+(m.ny,m.nx), lab+" logical shape"); ctx.eq(tuple(r.pre), m.pre, lab+" pre")
	ctx.eq(r.dtype, m.dtype, lab+" dtype")
	ctx.eq(np.asarray(r), m.flat(), lab+" data")
	ctx.eq(int(geo.size), m.flat().size, lab+" size"); ctx.eq([r.nactive,r.ntile,len(r.tiles),len(r.active_tiles)], [len(m.active),m.ntile,m.ntile,len(m.active)], lab+" counts")

def full_compare(ctx, r, m, lab, wref):
	compare(ctx, r, m, lab)
	for g in range(m.ntile):
		t = r.tiles[g]
		if g not in m.tiles: ctx.check(t is None, lab+" inactive tile is None"); continue
		ctx.eq(np.asarray(t), m.tiles[g], lab+" tile"); wcheck(ctx, t.wcs, wref, m, g)
	for i, g in enumerate(m.active): ctx.eq(np.asarray(r.active_tiles[i]), m.tiles[g], lab+" active tile")
	it = list(r.tiles); ctx.eq(len(it), m.ntile, lab+" iteration")
	for g, t in enumerate(it):
		if g not in m.tiles: ctx.check(t is None, lab+" iteration: inactive"); continue
		ctx.eq(np.asarray(t), m.tiles[g], lab+" iteration"); wcheck(ctx, t.wcs, wref, m, g)
	it = list(r.active_tiles); ctx.eq(len(it), len(m.active), lab+" active iteration")
	for g, t in zip(m.active, it): ctx.eq(np.asarray(t), m.tiles[g], lab+" active iteration"); wcheck(ctx, t.wcs, wref, m, g)
	e = tilemap.to_enmap(r); ctx.eq(np.asarray(e), m.dense(), lab+" to_enmap"); ctx.check(wcsutils.equal(e.wcs, wref), lab+" to_enmap wcs"); ctx.eq(e.dtype, m.dtype, "to_enmap dtype")

def wcheck(ctx, w, wref, m, g):
	y1,y2,x1,x2 = m.box(g)
	ctx.check(list(w.wcs.ctype) == list(wref.wcs.ctype) and np.allclose(w.wcs.cdelt,wref.wcs.cdelt,atol=1e-12) and np.allclose(w.wcs.crval,wref.wcs.crval,atol=1e-12) and np.allclose(w.wcs.crpix, wref.wcs.crpix-np.array([x1,y1]),atol=1e-9), "tile geometry")

def unit_hist(ctx, items):
	for name, pre, actA, actB, preB, dtB, (k0,n0), depth in items:
		ops = OPS(name, pre); wref = G.mkwcs(*GEOS[name][2])
		def fresh():
			a, ma = start(name, pre, list(actA)); b, mb = start(name, preB, list(actB), dtB, seed=1)
			return dict(A=a,B=b), dict(A=ma,B=mb)
		seen = {}
		def key(M): return tuple((m.pre, tuple(m.active), m.dtype.str, m.flat().tobytes()) for m in (M["A"],M["B"])) + (alias(M),)
		def alias(M): return any(np.shares_memory(x,y) for x in M["A"].tiles.values() for y in M["B"].tiles.values() if x.size and y.size)
		def run(hist):
			"""Execute a history, checking the last step. Returns False if it can't be extended"""
			with ctx.case("history", geometry=name, pre=pre, A=actA, B=actB, preB=preB, hist=hist):
				S, M = fresh()
				for i, h in enumerate(hist):
					if skip(h, M): return False
					last = i == len(hist)-1
					before = (np.asarray(S["A"]).copy(), S["A"].geometry.active.copy())
					try: ops[h][1](M); err = False
					except Err: err = True
					try: ops[h][0](S); rerr = None
					except (ValueError, IndexError, TypeError) as e: rerr = e
					if err != (rerr is not None):
						ctx.check(False, "%s: %s" % (h, "expected to be refused" if err else "failed with %r" % rerr))
					if last:
						if err: ctx.eq(np.asarray(S["A"]), before[0], "refused operation leaves the map unchanged")
						compare(ctx, S["A"], M["A"], h+" A"); compare(ctx, S["B"], M["B"], h+" B")
						k = key(M)
						if seen.get(k,99) <= len(hist): return False
						seen[k] = len(hist)
						if len(hist) < depth or len(hist) <= 1:
							full_compare(ctx, S["A"], M["A"], h+" A", wref); full_compare(ctx, S["B"], M["B"], h+" B", wref)
						# aliasing: maps share memory exactly when the model's do
						if len(hist) <= 2 or not ctx.quick:
							ctx.eq(bool(np.shares_memory(np.asarray(S["A"]),np.asarray(S["B"]))) , bool(alias(M)), "%s: sharing of memory between the two maps" % h)
				return True
			return False
		run(())
		front = [()]
		for d in range(depth):
			new = []
			for h in front:
				for io, o in enumerate(ops):
					if d == 0 and io%n0 != k0: continue
					if run(h+(o,)): new.append(h+(o,))
			front = new

def unit_static(ctx, items):
	for name, act in items:
		shape, ts, wd = GEOS[name]; w = G.mkwcs(*wd)
		for pre in ((),(2,),(2,3)):
			with ctx.case("geometry", geometry=name, active=act, pre=pre):
				m = Model(name, pre, list(act), {}, float)
				geo = tilemap.geometry(pre+shape, w, tile_shape=ts, active=list(act))
				ctx.eq([geo.ntile,tuple(geo.grid_shape),geo.nactive,tuple(geo.pre)], [m.ntile,(m.gy,m.gx),len(act),pre], "tile grid")
				cover = np.zeros(shape,int)
				for g in range(m.ntile):
					y1,y2,x1,x2 = m.box(g); cover[y1:y2,x1:x2] += 1
					tg = geo.tiles[g]; ctx.eq(tuple(tg.shape), pre+m.tshape(g), "tile shape"); wcheck(ctx, tg.wcs, w, m, g)
					ctx.eq(tuple(int(v) for v in geo.tile_shapes[g]), m.tshape(g), "tile_shapes"); ctx.eq(int(geo.npixs[g]), (y2-y1)*(x2-x1), "npixs")
					ctx.eq(tuple(int(v) for v in geo.ind2grid(g)), (g//m.gx,g%m.gx), "ind2grid"); ctx.eq(int(geo.grid2ind(*geo.ind2grid(g))), g, "grid2ind")
				ctx.check(np.all(cover==1), "tiles partition the map")
				ctx.eq(int(geo.size), int(np.prod(pre))*sum(np.prod(m.tshape(g)) for g in act), "size"); ctx.check(float(geo.size) == geo.size and isinstance(geo.size,(int,np.integer)), "integer size")
				c = geo.copy(); ctx.eq(c.compatible(geo), 2, "copy is compatible"); c.active[...] = 0; c.lookup[...] = 7; ctx.eq([int(a) for a in geo.active], list(act), "copy is independent")
				for other in ([],[0],[m.ntile-1],list(range(m.ntile)),"all"):
					ol = list(range(m.ntile)) if other == "all" else other
					c = geo.copy(active=other); ctx.eq([int(a) for a in c.active], ol, "copy with other tiles"); ctx.eq([int(c.lookup[g]) for g in range(m.ntile)], [ol.index(g) if g in ol else -1 for g in range(m.ntile)], "lookup")
					u = list(act)+[g for g in ol if g not in act]; c2 = geo.copy(add_active=other); ctx.eq([int(a) for a in c2.active], u, "copy with added tiles"); ctx.eq([int(c2.lookup[g]) for g in range(m.ntile)], [u.index(g) if g in u else -1 for g in range(m.ntile)], "lookup")
					ctx.eq(geo.compatible(c), 2 if ol == list(act) else 1, "compatibility")
				ctx.eq(geo.copy(pre=(4,)).shape, (4,)+shape, "copy with other leading shape"); ctx.eq(geo.copy(pre=(4,)).compatible(geo), 2, "leading axes may differ")
				# incompatible logical geometries
				o1 = tilemap.geometry(pre+(shape[0]+1,shape[1]), w, tile_shape=ts, active=list(act)); ctx.eq(geo.compatible(o1), 0, "shape differs")
				o2 = tilemap.geometry(pre+shape, w, tile_shape=(ts[0]+1,ts[1]), active=[0]); ctx.eq(geo.compatible(o2), 0, "tile shape differs")
				w3 = w.deepcopy(); w3.wcs.crpix += 3; o3 = tilemap.geometry(pre+shape, w3, tile_shape=ts, active=list(act)); ctx.eq(geo.compatible(o3), 0, "wcs differs")
				for o in (o1,o2,o3): ctx.raises(lambda: tilemap.zeros(geo)+tilemap.zeros(o), ValueError, "incompatible maps can not be combined")
				# constructors
				for dt in (np.float32,np.float64,np.complex128):
					z = tilemap.zeros(geo,dt); ctx.check(np.all(np.asarray(z)==0) and z.dtype == dt, "zeros"); ctx.eq(z.shape, pre+(sum(int(np.prod(m.tshape(g))) for g in act),), "flat shape")
					f = tilemap.full(geo,4,dt); ctx.check(np.all(np.asarray(f)==4) and f.dtype == dt, "full"); e = tilemap.empty(geo,dt); ctx.check(e.shape == z.shape and e.dtype == dt, "empty")
				r, m = start(name, pre, list(act)); full_compare(ctx, r, m, "start", w)
				# access to subsets of tiles
				for i, g in enumerate(act):
					for view, n in ((r.active_tiles,i),(r.tiles,g),(r.active_tiles,i-len(act)),(r.tiles,g-m.ntile)):
						ctx.eq(np.asarray(view[n]), m.tiles[g], "tile"); wcheck(ctx, view[n].wcs, w, m, g); ctx.check(np.shares_memory(view[n],r), "tiles are views")
						for sel in ((Ellipsis,0,slice(None)),(Ellipsis,slice(None,None,-1),slice(0,1)),(Ellipsis,0,0)):
							ctx.eq(np.asarray(view[(n,)+sel]), m.tiles[g][sel], "part of tile")
				for n in (len(act), -len(act)-1): ctx.raises(lambda: r.active_tiles[n], IndexError, "no such active tile")
				ctx.raises(lambda: r.tiles[m.ntile], IndexError, "no such tile")
				for g in range(m.ntile):
					if g not in act:
						def f(): r.tiles[g] = 1
						ctx.raises(f, IndexError, "can not assign to an inactive tile")
				# operators between strictly compatible maps and with numbers
				s, ms = start(name, pre, list(act), seed=2)
				import operator as O
				for nm in ("add","sub","mul","truediv","floordiv","pow","lt","le","eq","ne","ge","gt"):
					f = getattr(O,nm)
					for lab, x, y, mx, my in (("maps",r,s,m.flat(),ms.flat()),("number",r,3.0,m.flat(),3.0)):
						if nm == "pow": y, my = 2, 2
						got = f(x,y); ctx.close(np.asarray(got), f(mx,my), 1e-12,1e-12,nm+" "+lab); ctx.check(isinstance(got,tilemap.TileMap) and tuple(got.pre) == pre and [int(a) for a in got.active] == list(act), "geometry kept")
				for nm in ("add","sub","mul","truediv"):
					f = getattr(O,nm); got = f(3.0,r); ctx.close(np.asarray(got), f(3.0,m.flat()), 1e-12,1e-12,nm+" reversed"); ctx.check(isinstance(got,tilemap.TileMap), "type")
				ib, mb = start(name, pre, list(act), np.int64); jb, mj = start(name, pre, list(act), np.int64, seed=2)
				for nm in ("and_","or_","xor"): ctx.eq(np.asarray(getattr(O,nm)(ib,jb)), getattr(O,nm)(mb.flat(),mj.flat()), nm)
				for nm in ("iand","ior","ixor","iadd","isub","imul","ifloordiv","ilshift","irshift"):
					x = ib.copy(); y = getattr(O,nm)(x,jb); ctx.eq(np.asarray(y), getattr(O,nm)(mb.flat().copy(),mj.flat()), nm); ctx.check(not act or np.shares_memory(x,y), "in place")
				x = r.copy(); x /= s; ctx.close(np.asarray(x), m.flat()/ms.flat(), 1e-12, 1e-12, "itruediv"); x = r.copy(); x **= 2; ctx.close(np.asarray(x), m.flat()**2, 1e-12,1e-12,"ipow")
				# matrix product
				if len(pre) == 1:
					mat, mm = start(name, (2,2), list(act), seed=3)
					got = tilemap.map_mul(mat, r); want = np.einsum("abi,bi->ai", mm.flat(), m.flat()); ctx.eq(np.asarray(got), want, "map_mul"); ctx.check(tuple(got.pre) == pre and isinstance(got,tilemap.TileMap), "map_mul geometry")
					one, mo = start(name, (), list(act), seed=4); ctx.eq(np.asarray(tilemap.map_mul(one, r)), mo.flat()*m.flat(), "map_mul by scalar field")
				# pixel-axis indexing degrades to a plain array
				if act: ctx.eq(np.asarray(r[...,0]), m.flat()[...,0], "pixel axis"); ctx.eq(np.asarray(r[...,::2]), m.flat()[...,::2], "pixel axis")
				back = tilemap.from_tiles([tilemap.to_enmap(r)[...,m.box(g)[0]:m.box(g)[1],m.box(g)[2]:m.box(g)[3]] if g in act else None for g in range(m.ntile)], geo) if act else None
				if act: ctx.eq(np.asarray(tilemap.to_enmap(back)), m.dense(), "round trip through an ordinary map")

def actives(name, kmax):
	nt = Model(name,(),[],{},float).ntile
	for k in range(kmax+1):
		for p in itertools.permutations(range(nt), k): yield p

BIG = [((2,0),(0,2)),((0,),(5,)),((4,1,5),(5,4)),((),(3,))]

def units(tier):
	q = tier == "quick"
	st = [(n,a) for n in GEOS for a in actives(n, 2 if q else 3)]
	U = chunked("static", st, unit_static, 8 if q else 32)
	H = []
	sets = {"4x5/2x2": [(),(0,),(5,),(2,0),(0,2),(4,1,5),(5,4),(3,)], "5x7/2x3": [(8,0),(4,),()], "3x4/5x9": [(),(0,)], "4x6/4x2": [(2,1),(1,),(0,1,2)], "1x5/2x2": [(2,),(1,2),(0,)]}
	if q: sets["4x5/2x2"] = [(),(0,),(2,0),(0,2),(4,1,5)]; sets["5x7/2x3"] = [(8,0),(4,)]; sets["4x6/4x2"] = [(2,1),(0,1,2)]; sets["1x5/2x2"] = [(2,),(1,2)]
	for n, ss in sets.items():
		for a in ss:
			for b in ss:
				for pre, preB in (((),()),((2,),(2,)),((2,),()),((),(2,)),((2,3),(3,))):
					big = n == "4x5/2x2" and pre == (2,) and preB == (2,) and (a,b) in (BIG[:1] if q else BIG)
					if q and not big and (pre,preB) != ((((2,),(2,)),((),()),((2,),()),((),(2,)),((2,3),(3,)))[(len(a)+2*len(b))%5]): continue
					d = (3 if big else 2) if q else (3 if big or n == "3x4/5x9" else 2)
					n0 = 14 if d >= 3 else 1
					for k0 in range(n0): H.append((n,pre,a,b,preB,np.float32 if (len(a)+len(b))%2 else np.float64,(k0,n0),d))
	H.sort(key=lambda h: -h[-1])
	return [u for u in chunked("hist", H, unit_hist, 32 if q else 96)] + U
