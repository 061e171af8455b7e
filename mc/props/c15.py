"""C15: distributed operations on a simulated communicator, under every schedule."""
import numpy as np, itertools, os
from pixell import tilemap, enmap, utils, mpiutils, mpi
from .. import geo as G
from ..core import chunked
from ..simcomm import World, schedules, CommError

RULE   = "the real functions run on a simulated communicator whose ranks are threads under a controlled scheduler; every ownership pattern of input and output pieces within the bounds is run under two opposite schedules, and representative patterns under every schedule (2 ranks) or every schedule with a bounded number of deviations (3 ranks), with eager and with rendezvous sends; result compared with the same operation on the undivided data; deadlock, mismatched collective calls or message sizes are violations"
BOUNDS = "tile maps: 2 ranks x 3 tiles and 3 ranks x 2 tiles, every assignment of tiles to ranks on input and output; box redistribution: up to 3 ranks, lists of 1-3 strided boxes in a 4x6 array, with and without periodic wrapping; allgatherv of 0-2 rows on up to 3 ranks, all axes and data types"
ASSUME = ["every rank calls with the same data type and leading shape", "boxes cover each pixel of the circle at most once", "tree_reduce, which needs a library that is not part of the repository, is not covered"]

def rev(order): return order[::-1]
def both(n, fn, check):
	"""Two opposite schedules"""
	for pol in (None, rev):
		w = World(n, policy=pol); check(w.run(fn))

SHAPE, TS = {2:(1,4), 3:(3,3), 4:(3,4)}, {2:(1,2), 3:(3,1), 4:(2,2)}
def tgeo(nt, pre, act): return tilemap.geometry(pre+SHAPE[nt], G.mkwcs("CAR",[0,0],[-1,1],[2,2]), tile_shape=TS[nt], active=list(act))
def tdata(geo, rank, dt):
	m = tilemap.zeros(geo, dt)
	for g in geo.active:
		n = int(np.prod(m.tiles[int(g)].shape)); m.tiles[int(g)] = (np.arange(n).reshape(m.tiles[int(g)].shape)+1)*(10**rank)+1000*g
	return m

def check_tiles(ctx, maps, outs, want_act, nt, lab, inputs=None):
	tot = {}
	for m in maps:
		for i, g in enumerate(m.active): tot[int(g)] = tot.get(int(g),0)+np.asarray(m.active_tiles[i])
	for r, o in enumerate(outs):
		if want_act is not None: ctx.eq([int(a) for a in o.active], list(want_act[r]), lab+" tiles of rank")
		for i, g in enumerate(o.active):
			w = tot.get(int(g), 0); got = np.asarray(o.active_tiles[i])
			ctx.eq(got, np.zeros(got.shape,got.dtype)+w, lab+" tile")

def unit_tile(ctx, items):
	for nt, pre, dt, ina, outa in items:
		n = len(ina)
		maps = [tdata(tgeo(nt,pre,a), r, dt) for r, a in enumerate(ina)]; before = [m.copy() for m in maps]
		with ctx.case("tilemap.redistribute", nrank=n, ntile=nt, pre=pre, inputs=ina, outputs=outa):
			auto = np.array_split(sorted(set(sum([list(a) for a in ina],[]))), n)
			def chk(outs):
				check_tiles(ctx, before, outs, outa if outa is not None else [a.tolist() for a in auto], nt, "redistribute")
				for m, b in zip(maps, before): ctx.eq(np.asarray(m), np.asarray(b), "input unchanged")
			if outa is None: both(n, lambda c, r: tilemap.redistribute(maps[r], c), chk)
			else:
				both(n, lambda c, r: tilemap.redistribute(maps[r], c, active=list(outa[r])), chk)
				def giv(c, r):
					o = tilemap.full(tgeo(nt,pre,outa[r]), 77, dt); q = tilemap.redistribute(maps[r], c, omap=o); return q
				both(n, giv, chk)
		if outa is None:
			with ctx.case("tilemap.reduce", nrank=n, ntile=nt, pre=pre, inputs=ina):
				allact = sorted(set(sum([list(a) for a in ina],[])))
				for root in range(n):
					both(n, lambda c, r: tilemap.reduce(maps[r], c, root=root), lambda outs: check_tiles(ctx, before, outs, [allact if r == root else [] for r in range(n)], nt, "reduce"))
				both(n, lambda c, r: [int(v) for v in tilemap.get_active_distributed(maps[r], c)], lambda outs: ctx.eq(outs, [allact]*n, "active anywhere"))
				f = os.path.join(ctx.wdir, "m%d.fits" % os.getpid())
				if allact:
					def wr(outs):
						m = enmap.read_map(f); w = np.zeros(pre+SHAPE[nt])
						for b in before: w += np.asarray(tilemap.to_enmap(b))
						ctx.eq(np.asarray(m), w, "written map"); os.remove(f)
					both(n, lambda c, r: tilemap.write_map(f, maps[r], c), wr)

def unit_tile_sched(ctx, items):
	for nt, pre, ina, outa, bound in items:
		n = len(ina); maps = [tdata(tgeo(nt,pre,a), r, np.float64) for r, a in enumerate(ina)]
		with ctx.case("tilemap.redistribute schedules", nrank=n, ntile=nt, inputs=ina, outputs=outa, bound=bound):
			k = schedules(n, lambda c, r: tilemap.redistribute(maps[r], c, active=None if outa is None else list(outa[r])), lambda outs, ch: check_tiles(ctx, maps, outs, outa, nt, "schedule %s" % (ch,)), bound=bound)
			ctx.check(k > 1, "several schedules", k); ctx.transitions += k

# --- boxes
def expand(b): return list(range(*[int(v) for v in b]))
def box_case(ctx, n, ins, outs, pre, wrap, dt, runner, neg_ok=True):
	gshape = (4,6)
	garr = (np.arange(int(np.prod(pre+gshape))).reshape(pre+gshape)+1).astype(dt)
	idx = lambda e, s: np.array(e)%s if wrap else np.array(e)
	def sel(b): return (Ellipsis,)+np.ix_(np.array(expand(b[0]),int)%4, np.array(expand(b[1]),int)%6)
	have = np.zeros(gshape,bool)
	for L in ins:
		for b in L: have[sel(b)] = True
	iarrs = [[np.array(garr[sel(b)]) for b in L] for L in ins]
	want = [[np.where(have[sel(b)], garr[sel(b)], 0) for b in L] for L in outs]
	def fn(c, r): return utils.redistribute([a.copy() for a in iarrs[r]], np.array(ins[r]), np.array(outs[r]), c, wrap=wrap)
	def chk(res, ch=None):
		for r in range(n):
			ctx.eq(len(res[r]), len(want[r]), "number of arrays")
			for g, w in zip(res[r], want[r]): ctx.eq(np.asarray(g), w, "rank %d" % r); ctx.eq(g.dtype, np.dtype(dt), "dtype")
	runner(n, fn, chk)

def unit_box(ctx, items):
	for ins, outs, pre, wrap, dt in items:
		with ctx.case("utils.redistribute", nrank=len(ins), ins=ins, outs=outs, pre=pre, wrap=wrap):
			box_case(ctx, len(ins), ins, outs, pre, wrap, dt, both)
def unit_box_sched(ctx, items):
	for ins, outs, bound in items:
		with ctx.case("utils.redistribute schedules", ins=ins, outs=outs, bound=bound):
			def runner(n, fn, chk):
				k = schedules(n, fn, chk, bound=bound); ctx.check(k > 1, "several schedules", k); ctx.transitions += k
			box_case(ctx, len(ins), ins, outs, (), 0, np.float64, runner)

# --- simple collectives
DTS = [np.float64, np.float32, np.int32, bool, np.complex128, "S3", "U3"]
def vals(shape, dt, off=0):
	n = int(np.prod(shape)); a = np.arange(n)+1+off
	if dt in ("S3","U3"): return np.array([("%d" % v).encode() if dt == "S3" else "%d" % v for v in a%1000]+([b"x"] if dt == "S3" else ["x"]), dt)[:n].reshape(shape)
	if dt is bool: return (a%3 == 0).reshape(shape)
	return a.astype(dt).reshape(shape)
def unit_coll(ctx, items):
	for n, lens in items:
		for dt in DTS:
			with ctx.case("allgatherv", nrank=n, lens=lens, dtype=str(dt)):
				for tail, axis in (((),0),((2,),0),((2,),1),((2,3),0),((2,3),1),((2,3),2),((2,3),-1),((2,),-1)):
					ndim = len(tail)+1; ax = axis%ndim
					if dt in ("S3","U3") and tail: continue
					shp = [tail[:ax]+(l,)+tail[ax:] for l in lens]
					arrs = [vals(s, dt, 10*r) for r, s in enumerate(shp)]
					if sum(lens) == 0: continue
					want = np.concatenate(arrs, axis)
					def chk(res):
						for r in range(n): ctx.eq(np.asarray(res[r]), want, "allgatherv"); ctx.eq(res[r].dtype, want.dtype, "dtype")
					both(n, lambda c, r: utils.allgatherv(arrs[r], c, axis=axis), chk)
					both(n, lambda c, r: utils.allgatherv(arrs[r].tolist() if lens[r] == 0 and dt is np.float64 and not tail else arrs[r], c, axis=axis), chk)
				if dt is np.float64:
					mix = [vals((l,2), [np.int32,np.float64,np.float32][r%3], r) for r, l in enumerate(lens)]
					if sum(lens):
						dts = [m.dtype for m in mix if m.size]; want = np.concatenate([m for m in mix if m.size]).astype(np.result_type(*dts))
						both(n, lambda c, r: utils.allgatherv(mix[r], c), lambda res: [ctx.eq(np.asarray(x), want, "mixed types") for x in res])
			if len(set(lens)) == 1 and dt != "U3":
				with ctx.case("allgather", nrank=n, shape=lens[0], dtype=str(dt)):
					for s in ((lens[0],),(lens[0],2),()):
						arrs = [vals(s, dt, 10*r) for r in range(n)]
						if s == () and dt == "S3": continue
						both(n, lambda c, r: utils.allgather(arrs[r], c), lambda res: [ctx.eq(np.asarray(x), np.array(arrs), "allgather") for x in res])
				if dt not in (bool,"S3"):
					with ctx.case("reduce", nrank=n, shape=lens[0], dtype=str(dt)):
						for s in ((lens[0],),(lens[0],2),()):
							arrs = [vals(s, dt, 10*r) for r in range(n)]; tot = sum(arrs)
							before = [np.array(a) for a in arrs]
							both(n, lambda c, r: utils.allreduce(arrs[r], c), lambda res: [ctx.eq(np.asarray(x), np.asarray(tot), "allreduce") for x in res])
							both(n, lambda c, r: utils.allreduce(arrs[r], c, op=np.maximum) if dt is not np.complex128 else None, lambda res: [ctx.eq(np.asarray(x), np.max(arrs,0), "allreduce max") for x in res if x is not None])
							for root in range(n):
								def chk(res):
									for r, x in enumerate(res):
										if r == root: ctx.eq(np.asarray(x), np.asarray(tot), "reduce")
										else: ctx.check(x is None, "reduce: nothing on other ranks")
								both(n, lambda c, r: utils.reduce(arrs[r], c, root=root), chk)
								if dt is not np.complex128: both(n, lambda c, r: utils.reduce(arrs[r], c, root=root, op=np.maximum), lambda res: ctx.eq(np.asarray(res[root]), np.max(arrs,0), "reduce max"))
							for a, b in zip(arrs,before): ctx.eq(np.asarray(a), b, "inputs unchanged")

def unit_p2p(ctx, items):
	"""send/recv between ranks under every schedule, with eager and rendezvous sends"""
	for n, eager, order, dt in items:
		with ctx.case("send/recv", nrank=n, eager=eager, order=order, dtype=str(dt)):
			# every rank other than 0 sends two arrays (different tags); rank 0 receives in the given order
			arrs = {(r,k): vals((r+1,k+2), dt, 10*r+k) for r in range(1,n) for k in range(2)}
			def fn(c, r):
				if r == 0: return {o: utils.recv(c, source=o[0], tag=o[1]) for o in order}
				for k in (range(2) if eager else [o[1] for o in order if o[0] == r]): utils.send(arrs[r,k], c, dest=0, tag=k)
			def chk(res, ch):
				for o in order: ctx.eq(np.asarray(res[0][o]), arrs[o], "received"); ctx.eq(res[0][o].dtype, arrs[o].dtype, "dtype")
			k = schedules(n, fn, chk, eager=eager, bound=None if n == 2 else 2); ctx.check(k > 1, "several schedules", k); ctx.transitions += k

def unit_single(ctx, items):
	"""one rank: the placeholder communicator and a one-rank world give the same as a local copy"""
	W = lambda f: World(1).run(lambda c, r: f(c))[0]
	comms = [("fake", lambda f: f(mpiutils.FAKE_WORLD)), ("fresh", lambda f: f(mpiutils.FakeCommunicator())), ("sim", W)]
	if mpi.disabled: comms.append(("mpi.COMM_WORLD", lambda f: f(mpi.COMM_WORLD)))
	for name, run in comms:
		for dt in DTS:
			for s in ((3,),(2,3),(0,),(1,)):
				if dt in ("S3","U3") and len(s) > 1: continue
				a = vals(s, dt)
				with ctx.case("one rank", comm=name, dtype=str(dt), shape=s):
					if dt not in ("S3","U3",bool):
						r = run(lambda c: utils.allreduce(a, c)); ctx.eq(np.asarray(r), a, "allreduce"); ctx.check(not np.shares_memory(r,a) , "copy")
						r = run(lambda c: utils.reduce(a, c)); ctx.eq(np.asarray(r), a, "reduce")
					if dt != "U3": ctx.eq(run(lambda c: utils.allgather(a, c)), a[None], "allgather")
					for ax in range(len(s)): ctx.eq(np.asarray(run(lambda c: utils.allgatherv(a, c, axis=ax))), a, "allgatherv")
		for nt in (2,3,4):
			for pre in ((),(2,)):
				for act in itertools.chain.from_iterable(itertools.permutations(range(nt),k) for k in range(nt+1)):
					with ctx.case("one rank tilemap", comm=name, ntile=nt, pre=pre, active=act):
						m = tdata(tgeo(nt,pre,act), 0, np.float64)
						o = run(lambda c: tilemap.redistribute(m, c)); check_tiles(ctx, [m], [o], [sorted(act)], nt, "redistribute")
						o = run(lambda c: tilemap.redistribute(m, c, active=list(act)[::-1])); check_tiles(ctx, [m], [o], [list(act)[::-1]], nt, "redistribute")
						o = run(lambda c: tilemap.reduce(m, c)); check_tiles(ctx, [m], [o], [sorted(act)], nt, "reduce")
						ctx.eq([int(v) for v in run(lambda c: tilemap.get_active_distributed(m,c))], sorted(act), "active")
		if name != "sim":
			for ins, outs in [(L,M) for L in LISTS[:6] for M in LISTS[:6]]:
				with ctx.case("one rank boxes", comm=name, ins=ins, outs=outs):
					box_case(ctx, 1, [ins], [outs], (), 0, np.float64, lambda n, fn, chk: chk([run(lambda c: fn(c,0))]))

def unit_split(ctx, items):
	for data, n in items:
		with ctx.case("greedy_split", data=data, n=n):
			groups, cost, work = utils.greedy_split(list(data), n=n)
			ctx.eq(sorted(int(i) for g in groups for i in g), list(range(len(data))), "every item in exactly one group"); ctx.eq(len(groups), n, "number of groups")
			tot = [sum(data[int(i)] for i in g) for g in groups]; ctx.eq([float(w or 0) for w in work], [float(t) for t in tot], "work of each group")
			if len(data): ctx.eq(float(cost), float(max(tot)), "cost")
			best = sum(data)/n; lpt = max(best, max(data,default=0))
			ctx.check(max(tot) <= (4/3)*opt(data,n)+1e-9, "greedy bound", max(tot))
			g2 = utils.greedy_split_simple(np.array(data), n=n); ctx.eq(sorted(int(i) for g in g2 for i in g), list(range(len(data))), "simple: every item in exactly one group"); ctx.check(max(sum(data[int(i)] for i in g) for g in g2) <= (4/3)*opt(data,n)+1e-9, "simple: greedy bound")
def opt(data, n):
	return min(max(sum(d for d,a in zip(data,asg) if a == k) for k in range(n)) for asg in itertools.product(range(n),repeat=len(data)))

Y = [(0,4,1),(0,2,1),(2,4,1),(0,4,2),(3,-1,-1)]
X = [(0,6,1),(0,3,1),(3,6,1),(1,6,2),(5,-1,-2)]
LISTS = [[(Y[0],X[0])], [(Y[1],X[0])], [(Y[2],X[2])], [(Y[1],X[1]),(Y[2],X[2])], [(Y[2],X[1]),(Y[1],X[2])], [(Y[3],X[3]),(Y[4],X[1])], [(Y[4],X[4])], [(Y[1],X[2]),(Y[0],X[1]),(Y[2],X[3])], [(Y[3],X[0]),(Y[2],X[2])], [((1,1,1),(2,4,1)),(Y[0],X[2])]]
WL = [[((0,4,1),(0,6,1))], [((0,4,1),(4,8,1))], [((2,5,1),(-2,3,1))], [((0,2,1),(3,9,1)),((2,4,1),(0,3,1))], [((3,6,1),(5,7,1)),((0,1,1),(0,6,1))], [((0,4,1),(1,7,2))], [((-3,0,1),(-6,-2,1))], [((1,5,1),(2,8,3)),((0,4,2),(-1,3,1))], [((4,0,-1),(7,3,-1))]]

def units(tier):
	q = tier == "quick"; U = []
	subs = lambda nt: list(itertools.chain.from_iterable(itertools.combinations(range(nt),k) for k in range(nt+1)))
	T = []
	perm = lambda a, f: a[::-1] if f else a
	for ina in itertools.product(subs(3),repeat=2):
		for outa in [None]+list(itertools.product(subs(3),repeat=2)):
			i = len(T); T.append((3, ((),(2,),(2,3))[i%3] if q else (2,), np.float32 if i%5 == 0 else np.float64, [perm(a,(i+r)%2) for r,a in enumerate(ina)], None if outa is None else [perm(a,(i//2+r)%2) for r,a in enumerate(outa)]))
	for ina in itertools.product(subs(2),repeat=3):
		for outa in [None]+list(itertools.product(subs(2),repeat=3)):
			i = len(T); T.append((2, ((),(2,))[i%2], np.float64, [perm(a,(i+r)%2) for r,a in enumerate(ina)], None if outa is None else [perm(a,(i//2+r)%2) for r,a in enumerate(outa)]))
	if not q:
		for ina in itertools.product(subs(4),repeat=2):
			for outa in [None]+list(itertools.product(subs(4)[::3],repeat=2)): T.append((4,(2,),np.float64,list(ina),None if outa is None else list(outa)))
		for ina in itertools.product(subs(2),repeat=4): T.append((2,(),np.float64,list(ina),None))
	U += chunked("tiles", T, unit_tile, 16 if q else 48)
	S = [(3,(2,),i,o,None) for i in ([(0,1),(1,2)],[(),(2,0)],[(2,1,0),(1,)]) for o in (None,[(1,),(0,1)],[(0,1,2),()])]
	S += [(2,(),i,o,2 if q else 4) for i in ([(0,),(1,0),()],[(0,1),(0,1),(1,)]) for o in (None,[(1,),(0,1),()])]
	U += chunked("tile-schedules", S, unit_tile_sched, 8)
	B = []
	L = LISTS[1:7] if q else LISTS
	for a, b, c, d in itertools.product(L, repeat=4):
		i = len(B); B.append(([a,b],[c,d],((),(2,))[i%7 == 0], 0, np.float32 if i%6 == 1 else np.float64))
	for a, b, c in itertools.product(LISTS[1:5], repeat=3):
		for d in LISTS[2:8]: B.append(([a,b,c],[d,a,b],(),0,np.float64))
	for a, b, c, d in itertools.product(WL[1:6] if q else WL, repeat=4): B.append(([a,b],[c,d],(),(4,6),np.float64))
	for a, c in itertools.product(LISTS+WL, repeat=2): B.append(([a],[c],(3,),(4,6),np.int32))
	U += chunked("boxes", B, unit_box, 24 if q else 64)
	U += chunked("box-schedules", [([LISTS[3],LISTS[4]],[LISTS[0],LISTS[7]],2 if q else None), ([LISTS[1],LISTS[2],LISTS[8]],[LISTS[7],LISTS[0],LISTS[3]],1 if q else 2), ([LISTS[5],LISTS[0]],[LISTS[3],LISTS[4]],2 if q else None)], unit_box_sched, 3)
	C = [(n,l) for n in (1,2,3) for l in itertools.product((0,1,2),repeat=n)] + ([] if q else [(4,l) for l in itertools.product((0,1,2),repeat=4)])
	U += chunked("collectives", C, unit_coll, 8)
	P = []
	for n in (2,3):
		for order in itertools.permutations([(r,k) for r in range(1,n) for k in range(2)]):
			for dt in (np.float64,np.int32,bool): P += [(n,True,order,dt),(n,False,order,dt)] if dt is np.float64 else [(n,True,order,dt)]
	U += chunked("p2p", P, unit_p2p, 8)
	U += [("single", unit_single, [0])]
	U += chunked("split", [(d,n) for n in (1,2,3) for k in range(0,6 if q else 7) for d in itertools.combinations_with_replacement((1,2,3,5,8),k)], unit_split, 8)
	return U
