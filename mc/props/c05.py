"""C05: strided box and range algebra equals the operation on the expanded index sets."""
import numpy as np, itertools
from pixell import utils
from ..core import chunked

RULE   = "every strided box with start, stop, step in the bounds; pairs of them; every period/cap; every list of up to 3 ranges on a short line; oracle: expand to explicit index lists"
BOUNDS = "starts/stops in [-7,9], |step|<=3, periods <= 7, up to 3 ranges with ends in [0,6] and 2-dimensional boxes"
ASSUME = ["boxes run in the direction of their step (possibly empty)", "array caps do not exceed the period"]

def expand(s): return list(range(int(s[0]), int(s[1]), int(s[2]) if len(s) > 2 else 1))
def boxes(lo, hi, steps):
	for a in range(lo,hi+1):
		for b in range(lo,hi+1):
			for s in steps:
				if (b-a)*s >= 0: yield (a,b,s)

def unit_single(ctx, items):
	arr = np.arange(100,112)
	for s in items:
		with ctx.case("sbox-single", box=s):
			e = expand(s)
			inp = np.array(s)
			fx = utils.sbox_fix(inp)
			ctx.eq(inp.tolist(), list(s), "normalising does not change its argument")
			ctx.eq(expand(fx), e, "sbox_fix keeps the indices")
			ctx.eq((int(fx[1])-int(fx[0])) % int(fx[2]), 0, "sbox_fix gives whole steps")
			ctx.eq(int(utils.sbox_size(np.array(s))), len(e), "sbox_size")
			fl = utils.sbox_flip(utils.sbox_fix(np.array(s)))
			ctx.eq(expand(fl), e[::-1], "sbox_flip reverses")
			if s[2] == 1: ctx.eq(expand(utils.sbox_fix(np.array(s[:2]))), e, "step defaults to 1")
			if len(e) == 0 or (min(e) >= 0 and max(e) < len(arr)):
				if len(e) > 0 or (s[0] >= 0 and s[1] >= 0):
					ctx.eq(arr[utils.sbox2slice(np.array([utils.sbox_fix(np.array(s))]))], arr[e] if e else arr[:0], "sbox2slice")
			# list and batched forms
			ctx.eq([int(v) for v in utils.sbox_size(np.array([[s,s]]))[0]], [len(e)]*2, "sbox_size batched")

def unit_pairs(ctx, items):
	others = list(boxes(-2,7,(1,2,3,-1,-2)))
	for a in items:
		ea = expand(a)
		for b in others:
			eb = expand(b)
			with ctx.case("sbox-intersect", a=a, b=b):
				res = utils.sbox_intersect_1d(np.array(a), np.array(b))
				got = sum([expand(r) for r in res], [])
				ctx.eq(sorted(got), sorted(set(ea)&set(eb)), "intersection")
				ctx.check(all(r[2] > 0 for r in res), "positive step")
			if a[0] >= 0 and a[1] >= -1 and len(ea):
				# composition: arr[a][b]
				if all(0 <= i < len(ea) for i in eb) and b[0] >= 0:
					with ctx.case("sbox-mul", a=a, b=b):
						c = utils.sbox_mul(np.array(a), np.array(b))
						ctx.eq(expand(c), [ea[i] for i in eb], "composition")
			if len(ea) and len(eb) and set(ea) <= set(eb) and abs(a[2]) % abs(b[2]) == 0:
				with ctx.case("sbox-div", a=a, b=b):
					c = utils.sbox_div(np.array(a), np.array(b))
					ctx.eq([eb[i] for i in expand(c)], ea, "division: arr[b][c] is arr[a]")

def unit_wrapinter(ctx, items):
	for w, a in items:
		ea = expand(a)
		for b in boxes(-3,w+3,(1,2,3,-1)):
			eb = expand(b)
			# boxes that cover the circle at most once
			if abs(a[1]-a[0]) > w or abs(b[1]-b[0]) > w or not ea or not eb: continue
			with ctx.case("sbox-intersect-wrap", a=a, b=b, wrap=w):
				res = utils.sbox_intersect_1d(np.array(a), np.array(b), wrap=w)
				got = sorted(i % w for r in res for i in expand(r))
				ctx.eq(got, sorted(set(i%w for i in ea)&set(i%w for i in eb)), "periodic intersection")

def ref_wrap(box, w, c):
	out = []
	for k, i in enumerate(expand(box)):
		if w: i = i % w
		if c and not (0 <= i < c): continue
		out.append((k,i))
	return out

def unit_wrap(ctx, items):
	for w, c, lo, hi in items:
		for s in boxes(lo,hi,(1,2,3,-1,-2,-3)):
			with ctx.case("sbox-wrap", box=s, wrap=w, cap=c):
				inp = np.array([s])
				res = utils.sbox_wrap(inp, wrap=w, cap=c)
				ctx.eq(inp.tolist(), [list(s)], "argument unchanged")
				got = []
				for ib, ob in res:
					ei, eo = expand(ib[0]), expand(ob[0])
					ctx.eq(len(ei), len(eo), "input and output pieces have the same length")
					got += list(zip(eo,ei))
				ctx.eq(sorted(got), sorted(ref_wrap(s,w,c)), "pieces")
			if s[2] == 1:
				with ctx.case("sbox-wrap-nostep", box=s, wrap=w, cap=c):
					got = [p for ib, ob in utils.sbox_wrap(np.array([s[:2]]), wrap=w, cap=c) for p in zip(expand(ob[0]),expand(ib[0]))]
					ctx.eq(sorted(got), sorted(ref_wrap(s,w,c)), "pieces")

def unit_wrap2d(ctx, items):
	bx = [(-2,3,1),(1,5,2),(4,-2,-1),(3,4,1),(5,-3,-3),(-7,9,1)]
	for (wy,cy),(wx,cx) in items:
		for sy, sx in itertools.product(bx,bx):
			with ctx.case("sbox-wrap2d", box=[sy,sx], wrap=[wy,wx], cap=[cy,cx]):
				got = []
				for ib, ob in utils.sbox_wrap(np.array([sy,sx]), wrap=[wy,wx], cap=[cy,cx]):
					got += [(oy,ox,iy,ix) for (oy,iy) in zip(expand(ob[0]),expand(ib[0])) for (ox,ix) in zip(expand(ob[1]),expand(ib[1]))]
				want = [(oy,ox,iy,ix) for (oy,iy) in ref_wrap(sy,wy,cy) for (ox,ix) in ref_wrap(sx,wx,cx)]
				ctx.eq(sorted(got), sorted(want), "pieces")
			with ctx.case("sbox-intersect2d", a=[sy,sx], b=[bx[1],bx[5]]):
				a, b = np.array([sy,sx]), np.array([bx[1],bx[5]])
				res = utils.sbox_intersect(a,b)
				got = sorted((y,x) for r in res for y in expand(r[0]) for x in expand(r[1]))
				want = sorted(itertools.product(sorted(set(expand(sy))&set(expand(bx[1]))), sorted(set(expand(sx))&set(expand(bx[5])))))
				ctx.eq(got, want, "2d intersection")

def rset(r): return set(i for a in r for i in range(int(a[0]),int(a[1])))
def unit_ranges(ctx, items):
	"""ranges over 0..5, all lists of up to 3 ranges"""
	n = 5
	allr = [(a,b) for a in range(n+1) for b in range(a+1,n+1)]
	def lists(maxn, disjoint):
		yield []
		for k in range(1,maxn+1):
			for combo in itertools.product(allr, repeat=k):
				if disjoint:
					c = sorted(combo)
					if any(c[i][1] > c[i+1][0] for i in range(k-1)): continue
				yield list(combo)
	which = items[0]
	if which == "union":
		for l in lists(3, False):
			with ctx.case("range_union", ranges=l):
				b, m = utils.range_union(np.array(l,int).reshape(-1,2), mapping=True)
				ctx.eq(rset(b), rset(l), "covered indices")
				ctx.check(all(b[i][1] < b[i+1][0] for i in range(len(b)-1)), "merged and sorted")
				for r, j in zip(l, m): ctx.check(b[j][0] <= r[0] and r[1] <= b[j][1], "mapping")
				ctx.eq(np.asarray(utils.range_union(np.array(l,int).reshape(-1,2))).tolist(), b.tolist(), "without mapping")
	elif which == "sub":
		la = list(lists(2, True)); lb = list(lists(3, True))
		# second operand order is irrelevant: keep sorted ones plus reversed
		lb = [l for l in lb if l == sorted(l) or l == sorted(l)[::-1]]
		la = la[items[1]::items[2]]
		for a in la:
			for b in lb:
				with ctx.case("range_sub", a=a, b=b):
					c, rm, ab = utils.range_sub(a, b, mapping=True)
					c0 = utils.range_sub(a, b)
					ctx.eq(np.asarray(c0).tolist(), np.asarray(c).tolist(), "same with and without mapping")
					ctx.eq(rset(c), rset(a)-rset(b), "difference")
					ctx.eq(sum(int(r[1]-r[0]) for r in c), len(rset(a)-rset(b)), "no overlaps")
					ctx.eq(len(rm), len(c), "one origin per piece")
					for r, j in zip(c, rm): ctx.check(a[j][0] <= r[0] and r[1] <= a[j][1], "origin")
					ctx.eq([int(v) for v in ab if v >= 0], list(range(len(c))), "pieces in order in the combined mapping")
	elif which == "cut":
		for a in lists(2, True):
			for k in range(4):
				for cuts in itertools.combinations(range(n+1), k):
					if not cuts or not a: continue
					with ctx.case("range_cut", a=a, cuts=cuts):
						c = utils.range_cut(a, list(cuts))
						want = []
						for r in sorted(a):
							pts = [r[0]] + [x for x in cuts if r[0] < x < r[1]] + [r[1]]
							want += [[p,q] for p,q in zip(pts[:-1],pts[1:])]
						ctx.eq(np.asarray(c).tolist(), want, "cut ranges")
	elif which == "misc":
		vals = range(-1,4)
		for k in range(0,4):
			for combo in itertools.product(itertools.product(vals,vals), repeat=k):
				if k == 3 and sum(map(sum,combo)) % 3: continue
				with ctx.case("range_normalize", ranges=combo):
					got = utils.range_normalize(np.array(combo,int).reshape(-1,2))
					ctx.eq(np.asarray(got).tolist(), [list(r) for r in combo if r[1] > r[0]], "non-empty increasing ranges")
		for k in range(0,11):
			for bits in itertools.product([False,True], repeat=k):
				with ctx.case("mask2range", mask=bits):
					r = utils.mask2range(np.array(bits,bool))
					ctx.eq(rset(r), set(np.where(bits)[0].tolist()) if k else set(), "members")
					ctx.check(all(r[i][1] < r[i+1][0] for i in range(len(r)-1)) and all(q[1]>q[0] for q in r), "maximal runs")
	elif which == "box":
		ends = [(a,b) for a in range(0,4) for b in range(a,4)]
		bl = [np.array([[a0,b0],[a1,b1]]) for (a0,a1) in ends for (b0,b1) in ends]
		for a in bl:
			for b in bl:
				with ctx.case("box_overlap", a=a, b=b):
					sa = set(itertools.product(range(a[0,0],a[1,0]),range(a[0,1],a[1,1])))
					sb = set(itertools.product(range(b[0,0],b[1,0]),range(b[0,1],b[1,1])))
					ctx.eq(int(utils.box_overlap(a,b)), len(sa&sb), "overlap area")
					ctx.eq(int(utils.box_area(a)), len(sa), "area")
		with ctx.case("box_overlap-batch"):
			A, B = np.array(bl[::7]), np.array(bl[::5])
			got = utils.box_overlap(A,B)
			want = [[int(utils.box_overlap(a,b)) for b in B] for a in A]
			ctx.eq(np.asarray(got).astype(int).tolist(), want, "batched overlap")
		for n, bs in itertools.product(range(0,13), range(1,6)):
			with ctx.case("expand_slice", n=n, step=bs):
				for a, b in itertools.product([None]+list(range(-n-2,n+3)), repeat=2):
					for st in (bs,-bs):
						s = slice(a,b,st)
						e = utils.expand_slice(s, n)
						ctx.eq(list(range(e.start,e.stop,e.step)), list(range(n))[s], "expand_slice %s" % s)

def units(tier):
	T = tier == "thorough"
	out  = chunked("single", list(boxes(-7,9,(1,2,3,-1,-2,-3))), unit_single, 4)
	out += chunked("pairs", list(boxes(-2,7,(1,2,3,-1,-2,-3))), unit_pairs, 16)
	out += chunked("wrapinter", [(w,a) for w in ((3,4,5,6,7) if T else (4,5,6)) for a in boxes(-3,w+3,(1,2,3,-1))], unit_wrapinter, 16)
	wc = [(w,c) for w in (0,3,4,5,6,7) for c in (0,1,2,3,4,5,6,7) if not (w and c > w)]
	lo, hi = (-9,14) if T else (-7,9)
	out += chunked("wrap", [(w,c,lo,hi) for w,c in wc], unit_wrap, 16)
	wc2 = [(0,0),(0,4),(4,4),(5,3),(4,0)]
	out += chunked("wrap2d", list(itertools.product(wc2,wc2)), unit_wrap2d, 6)
	out += [("ranges-"+w, unit_ranges, [w]) for w in ("union","cut","misc","box")]
	out += [("ranges-sub%d" % i, unit_ranges, ["sub",i,12]) for i in range(12)]
	return out
