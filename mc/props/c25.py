"""C25: the attribute dictionary."""
import numpy as np, itertools, os, copy, pickle
from pixell import bunch
from pixell.bunch import Bunch
from ..core import chunked

RULE   = "every sequence of operations from an alphabet of item and attribute reads, writes and deletions, updates, copies and queries over a few keys and values, run in lock step with an ordinary dictionary (one dictionary per copy made on the way); every tree of nested bunches up to the bound written to and read back from disk, whole and by every partial path, through every way of naming the group; every pair and triple of values for concatenation"
BOUNDS = "histories of up to 4 (quick) or 5 operations of 20 kinds over 3 keys; trees of depth 3 with up to 2 entries per level over 11 leaf values"
ASSUME = ["keys are strings that are not names of the class's own methods or its internal storage", "leaf values are numbers, booleans, bytes and numeric arrays, in line with the module's own statement that not everything can be stored"]

OPS = [("setattr","a",1),("setattr","b",(2,)),("setitem","a","x"),("setitem","c",None),("setitem","b",3.5),("delattr","a"),("delattr","b"),("delitem","a"),("delitem","c"),("update",{"a":5,"d":6}),("update",{}),("update bunch",{"b":7}),("copy",),("copy.copy",),("deepcopy",),("pickle",),("construct",),("construct2",{"b":9}),("swap",),("augment","a")]
def compare(ctx, b, d, msg):
	ctx.check(len(b) == len(d), msg+" length"); ctx.check(list(b) == list(d) and list(b.keys()) == list(d) and list(b.items()) == list(d.items()) and list(b.iteritems()) == list(d.items()), msg+" contents and order: %s vs %s" % (list(b.items()),list(d.items())), state=str(d))
	for k in ("a","b","c","d","zz"):
		ctx.check((k in b) == (k in d), msg+" membership"); ctx.check(hasattr(b,k) == (k in d), msg+" hasattr"); ctx.check((k in dir(b)) == (k in d), msg+" dir")
		if k in d: ctx.check(b[k] is d[k] or b[k] == d[k], msg+" item"); ctx.check(getattr(b,k) is b[k], msg+" attribute is the item")
		else:
			ctx.raises(lambda: b[k], KeyError, msg+" missing item"); ctx.raises(lambda: getattr(b,k), AttributeError, msg+" missing attribute"); ctx.check(getattr(b,k,17) == 17, msg+" default")
	r = repr(b); ctx.check(r == "Bunch("+", ".join("%s=%r" % (k,d[k]) for k in sorted(d))+")", msg+" repr"); ctx.check(repr(eval(r)) == r, msg+" repr can be evaluated")
	ctx.check(dict(b) == d and dict(**b) == d, msg+" conversion to a dictionary")
def unit_hist(ctx, items):
	for init, seq in items:
		with ctx.case("history", init=init, ops=[OPS[o] for o in seq]):
			B = Bunch(init); D = dict(init); others = []; given = dict(init)
			for o in seq:
				op = OPS[o]; n = op[0]
				if n == "setattr": setattr(B,op[1],op[2]); D[op[1]] = op[2]
				elif n == "setitem": B[op[1]] = op[2]; D[op[1]] = op[2]
				elif n in ("delattr","delitem"):
					f = (lambda: delattr(B,op[1])) if n == "delattr" else (lambda: B.__delitem__(op[1]))
					if op[1] in D: f(); del D[op[1]]
					else: ctx.raises(f, (KeyError,AttributeError), "deleting a missing key")
				elif n == "update": B.update(op[1]); D.update(op[1])
				elif n == "update bunch": B.update(Bunch(op[1])); D.update(op[1])
				elif n == "augment":
					if op[1] in D and isinstance(D[op[1]],int): B.a += 1; D["a"] += 1
				elif n == "swap":
					if others: others.append((B,D)); B, D = others.pop(0)
				else:
					if   n == "copy": C = B.copy()
					elif n == "copy.copy": C = copy.copy(B)
					elif n == "deepcopy": C = copy.deepcopy(B)
					elif n == "pickle": C = pickle.loads(pickle.dumps(B))
					elif n == "construct": C = Bunch(B)
					E = dict(D)
					if n == "construct2": C = Bunch(B, op[1], c=11); E.update(op[1]); E["c"] = 11
					ctx.check(isinstance(C,Bunch) and C is not B, "copy"); others.append((B,D)); B, D = C, E
				compare(ctx, B, D, "after %s:" % (op,))
			for b, d in others: compare(ctx, b, d, "object copied from or to:")
			ctx.check(OPS[9][1] == {"a":5,"d":6} and OPS[11][1] == {"b":7} and OPS[17][1] == {"b":9} and init == given, "arguments were modified")
LEAVES = [0, -3, 2.5, True, 1+2j, b"text", np.arange(3), np.arange(6.).reshape(2,3).astype(np.float32), np.array([True,False]), np.zeros((0,)), np.array([b"ab",b"c"]), np.array([[1+1j]]), np.int8(5), np.float32(0.1), np.nan]
def tree(spec):
	if not isinstance(spec,(list,tuple)): return LEAVES[spec]
	return Bunch({k:tree(s) for k,s in zip(("one","two"),spec)})
def same(ctx, a, b, path):
	if isinstance(b, Bunch):
		ctx.check(isinstance(a,Bunch) and set(a.keys()) == set(b.keys()), "entries at '%s'" % path)
		for k in b: same(ctx, a[k], b[k], path+"/"+k)
	else:
		A, Bv = np.asarray(a), np.asarray(b); ctx.check(A.shape == Bv.shape and (A.dtype == Bv.dtype or Bv.dtype.kind == "S" or (Bv.dtype.kind == A.dtype.kind and Bv.ndim == 0 and not isinstance(b,np.generic))), "type and shape at '%s': %s vs %s" % (path,A.dtype,Bv.dtype)); ctx.check(A.tolist() == Bv.tolist() or (A.ndim == 0 and np.isnan(A) and np.isnan(Bv)), "value at '%s'" % path)
def paths(b, pre=""):
	for k in b:
		yield pre+k, b[k]
		if isinstance(b[k],Bunch):
			for r in paths(b[k],pre+k+"/"): yield r
def unit_io(ctx, items):
	d = os.path.join(ctx.wdir,"sub.dir"); os.makedirs(d, exist_ok=True); f = os.path.join(d,"f.hdf")
	for spec in items:
		b = tree(spec)
		with ctx.case("write and read", tree=repr(b)):
			before = repr(b); bunch.write(f,b); ctx.check(repr(b) == before, "bunch was modified"); same(ctx, bunch.read(f), b, ""); same(ctx, bunch.read(f,fmt="hdf"), b, "")
			for p, v in paths(b): same(ctx, bunch.read(f+"/"+p), v, p); same(ctx, bunch.read(f,group=p), v, p); same(ctx, bunch.read(f+"/"+p,gmode="exists"), v, p)
			for g in ("g","g/h"):
				bunch.write(f+"/"+g,b); r = bunch.read(f); ctx.check(list(r) == ["g"], "only the group is in the file"); same(ctx, bunch.read(f+"/"+g), b, ""); bunch.write(f,b,group=g); same(ctx, bunch.read(f,group=g), b, ""); same(ctx, bunch.read(f).g if g == "g" else bunch.read(f).g.h, b, "")
				for p, v in paths(b): same(ctx, bunch.read(f+"/"+g+"/"+p), v, p)
			n = os.path.join(d,"nodots"); bunch.write(n,b,gmode="none"); same(ctx, bunch.read(n,gmode="none"), b, ""); same(ctx, bunch.read(n,gmode="exists"), b, "")
			os.remove(n)
def unit_split(ctx, items):
	for toks in items:
		with ctx.case("split path", path="/".join(toks)):
			p = "/".join(toks); dots = [i for i,t in enumerate(toks) if "." in t]
			if not dots: ctx.raises(lambda: bunch.split_hdf_path(p), ValueError, "no dot")
			else:
				i = dots[-1]
				for sub in (None,"s","s/t"):
					f, g = bunch.split_hdf_path(p,sub); w = list(toks[i+1:])+([sub] if sub else []); ctx.check(f == "/".join(toks[:i+1]) and g == ("/".join(w) if w else None), "dot: %s %s" % (f,g))
			f, g = bunch.split_hdf_path(p,mode="none"); ctx.check(f == p and g is None, "none"); f, g = bunch.split_hdf_path(p,"s",mode="none"); ctx.check(f == p and g == "s", "none with group")
VALS = [1, 2.5, True, "a", "long string", np.arange(2), np.array([0.5,1.5]), np.array([1+1j,2]), np.array(["ab","c"]), np.array([2**40,1]), np.array([1,2],np.int8)]
def unit_concat(ctx, items):
	for idx in items:
		vs = [VALS[i] for i in idx]
		if len({np.shape(v) for v in vs}) > 1 or len({isinstance(np.asarray(v).flat[0].item(),str) for v in vs}) > 1: continue
		with ctx.case("concatenate", values=vs):
			bs = [Bunch(p=v,q=i) for i,v in enumerate(vs)]; keep = repr(bs); r = bunch.concatenate(bs); ctx.check(list(r) == ["p","q"], "keys"); ctx.check(r.q.tolist() == list(range(len(vs))), "second key")
			ctx.check(len(r.p) == len(vs), "length")
			for i, v in enumerate(vs): ctx.check(np.asarray(r.p[i]).tolist() == np.asarray(v).tolist(), "entry %d: %s instead of %s" % (i,r.p[i],v))
			ctx.check(repr(bs) == keep, "inputs were modified")
def units(tier):
	D = 4 if tier == "quick" else 5; n = len(OPS)
	h = [({},s) for L in range(1,D) for s in itertools.product(range(n),repeat=L)]+[({"a":1,"c":"y"},s) for s in itertools.product(range(n),repeat=D-1)]
	# the full depth with operations thinned to those that change the state
	core = [0,2,4,5,8,9,12,13,14,18]; h += [({},s) for s in itertools.product(core,repeat=D)]+[({"a":1,"c":"y"},s) for s in itertools.product(core,repeat=D)]
	us = chunked("hist", h, unit_hist, 32)
	L = len(LEAVES); t1 = [()]+[(i,) for i in range(L)]+[(i,j) for i in range(L) for j in range(L)]
	small = [(),(0,),(6,),(2,7)]
	t2 = [(a,) for a in t1]+[(a,b) for a in small for b in small]+[(i,a) for i in range(L) for a in small]+[(a,i) for i in range(L) for a in small]
	t3 = [(a,b) for a in [(s,) for s in small]+[(s,1) for s in small] for b in [(s,3) for s in small]+list(range(3))]
	us += chunked("io", t1+t2+t3, unit_io, 16)
	us += chunked("split", [t for n in (1,2,3,4) for t in itertools.product(("a","b.c",".","..","d.hdf"),repeat=n)], unit_split, 4)
	us += chunked("concat", [i for n in (1,2,3) for i in itertools.product(range(len(VALS)),repeat=n)], unit_concat, 4)
	return us
