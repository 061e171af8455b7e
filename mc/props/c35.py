"""C35: device memory pools and timers."""
import numpy as np, itertools, io, contextlib, sqlite3
import importlib.util, os, sys, pixell
from pixell import bench, memory, utils
def _load(name):
	# device and sqlite are not listed in the build's sources, so the installed package may lack them: load those from the source tree
	try: return importlib.import_module("pixell."+name)
	except ImportError: pass
	spec = importlib.util.spec_from_file_location("pixell."+name, os.path.join(os.path.dirname(bench.__file__),name+".py")); m = importlib.util.module_from_spec(spec); sys.modules["pixell."+name] = m; spec.loader.exec_module(m); return m
device, sqlite = _load("device"), _load("sqlite")
from ..core import chunked

RULE   = "every sequence of pool operations (allocations of several sizes, typed arrays, copies in, reset, free) up to the depth, on the real pool with a counting allocator, for every alignment; after each operation every buffer handed out since the last reset is compared with the pattern written to it, its address range with all others, its alignment, and the accounting with an independent model; every interleaving of operations on several named pools; every nesting, repetition and failure pattern of timed blocks under an artificial clock; every result table shape for the sqlite display"
BOUNDS = "depth 5 (quick) or 6 over 9 operations and 3-4 alignments; 2 pools with 7 operations to depth 5; timed programs with up to 6 events and 2 names; tables up to 4x3"
ASSUME = ["only the cpu device can be run here", "buffers handed out before a reset are documented to be invalid after it", "the allocator under the pool gives aligned memory, as the pool requires"]

class Counting:
	"""Aligned allocator that counts its calls and fills memory with garbage"""
	def __init__(self, align): self.inner = device.AllocAligned(device.AllocCpu(),align=align); self.align = align; self.n = 0; self.log = []
	def alloc(self, n): self.n += 1; b = self.inner.alloc(n); b[:] = 0xA5; self.log.append(int(n)); return b
def ru(n, a): return -(-n//a)*a
OPS = [("alloc",0),("alloc",1),("alloc",13),("alloc",32),("alloc",100),("empty",(3,),np.float64),("zeros",(2,3),np.int16),("reset",),("free",)]
def addr(b): return b.__array_interface__["data"][0]
class Model:
	def __init__(self, align): self.align = align; self.live = []; self.size = 0; self.cap = 0; self.k = 0
	def fill(self, b):
		self.k = self.k%250+1; v = b.reshape(-1).view(np.uint8); v[:] = self.k; self.live.append((v,self.k))
	def took(self, n): self.size += ru(n,self.align); self.cap = max(self.cap,self.size)
	def reset(self): self.live = []; self.size = 0
	def free(self): self.reset(); self.cap = 0
def apply(ctx, pool, mod, al, op, hist):
	before = al.n if al else None; cap0, size0 = mod.cap, mod.size
	if op[0] == "alloc":
		b = pool.alloc(op[1]); ctx.check(b.dtype == np.uint8 and b.shape == (op[1],), "%s: buffer size" % (hist,)); n = op[1]
	elif op[0] == "empty": b = pool.empty(op[1],op[2],reset=False); n = int(np.prod(op[1]))*np.dtype(op[2]).itemsize; ctx.check(b.shape == op[1] and b.dtype == op[2], "%s: array" % (hist,))
	elif op[0] in ("zeros","ones","full"):
		b = pool.full(op[1],7,op[2],reset=False) if op[0] == "full" else getattr(pool,op[0])(op[1],op[2],reset=False); n = b.nbytes; ctx.check(b.shape == op[1] and b.dtype == op[2] and np.all(b == {"zeros":0,"ones":1,"full":7}[op[0]]), "%s: array" % (hist,))
	elif op[0] == "reset": pool.reset(); mod.reset(); b = None
	elif op[0] == "free": pool.free(); mod.free(); b = None
	if b is not None:
		mod.took(n)
		if n: ctx.check(addr(b)%mod.align == 0, "%s: alignment" % (hist,))
		mod.fill(b)
		# No new memory is needed while the capacity settled on is not exceeded
		if al and mod.settled and mod.size <= mod.settled: ctx.check(al.n == before, "%s: new memory requested though the capacity of %d was not exceeded" % (hist,mod.settled))
	else:
		mod.settled = mod.cap if op[0] == "reset" else 0; ctx.eq(int(pool.totsize()), mod.settled, "%s: memory held after %s" % (hist,op[0]))
	ctx.eq(int(pool.size),mod.size,"%s: size" % (hist,)); ctx.eq(int(pool.capacity),mod.cap,"%s: capacity" % (hist,)); ctx.check(pool.totsize() >= sum(len(v) for v,_ in mod.live), "%s: memory held" % (hist,))
	for v, k in mod.live: ctx.check(np.all(v == k), "%s: an earlier buffer was overwritten" % (hist,))
	r = sorted((addr(v),addr(v)+len(v)) for v,_ in mod.live if len(v)); ctx.check(all(a[1] <= b[0] for a,b in zip(r[:-1],r[1:])), "%s: overlapping buffers" % (hist,))
def unit_pool(ctx, items):
	for align, first, depth in items:
		with ctx.case("memory pool", align=align, first=[str(OPS[i]) for i in first], depth=depth):
			for rest in itertools.product(range(len(OPS)),repeat=depth-len(first)):
				seq = first+rest; al = Counting(align); pool = device.ArrayPoolCpu(al,name="x"); mod = Model(align); mod.settled = 0
				for i, o in enumerate(seq): apply(ctx,pool,mod,al,OPS[o],[OPS[q] for q in seq[:i+1]])
				ctx.check(isinstance(repr(pool),str),"repr",state=(align,)+seq)
def unit_steady(ctx, items):
	for align, sizes, reps in items:
		with ctx.case("settled pool", align=align, sizes=sizes):
			al = Counting(align); pool = device.ArrayPoolCpu(al,name="x"); al0 = None
			for cyc in range(reps):
				pool.reset(); bs = [pool.alloc(n) for n in sizes]
				if cyc == 1: al0 = al.n; h = pool.totsize()
				if cyc > 1: ctx.check(al.n == al0 and pool.totsize() == h, "a repeated cycle needs no new memory", state=(align,sizes))
			if reps > 1: ctx.eq(int(pool.totsize()), sum(ru(n,align) for n in sizes), "memory held is what a cycle needs")
def unit_multi(ctx, items):
	M = [("a","alloc",5),("a","alloc",40),("b","alloc",5),("b","alloc",40),("a","reset"),("b","free"),("*","reset"),("*","free")]
	for first, depth in items:
		with ctx.case("named pools", first=[str(M[i]) for i in first], depth=depth):
			for rest in itertools.product(range(len(M)),repeat=depth-len(first)):
				dev = device.DeviceCpu(align=16); mods = {}
				for i, o in enumerate(first+rest):
					op = M[o]; hist = [M[q] for q in (first+rest)[:i+1]]
					if op[0] == "*":
						getattr(dev.pools,op[1])()
						for q in mods.values(): getattr(q,op[1])(); q.settled = 0
					else:
						p = dev.pools[op[0]]; mods.setdefault(op[0],Model(16)).settled = 0; ctx.check(dev.pools.want(op[0])[0] is p and getattr(dev.pools,op[0]) is p, "same pool"); apply(ctx,p,mods[op[0]],None,op[1:],hist)
					for n, q in mods.items():
						for v, k in q.live: ctx.check(np.all(v == k), "%s: other pools are untouched" % (hist,))
					ctx.eq(int(dev.pools.size()),sum(q.size for q in mods.values()),"%s: total size" % (hist,)); ctx.eq(dev.memuse("pools"),sum(int(dev.pools[n].totsize()) for n in mods),"%s: memory in pools" % (hist,))
				ctx.check(isinstance(repr(dev.pools),str),"repr",state=first+rest)
def unit_device(ctx, items):
	for align, shape, dt in items:
		with ctx.case("cpu device", align=align, shape=shape, dtype=dt):
			dev = device.DeviceCpu(align=align) if align else device.DeviceCpu(); align = align or 16; p, q, r = dev.pools.want("p","q","r"); ctx.check(dev.pools["p"] is p and dev.pools.q is q and len({id(x) for x in (p,q,r)}) == 3, "pools", state=(align,shape,dt))
			src = (np.arange(int(np.prod(shape)))*3-4).reshape(shape).astype(dt); keep = src.copy(); a = p.array(src); ctx.eq(a,keep,"copied in"); ctx.check(a.dtype == dt and not np.shares_memory(a,src), "own memory")
			if a.size: ctx.check(dev.ptr(a)%align == 0 and dev.ptr(a) == addr(a), "pointer")
			a[...] = 1; ctx.eq(src,keep,"source untouched"); b = q.full(shape,5,dtype=dt); ctx.check(np.all(a == 1) and np.all(b == 5), "pools are separate"); z, o = r.zeros(shape,dtype=dt), q.ones(shape,dtype=dt,reset=False); ctx.check(np.all(z == 0) and np.all(o == 1) and np.all(b == 5) and z.dtype == dt and o.shape == tuple(shape), "zeros and ones")
			c = dev.get(o); c[...] = 0; ctx.check(np.all(o == 1), "get gives a copy"); dev.copy(b,z); ctx.check(np.all(z == 5), "copy") if z.ndim else None
			rev = np.asarray(src).T; ctx.eq(p.array(rev),rev,"strided source"); ctx.eq(p.array(src.tolist()),np.asarray(src.tolist()),"list"); d0 = p.empty(shape,dt); d1 = p.empty(shape,dt); ctx.check(d0.size == 0 or np.shares_memory(d0,d1), "reset by default reuses the memory"); e = p.empty(shape,dt,reset=False); ctx.check(not np.shares_memory(d1,e), "not when told not to")
			with p.as_allocator(): pass
			ctx.check(p.empty(shape).dtype == np.float32, "default type"); t = dev.time(); ctx.check(dev.time() >= t, "time"); dev.synchronize(); ctx.check(dev.memuse("np") == 0 and dev.memuse("pools") == sum(x.totsize() for x in (p,q,r)) and dev.memuse() > 0, "memory use"); ctx.raises(lambda: dev.memuse("nosuch"), ValueError, "unknown kind"); del dev.pools.q; ctx.check(dev.pools["q"] is not q, "deleted pool"); ctx.check(dev.np is np and device.anypy(a) is np, "numpy")
			for n in range(0,70): ctx.eq(device.round_up(n,align), ru(n,align), "round_up")
			for n in (0,1,17,1000): x = device.AllocAligned(device.AllocCpu(),align=align).alloc(n); ctx.check(len(x) == n and (n == 0 or addr(x)%align == 0), "aligned allocation")
class Clock:
	def __init__(self): self.t = 0.0
	def __call__(self): return self.t
def programs(depth):
	"""All well-formed block programs: lists of ("open",name) / ("close",fails) / ("tick",dt)"""
	res = []
	def go(p, stack, left):
		if not stack: res.append(p)
		if left <= 0: return
		for n in ("x","y"):
			if len(stack) < 3 and left >= len(stack)+2: go(p+[("open",n)],stack+[n],left-1)
		if stack: go(p+[("close",False)],stack[:-1],left-1)
		if stack and left > len(stack): go(p+[("tick",len(p)+1.0)],stack,left-1)
	go([],[],depth); return [p for p in res if p]
def unit_bench(ctx, items):
	class Boom(Exception): pass
	for depth, fail, meth in items:
		with ctx.case("timers", depth=depth, fail=fail, method=meth):
			for prog in programs(depth):
				b = bench.Bench(); clk = Clock(); want = {}; order = []
				def run(p, i, nopen):
					while i < len(p):
						if p[i][0] == "tick": clk.t += p[i][1]; i += 1
						elif p[i][0] == "open":
							t1 = clk.t; nm = p[i][1]; end = [None]
							try:
								with getattr(b,meth)(nm,tfun=clk): 
									end[0] = run(p,i+1,nopen+1)
									if fail: raise Boom
							except Boom: ctx.check(fail, "failure passes through")
							else: ctx.check(not fail, "failure is not swallowed")
							w = want.setdefault(nm,[0,0.0,0.0]); w[0] += 1; w[1] = clk.t-t1; w[2] += clk.t-t1; i = end[0]
						else: return i+1
					return i
				out = io.StringIO()
				with contextlib.redirect_stdout(out): run(prog,0,0)
				ctx.eq(set(b.n.keys() if hasattr(b.n,"keys") else list(b.n)),set(want),"%s: names" % prog)
				for nm, (n, last, tot) in want.items(): ctx.check(b.n[nm] == n and abs(b.t[nm]-last) < 1e-9 and abs(b.t_tot[nm]-tot) < 1e-9, "%s: %s has n=%s last=%s total=%s instead of %s" % (prog,nm,b.n[nm],b.t[nm],b.t_tot[nm],(n,last,tot)), state=tuple(prog))
				for nm, (n, last, tot) in want.items():
					o2 = io.StringIO()
					with contextlib.redirect_stdout(o2): b.print(nm)
					q = o2.getvalue().split(); ctx.check(len(q) == 9 and abs(float(q[0])-last) < 6e-5 and abs(float(q[3])-tot/n) < 6e-5 and int(q[6]) == n and q[8] == nm, "printed: %s for %s" % (o2.getvalue(),(nm,n,last,tot)))
				ctx.eq(len(out.getvalue().splitlines()), sum(w[0] for w in want.values()) if meth == "show" else 0, "printed lines")
	with ctx.case("global timers"):
		nm = "c35_x%d" % len(list(bench.n.keys()))
		with bench.mark(nm): pass
		with bench.mark(nm): pass
		ctx.eq(bench.n[nm],2,"count"); ctx.check(bench.t[nm] >= 0 and bench.t_tot[nm] >= bench.t[nm], "times", state="global"); nm += "y"; bench.add(nm,3.0); bench.add(nm,4.0); ctx.eq((bench.n[nm],bench.t[nm],bench.t_tot[nm]),(2,4.0,7.0),"add")
		ctx.check(nm not in bench.Bench().n, "separate objects")
def unit_sql(ctx, items):
	for nrow, ncol, limit in items:
		with ctx.case("sqlite", rows=nrow, cols=ncol, limit=limit):
			rows = [tuple((i*ncol+j)**(1+j)-3 for j in range(ncol)) for i in range(nrow)]; names = ["c%d" % j for j in range(ncol)]
			with sqlite.open(":memory:") as con:
				for t in ("t1","t2"): con.execute("create table %s (%s)" % (t,",".join(names)))
				for r in rows: con.execute("insert into t1 values (%s)" % ",".join("?"*ncol),r)
				ctx.eq(con.tables(),["t1","t2"],"tables"); ctx.eq(con.columns("t1"),names,"columns"); ctx.check("t1" in repr(con) and names[0] in repr(con), "description"); ctx.eq(list(con.execute("select * from t1")),rows,"contents"); ctx.eq(list(con.execute("select * from t1 where c0=?",[rows[0][0] if rows else 0])),[r for r in rows if r[0] == rows[0][0]],"arguments")
				for q, k in (("t1",None),("select * from t1",None),("select * from t1 limit 2",2),("select * from t1 LIMIT 2",2)):
					out = io.StringIO()
					with contextlib.redirect_stdout(out): con.show(q,limit=limit)
					got = out.getvalue().splitlines(); w = rows[:limit] if k is None else rows[:k]; trunc = k is None and nrow > limit
					if not w and not trunc: ctx.eq(got,["<empty>"],"empty table")
					else: ctx.eq([g.split() for g in got],[[str(x) for x in r] for r in w]+([["..."]] if trunc else []),"%s: shown rows" % q); ctx.check(len({len(g) for g in got[:len(w)]}) <= 1, "aligned columns")
			ctx.raises(lambda: con.execute("select 1"), sqlite3.ProgrammingError, "closed"); ctx.check(True,"",state=(nrow,ncol,limit))
	with ctx.case("memory use"):
		a = memory.resident(); x = np.ones(30000000); b = memory.resident(); ctx.check(0.8*x.nbytes < b-a < 1.6*x.nbytes, "resident memory follows an allocation of %d: %d" % (x.nbytes,b-a)); ctx.check(memory.current() >= b*0.9 and memory.max() >= memory.current()*0.9 and isinstance(memory.current(),int), "current and maximum", state="mem")
def units(tier):
	T = tier == "thorough"; n = len(OPS); d = 6 if T else 5
	us  = chunked("pool", [(al,(i,j),d) for al in ((1,16,64) if not T else (1,8,16,64)) for i in range(n) for j in range(n)], unit_pool, 24)
	us += chunked("steady", [(al,s,4) for al in (1,16,512) for k in range(1,5) for s in itertools.product((0,1,16,17,100),repeat=k) if sum(s)], unit_steady, 4)
	us += chunked("multi", [((i,j),5 if T else 4) for i in range(8) for j in range(8)], unit_multi, 8)
	us += chunked("device", [(al,s,dt) for al in (None,1,16,512) for s in ((1,),(5,),(2,3),(0,),(2,0,3),(3,1,4)) for dt in ("uint8","float32","float64","complex128")], unit_device, 2)
	us += chunked("bench", [(7 if T else 6,f,m) for f in (False,True) for m in ("mark","show")], unit_bench, 4)
	us += chunked("sqlite", [(r,c,l) for r in range(5) for c in (1,2,3) for l in (1,3,4,10)], unit_sql, 1)
	return us
