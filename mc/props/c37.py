"""C37: text, file, environment, type and iteration helpers."""
import numpy as np, itertools, os, tempfile, shutil, warnings, datetime, time, re, io, contextlib
from pixell import utils
from ..core import chunked

RULE   = "every input of each helper over a small alphabet: all short strings, number lists and slices, all combinations of present/absent/kept environment variables, existing/missing/linked files and directories, all layouts (shape x axis order x step) for contiguity, every numpy number and string type in both byte orders, every nesting of warning blocks, every combination of iterator lengths, calendar dates over leap years and time zones, and declinations and right ascensions on both sides of every carry"
BOUNDS = "strings to length 4 over 3 letters, up to 3 iterators of length 0-3, arrays to 3 axes, 40 dates x 3 time zones x 3 formats; scratch directory and names of our own only"
ASSUME = ["table lines are not blank", "iterators are given as iterators", "contiguity is only required to be found for arrays without axes of length one", "period estimates are for pure tones with a whole number of periods"]

def scratch(f):
	def g(ctx, items):
		d = tempfile.mkdtemp(prefix="c37."); cwd = os.getcwd()
		try: f(ctx,items,d)
		finally: os.chdir(cwd); shutil.rmtree(d)
	g.__name__ = f.__name__; return g

def unit_text(ctx, items):
	for n, in items:
		strs = ["".join(t) for k in range(n+1) for t in itertools.product("ab.",repeat=k)]; short = [s for s in strs if len(s) <= 2]
		with ctx.case("strings", maxlen=n):
			for a in strs:
				for b in short:
					ctx.check(utils.streq(a,b) == (a == b), "streq %r %r" % (a,b), state=(a,b)); ctx.check(utils.contains_any(a,[b]) == (b in a), "contains_any")
					ctx.check(utils.contains_any(a,[b,"ba","zz"]) == (b in a or "ba" in a), "contains_any of several %r %r" % (a,b))
					if b:
						for c in ("","x","ab"):
							if b in a:
								if a.replace(b,c) != a: ctx.eq(utils.replace(a,b,c), a.replace(b,c), "replace")
								p = re.escape(b); ctx.eq(utils.regreplace(a,p,c), a.replace(b,c), "regreplace"); ctx.eq(utils.regreplace(a,p,c,count=1), a.replace(b,c,1), "regreplace once")
							else: ctx.raises(lambda: utils.replace(a,b,c), KeyError, "replace: missing"); ctx.raises(lambda: utils.regreplace(a,re.escape(b),c), KeyError, "regreplace: missing")
				for x in (1,None,b"a",np.arange(2),["a"]): ctx.check(utils.streq(x,a) is False or utils.streq(x,a) == False, "streq of other types")
			ctx.check(not utils.contains_any("abc",[]), "nothing"); ctx.eq(utils.regreplace("aAbB","a","x",flags=re.I), "xxbB", "flags")
			for S in ("S","U"):
				for k in (1,2,n):
					A = np.array([s.ljust(k,"z") for s in strs if len(s) == k],S+str(k))
					for sel in (slice(None),slice(0,1),slice(1,None),slice(None,-1),slice(None,None,2),slice(None,None,-1)):
						if k > len(range(k)[sel]) == 0 or not len(range(k)[sel]): continue
						ctx.eq(list(utils.chararray_slice(A,sel)), [x[sel] for x in A.tolist()], "chararray_slice"); ctx.check(utils.chararray_slice(A,sel).dtype == np.dtype(S+str(len(range(k)[sel]))), "width")
			for sh in ((3,),(2,2),()):
				s = np.array(strs[1:1+int(np.prod(sh))]).reshape(sh); b = np.char.encode(s); e = utils.encode_array_if_necessary(s); dd = utils.decode_array_if_necessary(np.asarray(b))
				ctx.check(np.asarray(e).dtype.kind == "S" and np.asarray(e).shape == sh and np.all(e == b), "encode"); ctx.check(np.asarray(dd).dtype.kind == "U" and np.asarray(dd).shape == sh and np.all(dd == s), "decode")
				for o in (np.arange(3),np.zeros(2)): ctx.check(utils.encode_array_if_necessary(o) is o and utils.decode_array_if_necessary(o) is o, "other types")

def unit_numbers(ctx, items):
	el = [((v,),"%d" % v) for v in (0,7,-3)] + [(tuple(range(a,b)),"%d:%d" % (a,b)) for a, b in ((0,3),(2,2),(-2,1),(5,4))] + [(tuple(range(a,b,s)),"%d:%d:%d" % (a,b,s)) for a, b, s in ((0,5,2),(5,0,-2),(1,4,3),(-4,5,4))]
	for first, in items:
		with ctx.case("lists of numbers", first=el[first][1]):
			for k in (0,1,2):
				for rest in itertools.product(range(len(el)),repeat=k):
					ii = (first,)+rest; s = ",".join(el[i][1] for i in ii); w = [v for i in ii for v in el[i][0]]; g = utils.parse_ints(s); ctx.check(np.array_equal(g,w) and np.asarray(g).dtype.kind == "i", "parse_ints %s: %s" % (s,g), state=s)
					g = utils.parse_floats(s); ctx.check(np.array_equal(g,w) and np.asarray(g).dtype.kind == "f", "parse_floats"); g = utils.parse_numbers(s,np.float32); ctx.check(np.array_equal(g,w) and g.dtype == np.float32, "parse_numbers")
			for s, w in (("0.5",[0.5]),("0:1:0.25",[0,0.25,0.5,0.75]),("1:0:-0.5,3.25",[1,0.5,3.25]),("0.5:3",[0.5,1.5,2.5])): ctx.close(utils.parse_floats(s),w,0,1e-15,"fractions")

@scratch
def unit_files(ctx, items, d):
	for kind, what, where in items:
		with ctx.case("files", op=kind, state=what, place=where):
			b = tempfile.mkdtemp(dir=d); os.chdir(b); base = b if where == "absolute" else ""; P = lambda *a: os.path.join(base,*a) if base else os.path.join(*a); ctx.check(True,"",state=(kind,what,where))
			if kind == "mkdir":
				if what == "exists": os.mkdir("x"); open("x/f","w").write("hi")
				if what == "file": open("x","w").write("hi"); utils.mkdir(P("x")); ctx.eq(open("x").read(),"hi","file kept"); ctx.raises(lambda: utils.mkdir(P("x","y")), OSError, "below a file")
				elif what == "empty": utils.mkdir(""); ctx.eq(os.listdir("."),[],"nothing made")
				else:
					t = ("x","y","z") if what == "nested" else ("x",); utils.mkdir(P(*t)); ctx.check(os.path.isdir(os.path.join(*t)), "made"); utils.mkdir(P(*t)); ctx.check(what != "exists" or open("x/f").read() == "hi", "contents kept")
			elif kind == "symlink":
				os.makedirs("a/b"); os.makedirs("c"); open("a/b/src","w").write("one"); open("old","w").write("old"); dest = P("c","l") if what != "same dir" else P("a","b","l")
				if what == "file": open("c/l","w").write("x")
				if what == "link": os.symlink("../old","c/l")
				if what == "dangling": os.symlink("../nosuch","c/l")
				utils.symlink(P("a","b","src"),dest); ctx.check(os.path.islink(dest), "is a link"); ctx.eq(open(dest).read(),"one","points to the source"); ctx.eq(open("old").read(),"old","old target untouched"); ctx.check(not os.path.isabs(os.readlink(dest)), "relative")
				utils.symlink(P("old"),dest); ctx.eq(open(dest).read(),"old","replaced"); ctx.eq(open("a/b/src").read(),"one","source untouched")
			elif kind == "touch":
				if what == "exists": open("f","w").write("data"); os.utime("f",(1000,1000))
				t = time.time(); utils.touch(P("f")); ctx.eq(open("f").read(),"data" if what == "exists" else "","contents"); ctx.check(abs(os.stat("f").st_mtime-t) < 100, "time")
			elif kind == "glob":
				for f in ("a1","a2","b1"): open(f,"w").close()
				for pat, w in (("a*",["a1","a2"]),("?1",["a1","b1"]),("b1",["b1"]),("c*",["c*"]),("nosuch",["nosuch"]),("[ab]2",["a2"])): ctx.eq(sorted(utils.glob(P(pat))),[P(x) for x in w],"glob "+pat)
			elif kind == "lines":
				L = {"plain":["a b\n","c d\n","e f\n"],"comments":["# x\n","a b\n","#c d\n","e f\n"],"no newline":["a b\n","c d"],"empty":[]}[what]; open("f","w").write("".join(L)); w = [l.split() for l in L if l[0] != "#"]; ctx.eq(list(utils.lines(P("f"))),L,"lines of a named file")
				with open("f") as fp: ctx.eq(list(utils.lines(fp)),L,"lines of an open file"); ctx.check(not fp.closed, "left open")
				for col in (0,1):
					for sel, f in (("",lambda x:x),(":[1:]",lambda x:x[1:]),(":[::2]",lambda x:x[::2]),(":[-1:]",lambda x:x[-1:]),(":[::-1]",lambda x:x[::-1])): ctx.eq(utils.read_lines(P("f")+sel,col), f([v[col] for v in w]), "read_lines")
				ctx.eq(utils.read_lines(P("f")),[v[0] for v in w],"default column")
			elif kind == "table":
				n = {"one":1,"few":2,"many":5}[what]; rows = [("n%d" % i,i*1.5-2,7-i,"s%d" % i) for i in range(n)]
				for sep, dsep in ((None,None),(",",None),("|",",")):
					j = sep or " "; open("f","w").write("# head\n"+"".join(j.join(str(v) for v in r)+"\n" for r in rows)); g = np.atleast_1d(utils.load_ascii_table(P("f"),(dsep or " ").join(["name:U5","x:f8","k:i4","tag:U8"]),sep=sep,dsep=dsep)); ctx.eq([tuple(v) for v in g.tolist()],rows,"rows"); ctx.eq(g.dtype.names,("name","x","k","tag"),"names"); ctx.check(g.dtype["x"] == np.float64 and g.dtype["k"] == np.int32, "types")
				open("f","w").write("".join("%s | %g | %d\n" % r[:3] for r in rows)); g = np.atleast_1d(utils.load_ascii_table(P("f"),"name:U5 | x:f8 | k:i4")); ctx.eq(g["name"].tolist(),[r[0] for r in rows],"separators"); ctx.eq(g["x"].tolist(),[r[1] for r in rows],"separators"); ctx.eq(g["k"].tolist(),[r[2] for r in rows],"separators")
			os.chdir(d); shutil.rmtree(b)

def unit_env(ctx, items):
	for have, value, keep, default in items:
		with ctx.case("environment", have=have, value=value, keep=keep, default=default):
			n = "C37_TEST_VARIABLE"; os.environ.pop(n,None); other = dict(os.environ)
			try:
				if have is not None: os.environ[n] = have
				ctx.eq(utils.getenv(n,default), have if have is not None else default, "getenv"); ctx.eq(utils.getenv(n), have, "getenv without default"); utils.setenv(n,value,keep=keep); w = have if have is not None and keep else None if value is None else str(value); ctx.eq(os.environ.get(n), w, "setenv"); ctx.eq({k:v for k,v in os.environ.items() if k != n}, other, "other variables"); ctx.check(True,"",state=(have,value,keep,default))
				if not keep: os.environ[n] = "q"; utils.setenv(n,value); ctx.eq(os.environ.get(n), None if value is None else str(value), "overwrites by default")
			finally: os.environ.pop(n,None)

DT = ["b","h","i","q","B","H","I","Q","f","d","F","D","?"]
def unit_types(ctx, items):
	for c, bo in items:
		with ctx.case("number types", type=c, order=bo):
			dt = np.dtype(c).newbyteorder(bo); ctx.check(True,"",state=(c,bo)); nd = utils.native_dtype(dt); ctx.check(nd == np.dtype(c) and nd.isnative, "native"); ctx.check(utils.native_dtype(dt.str) == np.dtype(c), "by name")
			k = np.dtype(c).kind; r = np.dtype(utils.real_dtype(dt)); w = {"F":"f","D":"d"}.get(c,c); ctx.check(r.newbyteorder("=") == np.dtype(w), "real type"); z = np.dtype(utils.complex_dtype(np.dtype(c))); ctx.check(z.kind == "c" and np.can_cast(np.dtype(c),z), "complex type %s" % z); ctx.check(z == np.dtype("F") if c in "fF" else z == np.dtype("D") if c in "dDiqIQ" else z.kind == "c", "precision")
			for sh in ((),(3,),(2,2)):
				a = (np.arange(int(np.prod(sh)))%2*5).reshape(sh).astype(np.dtype(c)); kk = a.copy(); g = utils.ascomplex(a); ctx.check(g.dtype == z and g.shape == sh and np.all(g == kk) and np.array_equal(a,kk), "ascomplex"); ctx.check(g is not a, "copy")
			for v, w in ((3,(3,)),([1,2],(1,2)),((),()),(np.arange(3),(0,1,2)),("ab",("a","b")),(None,(None,)),({5},(5,))): ctx.eq(utils.astuple(v),w,"astuple")

def unit_contig(ctx, items):
	for shape, dt in items:
		with ctx.case("contiguity", shape=shape, dtype=dt):
			a = np.arange(int(np.prod(shape))).reshape(shape).astype(dt); n = len(shape)
			for perm in itertools.permutations(range(n)):
				for st in itertools.product((slice(None),slice(None,None,2),slice(None,None,-1),slice(1,None)),repeat=n):
					b = a.transpose(perm)[st]
					if not b.size: continue
					ctx.check(utils.getaddr(b) == b.ctypes.data, "address")
					for na in (None,)+tuple(range(n+2)):
						k = n if na is None else min(na,n); sub = b[(0,)*(n-k)] if k else None; w = True if k == 0 else bool(sub.flags["C_CONTIGUOUS"]); g = utils.iscontig(b,na) if na is not None else utils.iscontig(b)
						ctx.check((bool(g) == w) if min(b.shape) > 1 else (not g or w), "perm %s sel %s naxes %s: %s, want %s" % (perm,st,na,g,w), state=(shape,dt,perm,str(st),na))
			for o in range(-n,n):
				for w in range(-n,n): ctx.check(np.array_equal(utils.moveaxes(a,o,w),np.moveaxis(a,o,w)), "moveaxes")
			for p in itertools.permutations(range(n)):
				for q in itertools.permutations(range(n)): ctx.check(np.array_equal(utils.moveaxes(a,p,q),np.moveaxis(a,p,q)), "several axes")

class It:
	def __init__(self, n, log): self.n, self.i, self.calls, self.done = n, 0, 0, False
	def __iter__(self): return self
	def __next__(self):
		self.calls += 1
		if self.i >= self.n: self.done = True; raise StopIteration
		self.i += 1; return self.i
def unit_iter(ctx, items):
	for lens in items:
		with ctx.case("joint iteration", lengths=lens):
			its = [It(n,None) for n in lens]; k = min(lens); ctx.eq(list(utils.zip2(*its)), [(i+1,)*len(lens) for i in range(k)], "rows"); ctx.check(all(i.calls == k+1 for i in its), "every iterator is advanced equally often", state=lens); log = []
			def gen(n):
				for i in range(n): yield i
				log.append(n)
			list(utils.zip2(*[gen(n) for n in lens])); ctx.eq(sorted(log), sorted(n for n in lens if n == k), "clean-up code of those that end runs")
			seen = []
			for r in utils.zip2(*[It(n,None) for n in lens]): seen.append(r)
			ctx.eq(len(seen),k,"loop")
def unit_warn(ctx, items):
	for seq in items:
		with ctx.case("warning blocks", seq=seq):
			with warnings.catch_warnings():
				warnings.resetwarnings(); warnings.filterwarnings("error",category=UserWarning); stack = []; f0 = [list(warnings.filters)]
				def probe():
					try: warnings.warn("x",UserWarning); return False
					except UserWarning: return True
				for s in seq:
					if s == "in": b = utils.nowarn(); r = b.__enter__(); ctx.check(r is b, "block object"); stack.append(b)
					elif s == "out" and stack: stack.pop().__exit__(None,None,None)
					elif s == "exc":
						def f():
							with utils.nowarn(): ctx.check(not probe(), "inside"); raise KeyError
						ctx.raises(f, KeyError, "exceptions pass")
					ctx.check(probe() == (not stack), "after %s with %d open" % (s,len(stack)), state=(seq,len(stack)))
				while stack: stack.pop().__exit__(None,None,None)
				ctx.check(list(warnings.filters) == f0[0], "filters restored")
def unit_import(ctx, items):
	for names in items:
		with ctx.case("first importable", names=names): w = [n for n in names if not n.startswith("c37_nosuch")]; ctx.eq(utils.first_importable(*names), w[0] if w else None, "first"); ctx.check(True,"",state=names)
def unit_printer(ctx, items):
	for lev, l, exact, nl in items:
		with ctx.case("printer", level=lev, message=l, exact=exact, newline=nl):
			p = utils.Printer(lev,"p:"); e = io.StringIO()
			with contextlib.redirect_stderr(e): p.write("m",l,exact=exact,newline=nl); p.push("q:").write("n",l,exact=exact,newline=nl)
			show = l == lev if exact else l <= lev; end = "\n" if nl else ""; ctx.eq(e.getvalue(), "p:m%sp:q:n%s" % (end,end) if show else "", "output"); e = io.StringIO(); ctx.check(True,"",state=(lev,l,exact,nl))
			with contextlib.redirect_stderr(e):
				with p.time("t",l,exact=exact,newline=nl): pass
			ctx.check(bool(re.fullmatch(r" *\d+\.\d\d p:t"+end,e.getvalue())) if show else e.getvalue() == "", "timer: %r" % e.getvalue())

def unit_dates(ctx, items):
	tz0 = os.environ.get("TZ")
	for tz, y, m, d, h in items:
		with ctx.case("dates", zone=tz, date=[y,m,d], time=h):
			try:
				os.environ["TZ"] = tz; time.tzset(); t = datetime.datetime(y,m,d,*h); w = (t-datetime.datetime(1970,1,1)).total_seconds()
				for f in ("%Y-%m-%d %H:%M:%S","%Y-%m-%dT%H:%M:%S","%d %b %Y %H:%M:%S","%Y%m%dT%H%M%S"): ctx.close(utils.date2ctime(t.strftime(f)), w, 0, 1e-6, f); ctx.eq(utils.ctime2date(utils.date2ctime(t.strftime(f)),fmt=f), t.strftime(f), "round trip "+f)
				if h == (0,0,0): ctx.close(utils.date2ctime(t.strftime("%Y-%m-%d")), w, 0, 1e-6, "only a date")
				ctx.close(utils.date2ctime(t.strftime("%Y-%m-%d %H:%M:%S")+".25"), w+0.25, 0, 1e-6, "fractions of a second"); ctx.check(True,"",state=(tz,y,m,d,h))
			finally:
				if tz0 is None: os.environ.pop("TZ",None)
				else: os.environ["TZ"] = tz0
				time.tzset()

def sexa(x):
	# independent: in units of 1/1000 arcsec, exactly
	s = -1 if x < 0 else 1; n = abs(x); return s, n//3600000, n//60000%60, (n%60000)/1000
def unit_names(ctx, items):
	for ra, dec in items:	# in milliarcsec-like units (1/1000 second of arc or time); ra in time units
		with ctx.case("source names", ra=ra, dec=dec):
			r, d = ra/3600e3*15, dec/3600e3; eps = 1e-7; r += eps*15/3600; d += (eps if dec >= 0 else -eps)/3600; sd, dd, dm, ds = sexa(dec); _, rh, rm, rs = sexa(ra); ctx.check(True,"",state=(ra,dec))
			w = "J%02d%02d%02d%s%d%02d%02d" % (rh,rm,int(rs),"-" if sd < 0 else "+",dd,dm,int(ds)); ctx.eq(utils.jname(r,d), w, "default name"); ctx.eq(utils.jname(r+360,d), w, "periodic"); ctx.eq(utils.jname(r-360,d), w, "periodic"); ctx.eq(utils.jname(r,d,tag="ACT"), "ACT "+w, "tag"); ctx.eq(utils.jname(r,d,tag="ACT",sep="-S_"), "ACT-S_"+w, "separator")
			ctx.eq(utils.jname(r,d,fmt="%(ra_d)03d %(ra_m)02d %(dec)+.3f %(ra).3f"), "%03d %02d %+.3f %.3f" % (int(r),int(r%1*60),d,r), "other fields")
			ctx.eq(utils.format_sexa(d), "%s%02d:%02d:%06.2f" % ("-" if sd < 0 else "+",dd,dm,ds), "sexagesimal"); ctx.eq(utils.format_sexa(d,"%(min)d|%(sec).1f"), "%d|%.1f" % (dm,ds), "own format")

def unit_stat(ctx, items):
	for n, axis, bs in items:
		with ctx.case("median of means", n=n, axis=axis, bsize=bs):
			x = ((np.arange(n*3)*0.618)%1).reshape(n,3); x = x if axis in (0,-2,None) else x.T.copy(); k = x.copy(); y = x.reshape(-1) if axis is None else x; ax = 0 if axis is None else axis; L = y.shape[ax]; ctx.check(True,"",state=(n,axis,bs))
			for frac in (0.1,0.3,1.0):
				b = bs or max(1,int(np.round(L*frac))); M = [y.take(range(i,min(L,i+b)),ax).mean(ax) for i in range(0,L,b)]; g = utils.medmean2(x,axis=axis,frac=frac,**({"bsize":bs} if bs else {})); ctx.close(g, np.median(M,0), 1e-12, 1e-13, "median of block means"); ctx.eq(x,k,"untouched")
			if not bs: ctx.close(utils.medmean2(x,axis), utils.medmean2(x,axis,frac=0.1), 0, 0, "default fraction")
	for m in (1,2,3):
		with ctx.case("decomposition", m=m):
			B = np.array([[1,2,0,1],[0,1,-1,2],[3,0,1,1.]])[:m]
			for c in itertools.product((-1,0,2.5),repeat=m):
				c = np.array(c); ctx.close(utils.decomp_basis(B,c@B), c, 0, 1e-12, "coefficients", ); v = np.array([1,-1,2,0.5])+c@B; g = utils.decomp_basis(B,v); ctx.close(B@(v-g@B), np.zeros(m), 0, 1e-12, "orthogonal residual"); ctx.close(utils.decomp_basis(B,np.array([v,c@B])), np.array([g,c]), 0, 1e-12, "several vectors"); ctx.check(True,"",state=(m,tuple(c)))
def unit_period(ctx, items):
	for n, k, ph in items:
		with ctx.case("period", n=n, cycles=k, phase=ph):
			d = np.cos(2*np.pi*np.arange(n)*k/n+ph)+3; kk = d.copy(); g = utils.find_period_fourier(d); ctx.close(g, n/k, 1e-9, 0, "tone", ); d2 = np.array([d,np.cos(2*np.pi*np.arange(n)*2/n)]); ctx.close(utils.find_period_fourier(d2), [n/k,n/2], 1e-9, 0, "several"); ctx.close(utils.find_period_fourier(d2.T,axis=0), [n/k,n/2], 1e-9, 0, "axis"); ctx.eq(d,kk,"untouched"); ctx.check(True,"",state=(n,k,ph))

def units(tier):
	T = tier == "thorough"
	us  = chunked("text", [(n,) for n in ((3,4) if not T else (3,4,5,6))], unit_text, 1)
	us += chunked("numbers", [(i,) for i in range(11)], unit_numbers, 3)
	us += chunked("files", [(k,w,p) for k, ws in (("mkdir",("missing","exists","file","empty","nested")),("symlink",("missing","file","link","dangling","same dir")),("touch",("missing","exists")),("glob",("x",)),("lines",("plain","comments","no newline","empty")),("table",("one","few","many"))) for w in ws for p in ("absolute","relative")], unit_files, 1)
	us += chunked("env", [(h,v,k,d) for h in (None,"","a","long value") for v in (None,"","b",3,1.5) for k in (False,True) for d in (None,"dd")], unit_env, 1)
	us += chunked("types", [(c,b) for c in DT for b in "<>="], unit_types, 1)
	us += chunked("contig", [(s,d) for s in ((3,),(2,3),(3,2),(1,3),(3,1),(2,2,3),(2,1,3),(4,3,2)) for d in ("f","d","D","i2")], unit_contig, 4)
	us += chunked("iter", [l for k in (1,2,3,4) for l in itertools.product(range(4 if not T else 6),repeat=k)], unit_iter, 1)
	us += chunked("warn", [s for k in range(1,6 if not T else 8) for s in itertools.product(("in","out","exc"),repeat=k)], unit_warn, 1)
	us += chunked("import", [p for k in (0,1,2,3) for p in itertools.product(("os","numpy","c37_nosuch_a","c37_nosuch_b"),repeat=k)], unit_import, 1)
	us += chunked("printer", [(a,b,e,n) for a in range(4) for b in range(4) for e in (False,True) for n in (False,True)], unit_printer, 1)
	us += chunked("dates", [(z,y,m,d,h) for z in ("UTC0","XST-5","YST+8YDT,M3.2.0,M11.1.0") for y in ((1970,2000,2023,2024,2099) if not T else (1970,1971,1999,2000,2004,2023,2024,2037,2038,2099)) for m, d in (((1,1),(2,28),(3,1),(7,15),(12,31)) if not T else [(m,d) for m in range(1,13) for d in (1,15,28)]) for h in ((0,0,0),(2,30,0),(12,0,1),(23,59,59))], unit_dates, 2)
	D = [0,1000,59000,60000,3599000,3600000,3661000,36000000,180000000,323999000]; D = sorted(set(D+[-v for v in D if v])); R = [0,1000,59000,60000,3599000,3600000,43200000,86399000]
	us += chunked("names", [(r,d) for r in R for d in D], unit_names, 1)
	us += chunked("stat", [(n,a,b) for n in (range(1,16) if not T else range(1,60)) for a in (None,0,1,-1,-2) for b in (None,1,2,3)], unit_stat, 1)
	us += chunked("period", [(n,k,p) for n in (16,17,60,101) for k in (1,2,3,5) for p in (0,1.0,2.5)], unit_period, 1)
	return us
