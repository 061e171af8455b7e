"""Exploration context: cases, comparisons, counters."""
import hashlib, json, traceback, contextlib, itertools
import numpy as np

class Mismatch(Exception): pass
class StopUnit(Exception): pass

MAXVIOL = 6

def jsonable(x):
	if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
	if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
	if isinstance(x, slice): return "%s:%s:%s" % tuple("" if v is None else v for v in (x.start, x.stop, x.step))
	if isinstance(x, (np.integer,)): return int(x)
	if isinstance(x, (np.floating,)): return float(x)
	if isinstance(x, np.ndarray): return jsonable(x.tolist()) if x.size < 64 else "array%s" % (x.shape,)
	if isinstance(x, (str, int, float, bool, type(None))): return x
	return str(x)

def digest(x):
	h = hashlib.blake2b(digest_size=8)
	def rec(x):
		if isinstance(x, np.ndarray) and x.dtype != object:
			x = np.asarray(x)
			h.update(str(x.shape).encode())
			if x.dtype.kind in "fc":
				with np.errstate(all="ignore"):
					x = np.round(x.astype(np.complex128 if x.dtype.kind == "c" else np.float64), 6) + 0.0
			h.update(np.ascontiguousarray(x).tobytes())
		elif isinstance(x, (list, tuple)):
			h.update(b"(");
			for v in x: rec(v)
			h.update(b")")
		elif isinstance(x, dict):
			h.update(b"{")
			for k in sorted(x, key=str): h.update(str(k).encode()); rec(x[k])
			h.update(b"}")
		elif isinstance(x, float): h.update(("%.6g" % x).encode())
		else: h.update(repr(x).encode())
	rec(x)
	return int.from_bytes(h.digest(), "little")

class Ctx:
	def __init__(self, unit, tier, seed, wdir):
		self.unit, self.tier, self.seed, self.wdir = unit, tier, seed, wdir
		self.violations, self.states = [], set()
		self.transitions = self.traces = self.dropped = 0
		self.samples = []
		self.site_count = {}
		self.cur = None
	quick    = property(lambda self: self.tier == "quick")
	thorough = property(lambda self: self.tier == "thorough")
	def record(self, site, case, msg):
		n = self.site_count.get(site, 0)
		self.site_count[site] = n+1
		# Keep every distinct failing case of a site up to a cap, so that a
		# listed finding can not hide a different failing case.
		if n < 400:
			self.violations.append({"unit": self.unit, "site": site, "case": jsonable(case), "msg": msg})
	@contextlib.contextmanager
	def case(self, site, **desc):
		"""One enumerated case, run to completion on the real code.  Any
		mismatch or unexpected exception inside is a violation."""
		self.cur = (site, desc)
		try:
			yield self
		except Mismatch as e:
			self.record(site, desc, str(e))
		except (KeyboardInterrupt, StopUnit): raise
		except BaseException as e:
			self.record(site, desc, "unexpected %s" % "".join(traceback.format_exception(e))[-1200:])
		self.traces += 1
		if len(self.samples) < 1 or (self.traces in (7, 61) and len(self.samples) < 3):
			self.samples.append({"unit": self.unit, "site": site, "case": jsonable(desc)})
	# --- comparisons -------------------------------------------------
	def see(self, expected):
		self.transitions += 1
		if len(self.states) < 2000000: self.states.add(digest(expected))
	def check(self, cond, msg="", state=None):
		self.see(state if state is not None else (msg, self.cur and self.cur[0]))
		if not cond: raise Mismatch(msg)
	def eq(self, got, want, msg=""):
		self.see(want)
		if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
			g, w = np.asarray(got), np.asarray(want)
			if g.shape != w.shape: raise Mismatch("%s: shape %s, expected %s" % (msg, g.shape, w.shape))
			same = (g == w) | ((g != g) & (w != w))
			if not np.all(same): raise Mismatch("%s: got %s, expected %s" % (msg, short(g), short(w)))
		else:
			if not (got == want): raise Mismatch("%s: got %r, expected %r" % (msg, got, want))
	def close(self, got, want, rtol=1e-9, atol=1e-9, msg=""):
		self.see(np.asarray(want))
		g, w = np.asarray(got), np.asarray(want)
		if g.shape != w.shape: raise Mismatch("%s: shape %s, expected %s" % (msg, g.shape, w.shape))
		if g.dtype == bool: g = g.astype(int)
		if w.dtype == bool: w = w.astype(int)
		with np.errstate(all="ignore"):
			bad = ~((np.abs(g-w) <= atol + rtol*np.abs(w)) | ((g != g) & (w != w)) | (g == w))
		if np.any(bad):
			i = tuple(int(v) for v in np.argwhere(bad)[0]) if bad.ndim else ()
			raise Mismatch("%s: at %s got %s, expected %s (%d of %d differ)\n got %s\nwant %s" % (msg, i, g[i], w[i], bad.sum(), bad.size, short(g), short(w)))
	def raises(self, fn, exc=Exception, msg=""):
		self.see(("raises", msg))
		try: r = fn()
		except exc: return
		raise Mismatch("%s: expected an exception, got %s" % (msg, short(r)))
	def result(self, t):
		return {"violations": self.violations, "states": self.states, "transitions": self.transitions,
			"traces": self.traces, "dropped": self.dropped, "samples": self.samples, "time": t}

def short(x):
	s = np.array2string(np.asarray(x), precision=6, threshold=40) if not isinstance(x, str) else x
	return s if len(s) < 500 else s[:500] + "..."

def product(*args, **kw): return itertools.product(*args, **kw)

def chunked(name, items, fn, n):
	"""Split a list of items in n roughly equal units."""
	items = list(items)
	n = max(1, min(n, len(items)))
	return [("%s[%d/%d]" % (name, i, n), fn, items[i::n]) for i in range(n)]
