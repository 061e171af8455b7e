"""A simulated communicator with a controlled scheduler.  Every rank is a thread,
but only one runs at a time, and control changes hands only inside communication
calls.  Which rank continues is decided by an explicit list of choices, so every
schedule can be enumerated by re-execution (stateless model checking).  The
communicator also checks the rules of MPI: all ranks make the same sequence of
collective calls, message sizes and types agree on both sides, buffers are
contiguous and big enough, nothing is left unreceived, no deadlock."""
import threading, copy, numpy as np

class CommError(Exception): pass
class Killed(BaseException): pass

def spec(buf, n=None):
	"""(array, counts, displs) of a buffer specification"""
	counts = displs = None
	if isinstance(buf, (tuple,list)):
		arr = buf[0]
		if len(buf) > 1 and buf[1] is not None:
			c = buf[1]
			if isinstance(c, (tuple,list)) and len(c) == 2 and np.ndim(c[0]) == 1: counts, displs = c
			elif isinstance(c, (tuple,list,np.ndarray)): counts = c; displs = buf[2] if len(buf) > 2 and not isinstance(buf[2],str) else None
	else: arr = buf
	if not isinstance(arr, np.ndarray): raise CommError("not an array buffer: %r" % type(arr))
	if not (arr.flags.c_contiguous or arr.flags.f_contiguous): raise CommError("buffer is not contiguous")
	if arr.dtype.kind in "UO": raise CommError("data type %s can not be communicated" % arr.dtype)
	if counts is not None:
		counts = np.asarray(counts)
		if counts.shape != (n,): raise CommError("expected %d counts" % n)
		if not np.all(counts == counts.astype(int)): raise CommError("fractional counts")
		counts = counts.astype(int)
		displs = np.concatenate([[0],np.cumsum(counts)[:-1]]).astype(int) if displs is None else np.asarray(displs).astype(int)
		for c, d in zip(counts, displs):
			if c < 0 or (c > 0 and (d < 0 or d+c > arr.size)): raise CommError("counts exceed the buffer")
	return arr, counts, displs

def flat(arr): return arr.reshape(-1) if arr.flags.c_contiguous else arr.T.reshape(-1)

def apply_op(op, vals):
	r = vals[0]
	for v in vals[1:]: r = r+v if op is None else op(r, v)
	return r

class Comm:
	def __init__(self, world, rank):
		self.world, self.rank, self.size = world, rank, world.n
		self.ncoll = 0
	def Get_rank(self): return self.rank
	def Get_size(self): return self.size
	# --- collectives
	def _coll(self, kind, data, finish, meta=None):
		w = self.world
		w.pause(self.rank, lambda: True)
		k = self.ncoll; self.ncoll += 1
		while len(w.coll) <= k: w.coll.append({"kind": kind, "meta": meta, "data": {}})
		c = w.coll[k]
		if c["kind"] != kind or c["meta"] != meta: raise CommError("rank %d calls %s %s while another rank calls %s %s" % (self.rank, kind, meta, c["kind"], c["meta"]))
		c["data"][self.rank] = data
		w.pause(self.rank, lambda: len(c["data"]) == self.size)
		return finish([c["data"][r] for r in range(self.size)])
	def Barrier(self): self._coll("Barrier", None, lambda d: None)
	barrier = Barrier
	def allgather(self, obj): return self._coll("allgather", copy.deepcopy(obj), copy.deepcopy)
	def gather(self, obj, root=0): return self._coll("gather", copy.deepcopy(obj), lambda d: copy.deepcopy(d) if self.rank == root else None, root)
	def allreduce(self, obj, op=None): return self._coll("allreduce", copy.deepcopy(obj), lambda d: apply_op(op, copy.deepcopy(d)))
	def bcast(self, obj, root=0): return self._coll("bcast", copy.deepcopy(obj), lambda d: copy.deepcopy(d[root]), root)
	def Bcast(self, buf, root=0):
		arr, _, _ = spec(buf)
		def fin(d):
			if d[root].size != arr.size or d[root].dtype != arr.dtype: raise CommError("Bcast sizes differ")
			flat(arr)[...] = d[root]
		self._coll("Bcast", flat(arr).copy(), fin, root)
	def Allreduce(self, sbuf, rbuf, op=None):
		s, _, _ = spec(sbuf); r, _, _ = spec(rbuf)
		def fin(d):
			if any(v.size != r.size or v.dtype != r.dtype for v in d): raise CommError("Allreduce: sizes or types differ")
			flat(r)[...] = apply_op(op, d)
		self._coll("Allreduce", flat(s).copy(), fin)
	def Reduce(self, sbuf, rbuf, op=None, root=0):
		s, _, _ = spec(sbuf)
		def fin(d):
			if self.rank == root:
				r, _, _ = spec(rbuf)
				if any(v.size != r.size or v.dtype != r.dtype for v in d): raise CommError("Reduce: sizes or types differ")
				flat(r)[...] = apply_op(op, d)
		self._coll("Reduce", flat(s).copy(), fin, root)
	def Allgather(self, sbuf, rbuf):
		s, _, _ = spec(sbuf); r, _, _ = spec(rbuf)
		def fin(d):
			if len({(v.size,v.dtype) for v in d}) != 1: raise CommError("Allgather: sizes or types differ between ranks")
			if r.size != d[0].size*self.size or r.dtype != d[0].dtype: raise CommError("Allgather: receive buffer")
			flat(r)[...] = np.concatenate(d)
		self._coll("Allgather", flat(s).copy(), fin)
	def Allgatherv(self, sbuf, rbuf):
		s, _, _ = spec(sbuf); r, c, o = spec(rbuf, self.size)
		def fin(d):
			if c is None: raise CommError("Allgatherv without counts")
			for i, v in enumerate(d):
				if v.size != c[i]: raise CommError("Allgatherv: rank %d sends %d but %d are expected" % (i, v.size, c[i]))
				if v.size and v.dtype != r.dtype: raise CommError("Allgatherv: types differ")
				flat(r)[o[i]:o[i]+c[i]] = v
		self._coll("Allgatherv", flat(s).copy(), fin)
	def Alltoallv(self, sbuf, rbuf):
		s, sc, so = spec(sbuf, self.size); r, rc, ro = spec(rbuf, self.size)
		if sc is None or rc is None: raise CommError("Alltoallv without counts")
		def fin(d):
			for i, parts in enumerate(d):
				v = parts[self.rank]
				if v.size != rc[i]: raise CommError("Alltoallv: rank %d sends %d to rank %d, which expects %d" % (i, v.size, self.rank, rc[i]))
				if v.size and v.dtype != r.dtype: raise CommError("Alltoallv: types differ")
				flat(r)[ro[i]:ro[i]+rc[i]] = v
		self._coll("Alltoallv", [flat(s)[a:a+n].copy() for a, n in zip(so,sc)], fin)
	# --- point to point. eager: a send never waits; otherwise it waits for the receiver
	def _send(self, dest, tag, payload):
		w = self.world
		w.pause(self.rank, lambda: True)
		msg = {"src": self.rank, "tag": tag, "data": payload, "taken": False}
		w.mail[dest].append(msg)
		if not w.eager: w.pause(self.rank, lambda: msg["taken"])
	def _recv(self, source, tag, kind):
		w = self.world
		def find():
			for m in w.mail[self.rank]:
				if (source in (None,-1) or m["src"] == source) and (tag in (None,-1) or m["tag"] == tag): return m
		w.pause(self.rank, lambda: find() is not None)
		m = find(); w.mail[self.rank].remove(m); m["taken"] = True
		if m["data"][0] != kind: raise CommError("receiving %s but %s was sent" % (kind, m["data"][0]))
		return m["data"][1]
	def send(self, obj, dest, tag=0): self._send(dest, tag, ("obj",copy.deepcopy(obj)))
	def recv(self, buf=None, source=-1, tag=-1): return self._recv(source, tag, "obj")
	def Send(self, buf, dest, tag=0): self._send(dest, tag, ("buf",flat(spec(buf)[0]).copy()))
	def Recv(self, buf, source=-1, tag=-1):
		d = self._recv(source, tag, "buf"); r, _, _ = spec(buf)
		if d.size > r.size or (d.size and d.dtype != r.dtype): raise CommError("Recv: message does not fit the buffer")
		flat(r)[:d.size] = d

class World:
	"""Run fn(comm, rank) on n ranks under one schedule."""
	def __init__(self, n, choices=(), eager=True, policy=None):
		self.n, self.eager, self.choices, self.policy = n, eager, list(choices), policy
		self.coll, self.mail = [], [[] for i in range(n)]
		self.trace = []      # (number of runnable ranks, index chosen)
	def pause(self, rank, pred):
		self.pred[rank] = pred
		self.ctl.release()
		self.sem[rank].acquire()
		if self.dead: raise Killed()
	def run(self, fn):
		n = self.n
		self.ctl = threading.Semaphore(0); self.sem = [threading.Semaphore(0) for i in range(n)]
		self.pred = [lambda: True]*n; self.dead = False
		done = [False]*n; res = [None]*n; err = [None]*n
		def body(r):
			self.sem[r].acquire()
			try:
				if self.dead: raise Killed()
				res[r] = fn(Comm(self, r), r)
			except Killed: pass
			except BaseException as e: err[r] = e
			done[r] = True
			self.ctl.release()
		th = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(n)]
		for t in th: t.start()
		last = None; problem = None; self.steps = 0
		while not all(done):
			run = [r for r in range(n) if not done[r] and self.pred[r]()]
			if any(e is not None for e in err): break
			if not run: problem = "deadlock: ranks %s wait forever" % [r for r in range(n) if not done[r]]; break
			i = len(self.trace)
			# Default: keep running the same rank if possible, otherwise the first after it
			order = sorted(run, key=lambda r: (r-(0 if last is None else last))%n)
			if self.policy: order = self.policy(order)
			k = self.choices[i] if i < len(self.choices) else 0
			if k >= len(order): raise RuntimeError("schedule does not apply")
			self.trace.append((len(order),k,bool(last in run)))
			last = order[k]; self.steps += 1
			self.sem[last].release(); self.ctl.acquire()
		if not all(done):
			self.dead = True
			for r in range(n):
				if not done[r]: self.sem[r].release(); th[r].join()
		for t in th: t.join()
		for r, e in enumerate(err):
			if e is not None: raise CommError("rank %d: %s: %s" % (r, type(e).__name__, e)) from e
		if problem: raise CommError(problem)
		if any(self.mail): raise CommError("messages were never received")
		return res

def schedules(n, fn, check, eager=True, bound=None, limit=None):
	"""Enumerate every schedule (bound: at most that many deviations from the
	default order). Calls check(results, choices) for each. Returns the number."""
	stack = [()]; count = 0
	while stack:
		ch = stack.pop()
		w = World(n, ch, eager)
		res = w.run(fn)
		check(res, ch); count += 1
		dev = sum(c != 0 for c in ch)
		for i in range(len(ch), len(w.trace)):
			if bound is not None and dev >= bound: break
			for k in range(1, w.trace[i][0]):
				stack.append(tuple(t[1] for t in w.trace[:i])+(k,))
		if limit and count >= limit: break
	return count
