"""C24: the iterative solvers, and interrupting and resuming them."""
import numpy as np, itertools, os
from pixell import utils, enmap
from ..core import chunked
from .. import geo as G

RULE   = "every symmetric matrix over a lattice of entries x right hand side x starting point x preconditioner x vector type; every iterate is compared with the minimiser over the Krylov space computed by dense projection; every history of step, save and load operations on two solver objects sharing one state file, against a counter model: the solver that is at step k has bit for bit the state of the uninterrupted run at step k"
BOUNDS = "1-3 unknowns over the entry lattice, 4 and 6 unknowns for fixed matrices, all right hand sides over {-1,0,1,2}, 4 preconditioners, real and complex, 32 and 64 bit, maps as vectors; all histories of up to 4 (quick) or 5 operations of 6 kinds"
ASSUME = ["systems are positive definite with condition number below 1e4 (for the residual minimiser also indefinite ones on which the method does not break down)", "the right hand side is not already solved by the starting point", "steps after full convergence are not compared"]

def mats(n):
	out = []
	offs = (-1,0,1) if n < 3 else (-1,0,0.5)
	for d in itertools.product((1,2,3.5),repeat=n):
		for o in itertools.product(offs,repeat=n*(n-1)//2):
			A = np.diag(np.array(d,float)); k = 0
			for i in range(n):
				for j in range(i): A[i,j] = A[j,i] = o[k]; k += 1
			out.append(A)
	return out
def fixed(n):
	i = np.arange(n); A = 1.0/(1+np.abs(i[:,None]-i[None])) + np.diag(1.0+i); return A
def krylov(A, M, b, x0, k, mode):
	"""Minimiser over x0+K_k(MA,Mr0) of the energy (cg) or residual norm (minres)"""
	r = M.dot(b-A.dot(x0)); V = []
	for j in range(k):
		v = r.copy()
		for rep in range(2):
			for q in V: v = v-q*np.vdot(q,v)
		nv = np.linalg.norm(v)
		if nv < 1e-9*max(np.linalg.norm(r),1e-300): break
		V.append(v/nv); r = M.dot(A.dot(V[-1]))
	if not V: return x0
	V = np.array(V).T
	if mode == "cg": y = np.linalg.solve(V.conj().T.dot(A).dot(V), V.conj().T.dot(b-A.dot(x0)))
	else:            y = np.linalg.lstsq(A.dot(V), b-A.dot(x0), rcond=None)[0]
	return x0 + V.dot(y)
def run_cg(ctx, A, b, x0, Mname, dtype, tol):
	n = len(b); A = A.astype(dtype); b = b.astype(dtype)
	I = np.eye(n); Mm = {"none":I,"same":I,"jacobi":np.diag(1/np.diag(A).real),"full":np.linalg.inv(A+0.3*I),"exact":np.linalg.inv(A)}[Mname].astype(dtype)
	kw = {} if Mname == "none" else {"M":(lambda x: x) if Mname == "same" else (lambda x: Mm.dot(x))}
	calls = []
	def fA(x): k = x.copy(); calls.append(1); r = A.dot(x); ctx.eq(x,k,"argument"); return r
	kb = b.copy(); xs = None if x0 is None else np.array(x0,dtype); kx = None if xs is None else xs.copy()
	start = np.zeros(n,dtype) if xs is None else xs.copy()
	if np.linalg.norm(b-A.dot(start)) < 1e-9: return
	s = utils.CG(fA, b, x0=xs, **kw); e = np.linalg.solve(A,b); en0 = None; r0 = b-A.dot(start); rz0 = np.vdot(r0,Mm.dot(r0)).real
	en = np.vdot(start-e,A.dot(start-e)).real; en00 = en
	for k in range(1,n+1):
		s.step(); ctx.check(s.i == k, "step count")
		w = krylov(A.astype(complex if np.iscomplexobj(A) else float),Mm,b,start,k,"cg"); ctx.close(s.x, w, tol, tol*np.max(np.abs(e))+tol*np.max(np.abs(start)), "iterate", ) if True else 0
		ctx.check(s.x.dtype == dtype, "precision kept")
		e2 = np.vdot(s.x-e,A.dot(s.x-e)).real; ctx.check(e2 <= en*(1+tol)+tol**2*en00, "energy error grows"); en = e2
		r = b-A.dot(s.x); rz = np.vdot(r,Mm.dot(r)).real; ctx.close(np.real(s.err), rz/rz0, tol*10, tol**1.5, "error estimate")
		ctx.eq(b,kb,"right hand side is kept")
		if kx is not None: ctx.eq(xs,kx,"starting point is kept")
		if abs(s.err) < tol**2*1e-2: break
	ctx.close(s.x, e, tol*10, tol*10*np.max(np.abs(e)), "solved in as many steps as unknowns")
def unit_cg(ctx, items):
	for n, mi in items:
		A = mats(n)[mi] if n < 4 else fixed(n)
		ev = np.linalg.eigvalsh(A)
		if ev[0] < 1e-3: continue
		bs = list(itertools.product((-1,0,1,2),repeat=n)) if n < 4 else [tuple(((i*k)%5)-1.7 for i in range(n)) for k in range(1,6)]
		for b in bs:
			if not any(b): continue
			for x0 in (None,(1,)*n,tuple(range(n))):
				for Mname in ("none","same","jacobi","full","exact") if (ctx.thorough or n < 3 or sum(b)%2 == 0) else ("none","full"):
					with ctx.case("conjugate gradients", A=A, b=b, x0=x0, M=Mname): run_cg(ctx, A, np.array(b,float), x0, Mname, np.float64, 1e-7)
			with ctx.case("conjugate gradients, single", A=A, b=b): run_cg(ctx, A, np.array(b,float), None, "jacobi", np.float32, 2e-3)
			if n > 1:
				C = A.astype(complex); C[0,1] += 0.5j; C[1,0] -= 0.5j
				if np.linalg.eigvalsh(C)[0] > 1e-3:
					for x0 in (None,tuple(range(n))):
						with ctx.case("conjugate gradients, complex", A=C, b=b, x0=x0): run_cg(ctx, C, np.array(b)*(1+0j)+1j*np.arange(n), x0, "full", np.complex128, 1e-7)
			# destroy_b changes nothing but the fate of b
			with ctx.case("destroy_b", A=A, b=b):
				v = np.array(b,float); s = utils.CG(lambda x: A.dot(x), v, destroy_b=True); t = utils.CG(lambda x: A.dot(x), np.array(b,float))
				for k in range(n):
					s.step(); t.step(); ctx.eq(s.x,t.x,"destroy_b")
					if t.err < 1e-14: break
def unit_minres(ctx, items):
	for n, mi, sh in items:
		A = mats(n)[mi] if n < 4 else fixed(n)
		A = A-np.eye(n)*sh; ev = np.linalg.eigvalsh(A)
		if np.min(np.abs(ev)) < 1e-2: continue
		bs = list(itertools.product((-1,0,1,2),repeat=n)) if n < 4 else [tuple(((i*k)%5)-1.7 for i in range(n)) for k in range(1,6)]
		for b in bs:
			if not any(b): continue
			for x0 in (None,(1,)*n,tuple(range(n))):
				with ctx.case("residual minimiser", A=A, b=b, x0=x0):
					v = np.array(b,float); start = np.zeros(n) if x0 is None else np.array(x0,float); xs = None if x0 is None else start.copy(); r0 = v-A.dot(start)
					if np.linalg.norm(r0) < 1e-9: continue
					s = utils.Minres(lambda x: A.dot(x), v, x0=xs); e = np.linalg.solve(A,v); nr = np.linalg.norm(r0); ok = True
					for k in range(1,n+1):
						r = v-A.dot(s.x)
						if np.linalg.norm(r) < 1e-10*np.linalg.norm(r0): break
						if abs(r.dot(A.dot(r))) < 1e-2*r.dot(r): ok = False; break # method breaks down on indefinite systems
						s.step(); ctx.check(s.i == k, "step count"); ctx.close(s.x, krylov(A,np.eye(n),v,start,k,"res"), 1e-6, 1e-6*(np.max(np.abs(e))+np.max(np.abs(start))), "iterate")
						r = v-A.dot(s.x); ctx.check(np.linalg.norm(r) <= nr*(1+1e-9)+1e-12, "residual grows"); nr = np.linalg.norm(r); ctx.close(s.err, r.dot(A.dot(r))/r0.dot(A.dot(r0)), 1e-5, 1e-8, "err"); ctx.close(s.abserr, r.dot(A.dot(r))/n, 1e-5, 1e-8, "abserr")
					if ok: ctx.close(s.x, e, 1e-6, 1e-6*np.max(np.abs(e)), "solved in as many steps as unknowns")
					ctx.eq(v,np.array(b,float),"right hand side is kept"); x0 is None or ctx.eq(xs,start,"starting point is kept")
# --- interruption ---
def mkproblem(kind):
	n = 6; A = fixed(n)
	if kind == "array":  return (lambda x: A.dot(x)), np.arange(1,n+1)*1.0, {}, None
	if kind == "single": return (lambda x: A.astype(np.float32).dot(x)), (np.arange(1,n+1)*1.0).astype(np.float32), {}, None
	if kind == "complex":
		C = A.astype(complex); C[0,3] += 0.4j; C[3,0] -= 0.4j; return (lambda x: C.dot(x)), np.arange(1,n+1)*(1+0.5j), {"M":lambda x: x/np.diag(A)}, None
	if kind == "precon": return (lambda x: A.dot(x)), np.arange(1,n+1)*1.0, {"M":lambda x: x/np.diag(A)}, np.ones(n)
	shape, wcs = (2,3), G.mkwcs("CAR",(0,0),(-1,1),(1,1))
	def op(m):
		assert m.wcs is not None; return enmap.enmap(A.dot(m.reshape(-1)).reshape(m.shape), m.wcs)
	def M(m): assert m.wcs is not None; return m/np.diag(A).reshape(m.shape)
	b = enmap.enmap(np.arange(1,n+1).reshape(shape)*1.0, wcs)
	if kind == "map plain": return op, b, {"dot":lambda a,b: float(np.sum(a*b))}, None
	if kind == "map": return op, b, {"M":M,"dot":lambda a,b: float(np.sum(a*b))}, None
	return op, b, {"M":M,"dot":lambda a,b: float(np.sum(a*b))}, b*0+0.5
KINDS = ("array","single","complex","precon","map","map x0","map plain")
def state(s): return [np.array(getattr(s,k)) for k in ("i","rz","x","r","p")]
def mk(kind, seedx=None):
	A, b, kw, x0 = mkproblem(kind); return utils.CG(A, b.copy(), x0=x0 if seedx is None else b*seedx, **kw)
def same(ctx, s, ref, msg):
	for k, a, b in zip(("i","rz","x","r","p"), state(s), ref):
		ctx.eq(a, b, msg+" "+k); ctx.check(a.dtype == b.dtype, msg+" type of "+k)
	ctx.check(s.x.shape == ref[2].shape, "shape")
OPS = ("step a","save a","load a","step b","save b","load b")
def unit_hist(ctx, items):
	N = 6; fname = os.path.join(ctx.wdir,"state.hdf")
	for kind, seq in items:
		with ctx.case("step, save and load", kind=kind, history=[OPS[o] for o in seq]):
			ref = unit_hist.cache.get(kind)
			if ref is None:
				s = mk(kind); ref = [(state(s), s.err)]
				for k in range(N): s.step(); ref.append((state(s), s.err))
				unit_hist.cache[kind] = ref
			if os.path.exists(fname): os.remove(fname)
			# b starts from somewhere else, but loading the state makes it take over a's run. Before that it is on its own track
			S = {"a":mk(kind),"b":mk(kind,0.25)}; track = {"a":"a","b":"b"}; pos = {"a":0,"b":0}; saved = None
			refb = unit_hist.cache.get((kind,"b"))
			if refb is None:
				s = mk(kind,0.25); refb = [(state(s), s.err)]
				for k in range(N): s.step(); refb.append((state(s), s.err))
				unit_hist.cache[kind,"b"] = refb
			R = {"a":ref,"b":refb}
			for o in seq:
				op, w = OPS[o].split()
				if op == "step": S[w].step(); pos[w] += 1
				elif op == "save": S[w].save(fname); saved = (track[w],pos[w])
				elif saved is None: continue
				else: S[w].load(fname); track[w], pos[w] = saved
				for v in "ab":
					st, err = R[track[v]][pos[v]]; same(ctx, S[v], st, "%s after %s:" % (v,OPS[o])); ctx.close(float(np.real(S[v].err)), float(np.real(err)), 1e-6, 0, "err")
			if kind.startswith("map"):
				for v in "ab":
					ctx.check(isinstance(S[v].x, enmap.ndmap) and S[v].x.wcs is not None, "the solution is still a map")
unit_hist.cache = {}
def unit_resume(ctx, items):
	"""Interrupt at every step, any number of times"""
	N = 6
	for kind, cuts in items:
		with ctx.case("interrupted run", kind=kind, cuts=cuts):
			fname = os.path.join(ctx.wdir,"r.hdf"); s = mk(kind); ref = [state(s)]
			for k in range(N): s.step(); ref.append(state(s))
			s = mk(kind)
			for k in range(N):
				if k in cuts: s.save(fname); del s; s = mk(kind); s.load(fname); same(ctx, s, ref[k], "restored")
				s.step(); same(ctx, s, ref[k+1], "step %d" % (k+1))
def units(tier):
	items = [(n,i) for n in (1,2,3) for i in range(len(mats(n)))]+[(4,0),(6,0)]
	if tier == "quick": items = [it for it in items if it[0] != 3 or it[1]%6 == 0]
	us = chunked("cg", items, unit_cg, 16)
	m = [(n,i,sh) for n in (1,2,3) for i in range(len(mats(n))) for sh in (0,1.4)]+[(4,0,0),(6,0,0),(6,0,3.3)]
	if tier == "quick": m = [it for it in m if it[0] != 3 or it[1]%6 == 0]
	us += chunked("minres", m, unit_minres, 16)
	D = 4 if tier == "quick" else 5
	h = []
	for k in KINDS:
		for L in range(1,D+1):
			for seq in itertools.product(range(6),repeat=L):
				if k not in ("array","map") and L == D: continue
				if any(OPS[o].startswith("load") for o in seq) and not any(OPS[o].startswith("save") for o in seq): continue
				h.append((k,seq))
	us += chunked("hist", h, unit_hist, 24)
	us += chunked("resume", [(k,c) for k in KINDS for L in range(1,7) for c in itertools.combinations(range(6),L)], unit_resume, 8)
	return us
