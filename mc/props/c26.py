"""C26: per-pixel matrix operations."""
import numpy as np, itertools
from pixell import utils, enmap, array_ops
from ..core import chunked
from .. import geo as G

RULE   = "every symmetric matrix over a lattice of entries x exponent x precision, alone, in stacks and with the matrix axes in every pair of positions, against dense algebra done matrix by matrix (numpy inverse, products, pseudo-inverse and an eigen-decomposition by Jacobi-free definition X*X=A); every system, mask, axis placement for solving; every component split for conditional distributions, against the block formulas; every shape, offset and level set for row rolling and contours, against plain loops"
BOUNDS = "1x1 to 3x3 matrices with entries {-1,0,1,2} (3x3 thinned in quick), stacks of up to 3 leading dimensions, exponents {-2,-1,-0.5,0,0.5,1,1.5,2,3}; rows of up to 5 pixels rolled by -12..12; all maps of 3x3 pixels over 3 values (thinned) for contours"
ASSUME = ["applying the compiled matrix product is claimed for vectors; for two matrices its axis convention is undocumented and it is unused, so it is not compared", "for a negative integer power negative eigenvalues are kept, as the inverse requires"]
WCS = G.mkwcs("CAR",(0,0),(-1,1),(1,1))

def symmats(n, step=1, ent=(-1,0,1,2)):
	out = []
	for v in itertools.islice(itertools.product(ent,repeat=n*(n+1)//2),0,None,step):
		A = np.zeros((n,n)); A[np.triu_indices(n)] = v; A = A+np.triu(A,1).T; out.append(A)
	return out
def mpow(A, e):
	"""Reference for one matrix"""
	n = len(A); E, V = np.linalg.eigh(A.astype(float)); P = V[:,E > 1e-9].dot(np.diag(E[E > 1e-9])).dot(V[:,E > 1e-9].T) if np.any(E > 1e-9) else np.zeros((n,n))
	if float(e).is_integer():
		B = A if e >= 0 else np.linalg.pinv(A,rcond=1e-9)
		return np.linalg.matrix_power(B, int(abs(e)))
	B = P if e > 0 else np.linalg.pinv(P,rcond=1e-9); k = int(2*abs(e)) # half integers
	Eb, Vb = np.linalg.eigh(B); S = (Vb*np.sqrt(np.maximum(Eb,0)*(np.abs(Eb) > 1e-12))).dot(Vb.T)
	return np.linalg.matrix_power(S,k)
EXPS = (-2,-1,-0.5,0,0.5,1,1.5,2,3)
def unit_pow(ctx, items):
	for n, i0, mats in items:
		A = np.array(mats)
		for e in EXPS:
			want = np.array([mpow(a,e) for a in A])
			for dt, tol in ((np.float64,1e-9),(np.float32,2e-3)):
				with ctx.case("powers of a stack", n=n, first=i0, exp=e, dtype=np.dtype(dt).name):
					B = A.astype(dt); keep = B.copy(); r = utils.eigpow(B,e); ctx.eq(B,keep,"input"); ctx.check(r.dtype == dt, "precision"); ctx.close(r, want, tol, max(tol*10,1e-7), "stack")
			with ctx.case("powers one by one", n=n, first=i0, exp=e):
				for a, w in zip(A,want): ctx.close(utils.eigpow(a,e), w, 1e-9, 1e-7, "single matrix"); 
				ctx.close(utils.eigpow(A[0]*1e-60,e), want[0]*1e-60**e if e else want[0], 1e-6, 1e-7*max(1,np.max(np.abs(want[0])))*1e-60**e, "tiny units")
		m = len(A); A4 = np.array([A,A[::-1]]).reshape((2,m,n,n))*np.array([1,1e5])[:,None,None,None]
		for e in EXPS:
			want = np.array([[mpow(a,e) for a in A],[mpow(a,e)*1e5**e for a in A[::-1]]])
			for extra in ((),(1,)):
				B = A4.reshape(extra+A4.shape); W = want.reshape(B.shape); nd = B.ndim
				for p in itertools.permutations(range(nd),2):
					with ctx.case("matrix axes", n=n, first=i0, exp=e, axes=p, ndim=nd):
						Bp = np.moveaxis(B,(-2,-1),p); Wp = np.moveaxis(W,(-2,-1),p)
						for ax in (list(p),[x-nd for x in p]): ctx.close(utils.eigpow(Bp,e,axes=ax), Wp, 1e-9, 1e-7*max(1,1e5**e), "axes")
			with ctx.case("multi_pow", n=n, first=i0, exp=e):
				M = enmap.enmap(np.moveaxis(A4,(2,3),(0,1)),WCS); k = M.copy(); r = enmap.multi_pow(M,e); ctx.eq(M,k,"input"); ctx.check(isinstance(r,enmap.ndmap) and r.wcs.wcs.compare(WCS.wcs), "still a map"); ctx.close(r, np.moveaxis(want,(2,3),(0,1)), 1e-9, 1e-7*max(1,1e5**e), "multi_pow"); Mr = enmap.enmap(A4,WCS); ctx.close(enmap.multi_pow(Mr,e,axes=[-2,-1]), want, 1e-9, 1e-7*max(1,1e5**e), "other axes")
def unit_limits(ctx, items):
	"""The cut on small eigenvalues is relative to the same matrix's largest one"""
	for small, rlim, order in items:
		with ctx.case("eigenvalue limits", small=small, rlim=rlim, order=order):
			c, s = np.cos(0.4), np.sin(0.4); V = np.array([[c,-s],[s,c]]); sc = np.array([1,1e-8,1e8])[list(order)]
			A = np.array([V.dot(np.diag([x,x*small])).dot(V.T) for x in sc]); lim = 1e-13 if rlim is None else rlim
			want = np.array([V.dot(np.diag([1/x, 1/(x*small) if small > lim else 0])).dot(V.T) for x in sc])
			for shp in ((3,),(3,1),(1,3),(1,3,1)):
				B = A.reshape(shp+(2,2)); r = utils.eigpow(B,-1,rlim=rlim).reshape(3,2,2)
				for i in range(3): ctx.close(r[i], want[i], 1e-3, 1e-3*np.max(np.abs(want[i])), "matrix %d of stack %s" % (i,shp))
			# other powers are unaffected
			r = utils.eigpow(A,1,rlim=rlim); ctx.close(r/sc[:,None,None], A/sc[:,None,None], 1e-12, 1e-12, "positive power")
def unit_solve(ctx, items):
	for n, i0, mats in items:
		A = np.array([m for m in mats if abs(np.linalg.det(m)) > 1e-6])
		if len(A) == 0: continue
		m = len(A); A4 = np.array([A,A[::-1]]); A4[...,0,n-1] += 0.0; b = (np.arange(2*m*n).reshape(2,m,n)%7)-2.0; bm = np.stack([b,b[...,::-1]+1,b*2],-1)
		x = np.array([[np.linalg.solve(A4[i,j],b[i,j]) for j in range(m)] for i in range(2)]); xm = np.array([[np.linalg.solve(A4[i,j],bm[i,j]) for j in range(m)] for i in range(2)])
		for p in itertools.combinations(range(4),2):
			with ctx.case("solve", n=n, first=i0, axes=p):
				Ap = np.moveaxis(A4,(2,3),p); bp = np.moveaxis(b,2,p[0]); k1, k2 = Ap.copy(), bp.copy()
				for ax in (list(p),[q-4 for q in p]):
					ctx.close(utils.solve(Ap,bp,axes=ax), np.moveaxis(x,2,p[0]), 1e-9, 1e-9, "vectors"); ctx.close(utils.solve(Ap,np.moveaxis(bm,(2,3),p),axes=ax), np.moveaxis(xm,(2,3),p), 1e-9, 1e-9, "matrices")
				ctx.eq(Ap,k1,"A"); ctx.eq(bp,k2,"b")
		with ctx.case("solve one", n=n, first=i0): ctx.close(utils.solve(A[0],b[0,0]), x[0,0], 1e-9, 1e-9, "single"); ctx.close(utils.solve(A[0],b[0,0].astype(int)), x[0,0], 1e-9, 1e-9, "integers"); ctx.close(utils.solve(A,b[0]), x[0], 1e-9, 1e-9, "stack")
		for pat in range(4):
			with ctx.case("solve masked", n=n, first=i0, pattern=pat):
				good = A4[...,0,0] != 0; M = A4.copy(); hit = ((np.arange(2*m).reshape(2,m)>>1)&3) == pat; M[hit] = 0; good &= ~hit; k1, k2 = M.copy(), b.copy()
				want = np.where(good[...,None],x,0); ctx.close(utils.solve(M,b,masked=True), want, 1e-9, 1e-9, "vectors"); ctx.eq(b,k2,"right hand side"); ctx.eq(M,k1,"matrix")
				bk = bm.copy(); ctx.close(utils.solve(M,bm,masked=True), np.where(good[...,None,None],xm,0), 1e-9, 1e-9, "matrices"); ctx.eq(bm,bk,"right hand side")
				bi = b.astype(int); ctx.close(utils.solve(M,bi,masked=True), want, 1e-9, 1e-9, "integers")
def unit_mul(ctx, items):
	for n, m, lead, cplx, dt in items:
		with ctx.case("map_mul", n=n, m=m, lead=lead, complex=cplx, dtype=dt):
			ny, nx = 2, 3; mat = ((np.arange(np.prod(lead+(n,m,ny,nx),dtype=int)).reshape(lead+(n,m,ny,nx))*7)%11-4).astype(dt); vec = ((np.arange(np.prod(lead+(m,ny,nx),dtype=int)).reshape(lead+(m,ny,nx))*5)%13-6).astype(dt)
			if cplx: vec = vec*(1+0.5j); vec = vec.astype(np.complex64 if dt == "f4" else complex)
			for mk in (True,False):
				Mt = enmap.enmap(mat,WCS) if mk else mat; Vc = enmap.enmap(vec,WCS); k1, k2 = Mt.copy(), Vc.copy(); r = enmap.map_mul(Mt,Vc); ctx.eq(Mt,k1,"matrix"); ctx.eq(Vc,k2,"vector")
				want = np.zeros(lead+(n,ny,nx),vec.dtype)
				for I in np.ndindex(*lead):
					for y in range(ny):
						for x in range(nx): want[I+(slice(None),y,x)] = mat[I+(slice(None),slice(None),y,x)].dot(vec[I+(slice(None),y,x)])
				ctx.close(r, want, 1e-6, 1e-6, "per pixel"); ctx.check(isinstance(r,enmap.ndmap) and r.wcs.wcs.compare(WCS.wcs), "map"); ctx.check(r.dtype == want.dtype, "precision")
			if not lead:
				ctx.close(enmap.map_mul(2.5,Vc), 2.5*vec, 1e-6, 1e-6, "number"); ctx.close(enmap.map_mul(enmap.enmap(mat[0,0],WCS),Vc), mat[0,0]*vec, 1e-6, 1e-6, "single map"); ctx.close(enmap.map_mul(enmap.enmap(mat[0],WCS),Vc), mat[0]*vec, 1e-6, 1e-6, "component map")
		if not cplx and dt != "i4":
			with ctx.case("array_ops.matmul", n=n, m=m, lead=lead, dtype=dt):
				for ld in (lead,lead+(4,),(0,)):
					A = ((np.arange(np.prod(ld+(n,m),dtype=int)).reshape(ld+(n,m))*7)%11-4).astype(dt); b = ((np.arange(np.prod(ld+(m,),dtype=int)).reshape(ld+(m,))*5)%13-6).astype(dt); want = np.einsum("...ij,...j->...i",A,b)
					if not ld: continue
					for p in itertools.combinations(range(A.ndim),2):
						Ap = np.moveaxis(A,(-2,-1),p); bp = np.moveaxis(b,-1,p[0])
						if m != n and True:
							# output shape follows the first axis
							r = array_ops.matmul(Ap,bp,axes=list(p)) if n == m else None
						else: r = array_ops.matmul(Ap,bp,axes=list(p))
						if r is not None: ctx.close(r, np.moveaxis(want,-1,p[0]), 1e-6, 1e-6, "axes"); ctx.check(r.dtype == np.dtype(dt), "precision")
					if n == m:
						S = A+np.swapaxes(A,-1,-2); k = b.copy(); ctx.close(array_ops.matmul_sym(S,b), np.einsum("...ij,...j->...i",S,b), 1e-6, 1e-6, "symmetric"); ctx.eq(b,k,"input"); ctx.close(array_ops.matmul(A.astype("f4"),b.astype("f8")), want, 1e-6, 1e-6, "mixed")
def unit_rot(ctx, items):
	for shape, comps, spin, axis, dt in items:
		with ctx.case("rotate_pol", shape=shape, comps=comps, spin=spin, axis=axis, dtype=dt):
			m = enmap.enmap(((np.arange(np.prod(shape)).reshape(shape)*7)%11-4).astype(dt),WCS); k = m.copy(); nd = len(shape); ax = axis%nd
			rest = tuple(s for i,s in enumerate(shape) if i > ax); scal = 0.37; amap = np.arange(np.prod(rest)).reshape(rest)*0.3 if rest else 0.5
			for ang in (scal,0.0,np.pi/4,amap):
				r = enmap.rotate_pol(m,ang,comps=list(comps),spin=spin,axis=axis); ctx.eq(m,k,"input"); ctx.check(isinstance(r,enmap.ndmap), "map")
				want = np.array(m,float); w = np.moveaxis(want,ax,0); s = np.moveaxis(np.array(m,float),ax,0); z = (s[comps[0]]+1j*s[comps[1]])*np.exp(1j*spin*np.array(ang)); w[comps[0]] = z.real; w[comps[1]] = z.imag
				ctx.close(r, want, 1e-5, 1e-5, "rotation"); b = enmap.rotate_pol(r,-np.array(ang),comps=list(comps),spin=spin,axis=axis); ctx.close(b, k, 1e-5, 1e-5, "undone by the opposite angle")
def unit_cond(ctx, items):
	for n, i0, mats in items:
		A = np.array([m+np.eye(n)*3*n for m in mats]); m = len(A)
		for L in range(1,n):
			for inds in itertools.combinations(range(n),L):
				un = [i for i in range(n) if i not in inds]; inds = list(inds)
				with ctx.case("conditional distribution", n=n, first=i0, known=inds):
					wA = np.array([a[np.ix_(un,inds)].dot(np.linalg.inv(a[np.ix_(inds,inds)])) for a in A]); wC = np.array([a[np.ix_(un,un)]-a[np.ix_(un,inds)].dot(np.linalg.inv(a[np.ix_(inds,inds)])).dot(a[np.ix_(inds,un)]) for a in A])
					for nm, ps, back in (("first",np.moveaxis(A,0,-1),lambda x: np.moveaxis(x,-1,0)),):
						gA, gC = utils.build_conditional(ps,inds); ctx.close(back(gA), wA, 1e-9, 1e-9, "A"); ctx.close(back(gC), wC, 1e-9, 1e-9, "cov")
					gA, gC = utils.build_conditional(A,inds,axes=[-2,-1]); ctx.close(gA, wA, 1e-9, 1e-9, "A, axes"); ctx.close(gC, wC, 1e-9, 1e-9, "cov, axes"); gA, gC = utils.build_conditional(A[0].astype(int),inds); ctx.close(gA, wA[0], 1e-9, 1e-9, "A, integers"); ctx.close(gC, wC[0], 1e-9, 1e-9, "cov, integers")
		with ctx.case("covariance tools", n=n, first=i0):
			for a in A:
				C, s = utils.cov2corr(a); ctx.close(np.diag(C), np.ones(n), 1e-12, 0, "unit diagonal"); ctx.close(s**2, np.diag(a), 1e-12, 0, "std"); ctx.close(utils.corr2cov(C,s), a, 1e-12, 1e-12, "back")
				for k in list(range(1,n+1))+[None]:
					E, V = utils.eigsort(a,nmax=k); ctx.check(np.all(np.diff(E) <= 0), "sorted"); ctx.close(E, np.sort(np.linalg.eigvalsh(a))[::-1][:k], 1e-9, 1e-9, "largest"); ctx.close(a.dot(V), V*E, 1e-9, 1e-8, "eigenvectors"); Q = utils.eigsort(a,nmax=k,merged=True); ctx.close(Q.dot(Q.T), (V*E).dot(V.T), 1e-9, 1e-8, "merged")
				k = a.copy(); z = utils.nodiag(a); ctx.eq(a,k,"input"); ctx.close(z, a-np.diag(np.diag(a)), 0, 0, "nodiag")
def unit_flat(ctx, items):
	for shape, axes, pos in items:
		with ctx.case("partial_flatten", shape=shape, axes=axes, pos=pos):
			a = np.arange(np.prod(shape)).reshape(shape); f = utils.partial_flatten(a,axes,pos); nd = len(shape); ax = [x%nd for x in axes]; rest = [i for i in range(nd) if i not in ax]
			want = np.transpose(a,ax+rest).reshape([shape[i] for i in ax]+[-1]); ctx.eq(f, np.moveaxis(want,-1,pos), "flatten"); ctx.eq(utils.partial_expand(f,shape,axes,pos), a, "expand")
def unit_rows(ctx, items):
	for ny, nx, offs, dt in items:
		with ctx.case("roll_rows", ny=ny, nx=nx, offsets=offs, dtype=dt):
			for lead in ((),(2,),(2,1)):
				m = np.arange(np.prod(lead+(ny,nx),dtype=int)).reshape(lead+(ny,nx)).astype(dt); want = m.copy()
				for y in range(ny): want[...,y,:] = np.roll(m[...,y,:],offs[y],-1)
				k = m.copy(); ctx.eq(array_ops.roll_rows(m,np.array(offs)), want, "roll"); ctx.eq(m,k,"input"); o = np.full_like(m,-1); r = array_ops.roll_rows(m,np.array(offs),o); ctx.eq(o,want,"given output"); e = enmap.enmap(m,WCS); ctx.eq(array_ops.roll_rows(e,np.array(offs)), want, "map")
def unit_contour(ctx, items):
	for vals, levels, dt in items:
		with ctx.case("contours", values=vals, levels=levels, dtype=dt):
			m = np.array(vals,dt); ny, nx = m.shape; b = np.array([[1 if np.isnan(v) else 1+sum(v >= l for l in levels) for v in row] for row in m]); want = np.zeros((ny,nx),int)
			for y in range(ny-1):
				for x in range(nx-1):
					if b[y,x] != b[y,x+1]: want[y,x] = min(b[y,x],b[y,x+1])
					elif b[y,x] != b[y+1,x]: want[y,x] = min(b[y,x],b[y+1,x])
			k = m.copy(); r = array_ops.find_contours(m,np.array(levels,dt)); ctx.eq(np.array(r), want, "contours"); ctx.check(np.array_equal(m,k,equal_nan=True), "input")
def groups(n, k, step=1):
	ms = symmats(n,step); return [(n,i,[m.tolist() for m in ms[i:i+k]]) for i in range(0,len(ms),k)]
def units(tier):
	q = tier == "quick"
	g = groups(1,4)+groups(2,8)+groups(3,16,17 if q else 1)
	us = chunked("pow", g, unit_pow, 16)
	us += chunked("limits", list(itertools.product((1,1e-3,1e-6,1e-9,1e-11,1e-15),(None,1e-4,1e-8),itertools.permutations(range(3)))), unit_limits, 4)
	us += chunked("solve", groups(1,4)+groups(2,8)+groups(3,16,5 if q else 1), unit_solve, 8)
	us += chunked("mul", [(n,m,l,c,d) for n in (1,2,3) for m in (1,2,3) for l in ((),(1,),(2,),(2,3)) for c in (False,True) for d in ("f4","f8","i4")], unit_mul, 8)
	rot = [(sh,c,s,a,d) for sh in ((2,2,3),(3,2,3),(2,3,2,2)) for a in range(-len(sh),len(sh)) for c in itertools.permutations(range(-2,2),2) for s in (0,1,2,-2,3) for d in ("f4","f8","i4") if sh[a] >= 2 and c[0]%sh[a] != c[1]%sh[a]]
	us += chunked("rot", rot, unit_rot, 8)
	us += chunked("cond", groups(2,8)+groups(3,16,5 if q else 1), unit_cond, 8)
	us += chunked("flat", [(sh,ax,pos) for sh in ((2,),(2,3),(2,3,4),(2,1,3,4),(2,0,3)) for L in range(1,len(sh)+1) for ax in list(itertools.permutations(range(len(sh)),L))+[tuple(x-len(sh) for x in p) for p in itertools.permutations(range(len(sh)),L)] for pos in range(L+1) if np.prod([sh[i] for i in ax]) > 0], unit_flat, 4)
	rows = [(1,nx,(o,),d) for nx in (1,2,3,5) for o in range(-12,13) for d in ("f4","f8")]+[(2,nx,o,"f8") for nx in (1,2,3,4) for o in itertools.product(range(-9,10),repeat=2)]
	us += chunked("rows", rows, unit_rows, 4)
	cs = [(np.array(v,float).reshape(3,3).tolist(),l,d) for v in itertools.islice(itertools.product((0,1,2.5),repeat=9),0,None,37 if q else 1) for l in ((0.5,),(0,1,2),(1.0,2.5),(3,)) for d in ("f4","f8")]
	cs += [(np.array([0 if not (i>>j)&1 else np.nan for j in range(6)]).reshape(2,3).tolist(),(-1,0,1),"f8") for i in range(64)]+[(np.array(v,float).reshape(2,2).tolist(),l,"f8") for v in itertools.product((0,1,2,3,np.nan),repeat=4) for l in ((0.5,1.5),(1,2,3))]
	us += chunked("contour", cs, unit_contour, 4)
	return us
