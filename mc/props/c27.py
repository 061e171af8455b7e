"""C27: power spectrum tables."""
import numpy as np, itertools, os
from pixell import powspec
from ..core import chunked

RULE   = "every component count x ordering scheme x number of entries kept x matrix axis position for compressing and expanding symmetric matrices, against the written-out orders of the three schemes; every multipole range x direction for scaling; every table of rows and columns within the bound written to disk in every layout and read back by every reader"
BOUNDS = "1-5 components, all truncations, up to 2 extra dimensions on either side; multipole ranges starting at 0..3 with gaps, 1-5 rows, 1-8 columns"
ASSUME = ["the monopole is zero in scaled spectra, where the scaling is singular", "files hold 8 significant digits", "the unsymmetric correlation function is returned flattened"]

def order(n, scheme):
	nc = next(k for k in range(1,20) if k*(k+1)//2 >= n)
	if scheme == "stable": full = [w for c in range(nc) for w in [(c,c)]+[(i,c) for i in range(c)]]; return full[:n]
	if scheme in ("diag",None): return [(i,i+d) for d in range(nc) for i in range(nc-d)][:n]
	off = set([(i,j) for i in range(nc) for j in range(i+1,nc)][:n-nc]); return [(i,j) for i in range(nc) for j in range(i,nc) if i == j or (i,j) in off][:n]
def unit_order(ctx, items):
	docs = {"stable":["00 11 01 22 02 12"[:3*n-1] for n in range(1,7)], "diag":["00","00 11","00 11 01","00 11 22 01","00 11 22 01 12","00 11 22 01 12 02"], "row":["00","00 11","00 01 11","00 01 11 22","00 01 02 11 22","00 01 02 11 12 22"]}
	for scheme, n in items:
		with ctx.case("compressed order", scheme=scheme, n=n):
			o = [tuple(int(x) for x in w) for w in powspec.compressed_order(n,scheme)]; ctx.check(o == order(n,scheme), "order %s" % (o,)); ctx.check(len(set(o)) == n, "entries are distinct")
			if n <= 6: ctx.check(" ".join("%d%d" % w for w in o) == docs[scheme or "diag"][n-1], "documented order")
	with ctx.case("unknown scheme"): ctx.raises(lambda: powspec.compressed_order(3,"foo"), ValueError, "unknown scheme")
def symm(nc, extra):
	m = (np.arange(nc*nc*int(np.prod(extra))).reshape((nc,nc)+extra)*7%23)-5.0; return m+np.swapaxes(m,0,1)
def unit_sym(ctx, items):
	for nc, scheme, extra, ax in items:
		full = symm(nc,extra); N = nc*(nc+1)//2; M = np.moveaxis(full,(0,1),(ax,ax+1)); nd = M.ndim
		for n in list(range(1,N+1))+[None]:
			with ctx.case("compress and expand", ncomp=nc, scheme=scheme, shape=M.shape, axis=ax, n=n):
				k = M.copy(); w = order(n or N,scheme)
				# the number of components of a truncated order is the smallest that can hold it, so the entries always exist
				want = np.moveaxis(np.array([full[i,j] for i,j in w]),0,ax); kw = {} if (ax,scheme) == (0,None) else {"axes":[ax,ax+1],"scheme":scheme}
				if n is not None: kw["n"] = n
				c = powspec.sym_compress(M,**kw); ctx.eq(M,k,"input"); ctx.eq(c,want,"compress"); ctx.eq(powspec.sym_compress(M,axes=[ax-nd,ax+1-nd],scheme=scheme,n=n), want, "negative axes"); ctx.eq(powspec.sym_compress(M,which=[list(x) for x in w],axes=[ax,ax+1]), want, "explicit order")
				kc = c.copy(); kx = {} if (ax,scheme) == (0,None) else {"axis":ax,"scheme":scheme}
				for ncomp in (None,nc):
					no = ncomp or max(max(x) for x in w)+1; we = np.zeros((no,no)+extra)
					for (i,j) in w: we[i,j] = we[j,i] = full[i,j]
					wm = np.moveaxis(we,(0,1),(ax,ax+1)); e = powspec.sym_expand(c,ncomp=ncomp,**kx); ctx.eq(c,kc,"input"); ctx.eq(e,wm,"expand"); ctx.eq(powspec.sym_expand(c,ncomp=ncomp,scheme=scheme,axis=ax-(nd-1)), wm, "negative axis"); ctx.eq(powspec.sym_expand(c,which=[list(x) for x in w],ncomp=ncomp,axis=ax), wm, "explicit order")
				if n in (None,N): ctx.eq(powspec.sym_expand(c,**kx), M, "round trip")
				# combined: off-diagonal entries count twice
				asym = full+np.arange(nc)[:,None].reshape((nc,1)+(1,)*len(extra))*0.25; A = np.moveaxis(asym,(0,1),(ax,ax+1)); cc = powspec.sym_compress(A,combined=True,axes=[ax,ax+1],scheme=scheme,n=n); ctx.close(cc, np.moveaxis(np.array([asym[i,j]+asym[j,i] if i != j else asym[i,i] for i,j in w]),0,ax), 1e-12, 1e-12, "combined")
				e = powspec.sym_expand(cc,combined=True,**kx); no = max(max(x) for x in w)+1; we = np.zeros((no,no)+extra)
				for (i,j) in w: we[i,j] = we[j,i] = (asym[i,j]+asym[j,i])/2
				ctx.close(e, np.moveaxis(we,(0,1),(ax,ax+1)), 1e-12, 1e-12, "combined expand")
				ci = powspec.sym_compress(M.astype(int),axes=[ax,ax+1],scheme=scheme,n=n); ctx.eq(ci,want,"integers"); ctx.close(powspec.sym_expand(np.moveaxis(np.moveaxis(ci,ax,0)*1,0,ax),combined=True,**kx)*1.0, powspec.sym_expand(c,combined=True,**kx), 0, 1e-12, "integers, combined")
def unit_scale(ctx, items):
	for l0, nl, lead, direction, extra in items:
		with ctx.case("scaling", l0=l0, nl=nl, lead=lead, direction=direction, extra=extra):
			l = np.arange(l0,l0+nl); a = (np.arange(int(np.prod(lead+(nl,)))).reshape(lead+(nl,))*5%11)+1.0; k = a.copy(); lz = np.maximum(l,1e-300)
			f = np.where(l > 0, (2*np.pi/np.where(l > 0,l*(l+1.0),1)**(1+extra))**direction, 0); r = powspec.scale_spectrum(a,direction,extra=extra,l=l); ctx.eq(a,k,"input"); ctx.close(r, a*f, 1e-12, 0, "scale"); ctx.close(powspec.scale_spectrum(r,-direction,extra=extra,l=l), a*(l > 0), 1e-12, 0, "undone by the opposite direction")
			ctx.close(powspec.scale_spectrum(a.astype(int),direction,extra=extra,l=l), a*f, 1e-12, 0, "integers"); ctx.close(powspec.scale_spectrum(a.tolist(),direction,extra=extra,l=l), a*f, 1e-12, 0, "list")
			g = np.where(l > 0, 1/np.where(l > 0,l**4*2.726e6**2,1.0)**direction, 0); p = powspec.scale_camb_scalar_phi(a,direction,l=l); ctx.eq(a,k,"input"); ctx.close(p, a*g, 1e-12, 0, "phi"); ctx.close(powspec.scale_camb_scalar_phi(p,-direction,l=l), a*(l > 0), 1e-12, 0, "phi undone")
			if l0 == 0: ctx.close(powspec.scale_spectrum(a,direction,extra=extra), a*f, 1e-12, 0, "default multipoles"); ctx.close(powspec.scale_camb_scalar_phi(a,direction), a*g, 1e-12, 0, "phi, default multipoles")
def table(ls, ncol): return ((np.arange(len(ls)*ncol).reshape(ncol,len(ls))*7+3)%17)*0.125+1
def place(ls, t):
	r = np.zeros((len(t),max(ls)+1)); r[:,list(ls)] = t; return r
def sc(l, extra=0): return np.where(l > 0, 2*np.pi/np.where(l > 0,l*(l+1.0),1)**(1+extra), 0)
def expand(t, scheme, nc=None):
	w = order(len(t),scheme); n = nc or max(max(x) for x in w)+1; r = np.zeros((n,n,t.shape[1]))
	for (i,j), v in zip(w,t): r[i,j] = r[j,i] = v
	return r
def unit_read(ctx, items):
	f = os.path.join(ctx.wdir,"s.txt")
	for ls, ncol, inds, scale, scheme, ncol_keep in items:
		with ctx.case("read table", multipoles=ls, columns=ncol, inds=inds, scale=scale, expand=scheme, ncol=ncol_keep):
			if not inds: ls = tuple(range(len(ls)))
			t = table(ls,ncol); np.savetxt(f, (np.concatenate([[ls],t],0) if inds else t).T, fmt="%.10e"); d = place(ls,t); l = np.arange(d.shape[1])
			if scale: d = d*sc(l)
			if ncol_keep: d = d[:ncol_keep]
			r = powspec.read_spectrum(f,inds=inds,scale=scale,expand=scheme,ncol=ncol_keep); ctx.close(r, d if scheme is None else expand(d,scheme), 1e-9, 0, "read_spectrum")
			if scheme is not None and len(d) <= 3: ctx.close(powspec.read_spectrum(f,inds=inds,scale=scale,expand=scheme,ncol=ncol_keep,ncomp=3), expand(d,scheme,3), 1e-9, 0, "ncomp")
			if ncol >= 4 and scheme in ("diag",None) and not ncol_keep:
				ex = scheme is not None; c, p = powspec.read_camb_scalar(f,inds=inds,scale=scale,expand=ex); d = place(ls,t); wc = d[:3]*(sc(l) if scale else 1); wp = d[3]*(np.where(l > 0,1/np.where(l > 0,l**4*2.726e6**2,1.0),0) if scale else 1)
				ctx.close(c, expand(wc,"diag",3) if ex else wc, 1e-9, 0, "camb scalar, cmb"); ctx.close(p, wp[None,None] if ex else wp, 1e-9, 0, "camb scalar, phi")
				ctx.close(powspec.read_phi_spectrum(f,coloff=3,inds=inds,scale=scale,expand="diag" if ex else None), wp[None,None] if ex else wp, 1e-9, 0, "phi")
			if ncol >= 7 and scheme in ("diag",None) and not ncol_keep:
				ex = scheme is not None; d = place(ls,t)[:7]; np.savetxt(f, (np.concatenate([[ls],t[:7]],0) if inds else t[:7]).T, fmt="%.10e")
				if scale: d = d*np.array([sc(l)]*4+[sc(l,1)]+[sc(l,0.5)]*2)
				r = powspec.read_camb_full_lens(f,inds=inds,scale=scale,expand=ex)
				if ex:
					w = np.zeros((4,4,d.shape[1]))
					for (i,j), v in zip(((1,1),(2,2),(3,3),(1,2),(0,0),(0,1),(0,2)),d): w[i,j] = w[j,i] = v
				else: w = d
				ctx.close(r, w, 1e-9, 0, "camb lens potential")
def unit_write(ctx, items):
	f = os.path.join(ctx.wdir,"w.txt")
	for nc, nl, inds, scale, scheme in items:
		with ctx.case("write and read", ncomp=nc, nl=nl, inds=inds, scale=scale, expand=scheme):
			s = symm(nc,(nl,))*(1+np.arange(nl)*0.01)*1e-7
			if scheme is None: s = s[0]
			k = s.copy(); powspec.write_spectrum(f,s,inds=inds,scale=scale,expand=scheme); ctx.eq(s,k,"input"); r = powspec.read_spectrum(f,inds=inds,scale=scale,expand=scheme); w = s*1.0
			if scale: w[...,0] = 0
			ctx.close(r, w, 2e-7, 0, "round trip")
			if inds: ctx.eq(np.loadtxt(f,ndmin=2)[:,0], np.arange(nl), "multipole column")
def unit_corr(ctx, items):
	from scipy.special import eval_legendre
	for nc, nl, npos in items:
		with ctx.case("correlation function", ncomp=nc, nl=nl, npos=npos):
			s = symm(nc,(nl,)); th = np.linspace(0,np.pi,npos) if npos > 1 else np.array([0.7]); l = np.arange(nl); P = np.array([eval_legendre(i,np.cos(th)) for i in l]); w = np.einsum("abl,lp->abp",s*(2*l+1)/(4*np.pi),P); k = s.copy()
			ctx.close(powspec.spec2corr(s,th), w, 1e-10, 1e-10, "symmetric"); ctx.close(powspec.spec2corr(s,np.cos(th),iscos=True), w, 1e-10, 1e-10, "cosines"); ctx.close(powspec.spec2corr(s,th,symmetric=False).reshape(w.shape), w, 1e-10, 1e-10, "all entries"); ctx.eq(s,k,"input"); ctx.close(powspec.spec2corr(s,th.reshape(1,-1)), w[:,:,None], 1e-10, 1e-10, "shape of positions")
def units(tier):
	us = chunked("order", [(s,n) for s in ("stable","diag","row",None) for n in range(1,29)], unit_order, 1)
	sy = [(nc,s,e,ax) for nc in range(1,6 if tier == "thorough" else 5) for s in ("stable","diag","row",None) for e in ((),(3,),(2,3)) for ax in range(len(e)+1)]
	us += chunked("sym", sy, unit_sym, 8)
	us += chunked("scale", [(a,b,c,d,e) for a in (0,1,2,3) for b in (1,2,3,6) for c in ((),(2,),(2,3)) for d in (1,-1) for e in (0,1,0.5,-1,-0.5,2)], unit_scale, 2)
	L = ((0,),(2,),(0,1),(2,3),(0,1,2),(2,3,4),(1,3,5),(2,3,4,5,6),(5,2,3))
	us += chunked("read", [(l,n,i,s,x,k) for l in L for n in range(1,9) for i in (True,False) for s in (True,False) for x in ("diag","stable","row",None) for k in (None,1,3) if not (k and k > n)], unit_read, 8)
	us += chunked("write", [(c,n,i,s,x) for c in (1,2,3,4) for n in (1,2,3,7) for i in (True,False) for s in (True,False) for x in ("diag","stable","row",None)], unit_write, 4)
	us += chunked("corr", [(c,n,p) for c in (1,2,3) for n in (1,2,3,5,9) for p in (1,2,5)], unit_corr, 2)
	return us
