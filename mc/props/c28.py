"""C28: the unified flat/curved harmonic interface."""
import numpy as np, itertools
from pixell import enmap, uharm, curvedsky
from .. import geo as G, sht
from ..core import chunked
deg = np.pi/180

RULE   = "every geometry x mode x spin layout x unit impulse map and x unit harmonic mode (the operators are real-linear, so this covers them completely); every shape of filter x harmonic coefficients; every profile of the family x geometry; every map extent of the lattice for the choice of mode; oracle: direct Fourier sums, brute-force spherical harmonics and Legendre sums"
BOUNDS = "flat maps up to 9x11, curved maps up to 10x20, lmax up to 7 (quick) or 9; spins 0, 2 and [0,2]; 1..3 components"
ASSUME = ["the flat quadrature weights are the pixel areas, which is exact only for equal-area pixels", "radial profiles are compared for profiles that vanish inside the map", "curved-sky profiles are integrated on the sample points given, so they are compared to 1e-3 of their largest value", "flat hprof2rprof averages in radial bins, and hprof_rpow in curved mode samples the profile; both are compared at the percent level"]

FLAT = {"sq":((6,6),G.mkwcs("CAR",[3,0],[-0.5,0.5],[3.5,3.5])), "odd":((5,7),G.mkwcs("CAR",[-100,0],[0.4,-0.2],[1,1])), "cea":((8,5),G.mkwcs("CEA",[10,0],[-0.5,0.25],[4,4])), "big":((9,11),G.mkwcs("CEA",[0,0],[-0.2,0.2],[6,5])), "row":((1,6),G.mkwcs("CAR",[0,0],[-1,1],[2,1]))}
CURV = {"f1":((8,16),None,"Fejer1",5), "cc":((9,16),None,"CC",6), "f1b":((10,20),None,"Fejer1",7), "band":((8,16),(2,6),"Fejer1",4), "patch":((8,16),None,"patch",4)}
def cgeo(name):
	shape, cut, var, lmax = CURV[name]
	if var == "patch":
		s, w = enmap.fullsky_geometry(shape=(12,24), variant="Fejer1"); return (5,7), w[3:8,4:11], lmax
	s, w = enmap.fullsky_geometry(shape=shape, variant=var)
	if cut: s, w = (cut[1]-cut[0],shape[1]), w[cut[0]:cut[1]]
	return tuple(int(v) for v in s), w, lmax
def ext(shape, wcs): return np.array(enmap.extent(shape,wcs))
def lflat(shape, wcs):
	e = ext(shape,wcs)*np.sign(wcs.wcs.cdelt[::-1]); return [2*np.pi*np.fft.fftfreq(n)*n/L for n,L in zip(shape,e)]
def dftmat(shape):
	F = [np.exp(-2j*np.pi*np.outer(np.fft.fftfreq(n)*n,np.arange(n))/n) for n in shape]
	return np.einsum("ai,bj->abij",F[0],F[1])
def spins(spec): return {"0":(1,0), "2":(2,2), "02":(3,[0,2])}[spec]
def flatops(shape, wcs, spec):
	"""[ncomp,ky,kx,ncomp,y,x] complex analysis operator with the physical normalisation"""
	nc, spin = spins(spec); D = dftmat(shape)*(np.prod(ext(shape,wcs))**0.5/np.prod(shape))
	ly, lx = lflat(shape,wcs); phi = np.arctan2(-lx[None,:]+0*ly[:,None], ly[:,None]+0*lx[None,:])
	A = np.zeros((nc,)+shape+(nc,)+shape,complex)
	i0 = 0
	if spec != "2": A[0,:,:,0] = D; i0 = 1
	if spec != "0":
		c, s = np.cos(2*phi)[:,:,None,None], np.sin(2*phi)[:,:,None,None]
		A[i0,:,:,i0], A[i0,:,:,i0+1], A[i0+1,:,:,i0], A[i0+1,:,:,i0+1] = c*D, s*D, -s*D, c*D
	return A
def unit_flat(ctx, items):
	for g, spec, dt in items:
		shape, wcs = FLAT[g]; nc, spin = spins(spec); A = flatops(shape,wcs,spec); n = nc*shape[0]*shape[1]
		full = (nc,)+shape; M = A.reshape(n,n); rt = np.dtype(dt); tol = 2e-5 if rt == np.float32 else 1e-11
		with ctx.case("flat transforms", geo=g, spin=spec, dtype=dt):
			uht = uharm.UHT(shape, wcs, mode="flat"); ctx.check(uht.mode == "flat" and uht.npix == shape[0]*shape[1], "mode")
			ly, lx = lflat(shape,wcs); ctx.close(uht.l, np.hypot(ly[:,None],lx[None,:]), 1e-9, 1e-9, "multipoles")
			imp = np.eye(n).reshape((n,)+full).astype(rt)
			def app(f): return np.array([np.asarray(f(enmap.ndmap(m.copy(),wcs))) for m in imp])
			sc = np.abs(M).max()
			H = app(lambda m: uht.map2harm(m, spin=spin)).reshape(n,n).T
			sq = shape[0] == shape[1]
			ctx.close(H, M, 0, tol*sc*4, "map2harm")
			J = app(lambda m: uht.harm2map_adjoint(m, spin=spin)).reshape(n,n).T
			parea = np.prod(ext(shape,wcs))/(shape[0]*shape[1])
			ctx.close(J*parea, M, 0, tol*sc*4, "harm2map_adjoint is map2harm per pixel area")
			ct = np.result_type(rt,np.complex64)
			# harm2map of unit modes, real and imaginary
			Minv = M.conj().T/parea/1.0
			for part in (1,1j):
				h = (np.eye(n)*part).reshape((n,)+full).astype(ct)
				B = np.array([np.asarray(uht.harm2map(enmap.ndmap(a.copy(),wcs),spin=spin)) for a in h]); ctx.check(B.dtype == rt or rt == np.float64, "dtype")
				ctx.close(B.reshape(n,n).T, (Minv*part).real, 0, tol*np.abs(Minv).max()*4, "harm2map")
				C = np.array([np.asarray(uht.map2harm_adjoint(enmap.ndmap(a.copy(),wcs),spin=spin)) for a in h])
				ctx.close(C.reshape(n,n).T.real, (M.conj().T*part).real, 0, tol*sc*4, "map2harm_adjoint")
			# round trip
			for m in imp[::3]:
				mm = enmap.ndmap(m.copy(),wcs); r = uht.harm2map(uht.map2harm(mm,spin=spin),spin=spin); ctx.close(r, m, 0, tol*10, "round trip"); ctx.eq(mm, m, "untouched")
			if g in ("cea","big"):
				q = uht.quad_weights(); m = enmap.ndmap(imp[1],wcs); ctx.close(q+np.zeros(shape), np.full(shape,parea), 2e-3, 0, "pixel areas")
				ctx.close(uht.harm2map_adjoint(m*q,spin=spin), uht.map2harm(m,spin=spin), 0, 3e-3*sc, "quadrature")
def almidx(lmax): return {(l,m):i for i,(l,m) in enumerate(sht.LM(lmax))}
def unit_curved(ctx, items):
	for g, spec, dt in items:
		shape, wcs, lmax = cgeo(g); nc, spin = spins(spec); rt = np.dtype(dt); ct = np.result_type(rt,np.complex64); tol = 3e-5 if rt == np.float32 else 1e-9
		dec, ra = [np.asarray(a) for a in enmap.posmap(shape, wcs, safe=False)]; th, ph = np.pi/2-dec.reshape(-1), ra.reshape(-1)
		ix = almidx(lmax); nlm = len(ix); npix = len(th)
		B = []
		if spec != "2": B += [((0,)+k[1:], np.concatenate([mp,np.zeros((nc-1,npix))])) for k, mp in sht.basis(0,lmax,lmax,th,ph)]
		if spec != "0": B += [((k[0]+nc-2,)+k[1:], np.concatenate([np.zeros((nc-2,npix)),mp])) for k, mp in sht.basis(2,lmax,lmax,th,ph) if k[1] >= 2]
		with ctx.case("curved transforms", geo=g, spin=spec, dtype=dt):
			uht = uharm.UHT(shape, wcs, mode="curved", lmax=lmax); ctx.check(uht.mode == "curved" and uht.lmax == lmax, "mode"); ctx.eq(uht.l, np.arange(lmax+1), "multipoles")
			imp = np.eye(nc*npix).reshape((-1,nc)+shape).astype(rt); imp = imp if ctx.thorough else imp[::3]
			adj = np.array([uht.harm2map_adjoint(enmap.ndmap(m.copy(),wcs),spin=spin) for m in imp]); ana = np.array([uht.map2harm(enmap.ndmap(m.copy(),wcs),spin=spin) for m in imp])
			full = g in ("f1","cc","f1b")
			q = None
			if full or g == "band":
				q = np.broadcast_to(np.asarray(uht.quad_weights()),shape).reshape(-1)
				if full: ctx.close(np.sum(q), 4*np.pi, 1e-6, 0, "weights add to the area")
			for (c,l,m,part), mp in B:
				a = np.zeros((nc,nlm),ct); a[c,ix[l,m]] = (1,1j)[part]; keep = a.copy()
				got = uht.harm2map(a, spin=spin); ctx.eq(a, keep, "untouched"); ctx.check(got.dtype == rt, "dtype")
				ctx.close(np.asarray(got).reshape(nc,-1), mp, 0, tol*3, "harm2map"); 
				f = (1 if m == 0 else 2); w = mp.reshape(-1) if ctx.thorough else mp.reshape(-1)[::3]
				x = adj[:,c,ix[l,m]]; ctx.close((x.real,x.imag)[part]*f, w, 0, tol*3, "harm2map_adjoint")
				x = ana[:,c,ix[l,m]]; x = (x.real,x.imag)[part]
				if full and 2*l < shape[0]:
					z = uht.harm2map_adjoint(got*uht.quad_weights().astype(rt), spin=spin); lo = np.array([L <= shape[0]-1-l for L,_ in sht.LM(lmax)])
					ctx.close(z[:,lo], a[:,lo], 0, tol*10, "quadrature is exact for band limited maps")
				t = uht.map2harm_adjoint(a, spin=spin); t = np.asarray(t).reshape(-1); t = t if ctx.thorough else t[::3]
				ctx.close(t, x*f, 0, tol*3, "map2harm_adjoint")
				if full:
					r = uht.map2harm(got, spin=spin); ctx.close(r, a, 0, tol*10, "round trip")
def unit_iter(ctx, items):
	for g, niter in items:
		shape, wcs, lmax = cgeo(g)
		with ctx.case("iterations", geo=g, niter=niter):
			u0, u = uharm.UHT(shape, wcs, mode="curved", lmax=lmax), uharm.UHT(shape, wcs, mode="curved", lmax=lmax, niter=niter)
			m = enmap.ndmap(np.arange(shape[0]*shape[1]).reshape(shape)%7-2.5,wcs)
			a = u0.map2harm(m)
			for i in range(niter): a = a+u0.map2harm(m-u0.harm2map(a))
			ctx.close(u.map2harm(m), a, 1e-9, 1e-9, "refinement")
			b = np.zeros(len(sht.LM(lmax)),complex)
			for i in range(len(b)):
				b[:] = 0; b[i] = 1; ctx.close(np.sum(u.map2harm_adjoint(b.copy())*m), u.map2harm(m)[i].real*(1 if i <= lmax else 2), 1e-8, 1e-8, "adjoint of the iterations")
def legendre(lmax, x):
	P = [np.ones_like(x), x]
	for l in range(2,lmax+1): P.append(((2*l-1)*x*P[-1]-(l-1)*P[-2])/l)
	return np.array(P[:lmax+1])
def unit_prof(ctx, items):
	for kind, g, par in items:
		if kind == "flat":
			shape, wcs = FLAT[g]
			with ctx.case("flat profiles", geo=g, par=par):
				uht = uharm.UHT(shape, wcs, mode="flat"); e = ext(shape,wcs); pix = e/np.array(shape); R = np.min(pix*(np.array(shape)//2-1))*par
				if R <= 0: continue
				r = np.linspace(0,R,20); br = np.array([np.cos(np.pi/2*r/R)**2, 1-r/R, np.where(r>R*0.7,0,1)*(r<R)])
				cy, cx = np.array(shape)//2-1; dec, ra = [np.asarray(a) for a in enmap.posmap(shape,wcs)]
				d = np.arccos(np.clip(np.sin(dec)*np.sin(dec[cy,cx])+np.cos(dec)*np.cos(dec[cy,cx])*np.cos(ra-ra[cy,cx]),-1,1))
				D = dftmat(shape); oy, ox = np.meshgrid(np.arange(shape[0])-cy,np.arange(shape[1])-cx,indexing="ij")
				ky, kx = [np.fft.fftfreq(n)*n for n in shape]
				E = np.exp(-2j*np.pi*(ky[:,None,None,None]*oy/shape[0]+kx[:,None,None]*ox/shape[1]))
				want = np.array([np.einsum("abij,ij->ab",E,np.interp(d,r,b,right=0)).real*np.prod(pix) for b in br])
				# the sky mean pixel size differs very slightly from the flat one
				got = uht.rprof2hprof(br,r); ctx.close(got, want, 1e-3, 1e-3*np.abs(want).max(), "rprof2hprof"); ctx.check(got.wcs is not None, "geometry")
				for i in range(3): ctx.close(uht.rprof2hprof(br[i],r), got[i], 1e-12, 1e-15, "single profile")
				if min(shape) >= 8:
					# transforming back recovers the samples at the bin centres
					w = np.array([uht.hprof2rprof(got[i], np.array([0.0])) for i in range(3)])
					ctx.close(w[:,0], br[:,0], 0, 0.05, "value at the centre"); ctx.close(uht.hprof2rprof(got, r), np.array([uht.hprof2rprof(a,r) for a in got]), 1e-10, 1e-12, "several profiles")
					ctx.close(uht.hprof2rprof(got, np.array([R*1.5])), np.zeros((3,1)), 0, 0.05, "nothing outside")
		else:
			lmax = g
			with ctx.case("curved profiles", lmax=lmax, width=par):
				shape, wcs, _ = cgeo("f1"); uht = uharm.UHT(shape, wcs, mode="curved", lmax=lmax)
				r = np.linspace(0,np.pi if par is None else par,1501); R = r[-1]
				br = np.array([np.cos(np.pi/2*r/R)**2, np.exp(-0.5*(r/(R/6))**2)])
				P = legendre(lmax, np.cos(r)); want = 2*np.pi*np.array([[np.trapezoid(b*p*np.sin(r),r) for p in P] for b in br])
				got = uht.rprof2hprof(br,r); ctx.close(got, want, 0, 1e-3*np.abs(want).max(), "rprof2hprof")
				ctx.close(uht.rprof2hprof(br[1],r), got[1], 1e-12, 1e-15, "single profile")
				l = np.arange(lmax+1); bl = np.array([np.exp(-0.1*l), np.eye(lmax+1)[lmax//2]])
				rs = np.linspace(0,np.pi,13); ctx.close(uht.hprof2rprof(bl,rs), np.einsum("al,lr->ar",bl*(2*l+1)/(4*np.pi),legendre(lmax,np.cos(rs))), 1e-9, 1e-9, "hprof2rprof")
				if par is None: ctx.close(uht.rprof2hprof(uht.hprof2rprof(bl,r),r), bl, 0, 1e-3, "inverse")
def unit_mul(ctx, items):
	for mode, g, nc, hs, inplace in items:
		shape, wcs, lmax = (FLAT[g]+(None,)) if mode == "flat" else cgeo(g)
		with ctx.case("hmul", mode=mode, geo=g, ncomp=nc, filter=hs, inplace=inplace):
			uht = uharm.UHT(shape, wcs, mode=mode, lmax=lmax); rng = np.random.default_rng(1)
			hdim = shape if mode == "flat" else (uht.ainfo.nelem,); fdim = shape if mode == "flat" else (lmax+1,)
			pre = () if nc == 0 else (nc,); n = max(nc,1)
			h = rng.standard_normal(pre+hdim)+1j*rng.standard_normal(pre+hdim)
			if mode == "curved": h[...,:lmax+1].imag = 0
			else: h = enmap.ndmap(h,wcs)
			f = rng.standard_normal({"l":(),"al":(n,),"abl":(n,n)}[hs]+fdim)
			if mode == "flat": f = enmap.ndmap(f,wcs)
			fl = np.asarray(f) if mode == "flat" else np.asarray(f)[...,[l for l,m in sht.LM(lmax)]]
			hh = np.asarray(h).reshape((n,)+hdim)
			want = {"l":lambda: hh*fl, "al":lambda: hh*fl, "abl":lambda: np.einsum("ab...,b...->a...",fl,hh)}[hs]().reshape(h.shape)
			keep, fk = h.copy(), f.copy()
			got = uht.hmul(f, h, inplace=inplace); ctx.close(got, want, 1e-12, 1e-12, "product"); ctx.eq(f, fk, "filter untouched")
			if inplace: ctx.close(h, want, 1e-12, 1e-12, "in place")
			else: ctx.eq(h, keep, "input untouched")
			# spectra
			if nc == 0:
				p = uht.harm2powspec(keep); p2 = uht.harm2powspec(keep, want)
				if mode == "flat": w1, w2 = np.abs(keep)**2, (keep*np.conj(want)).real
				else: w1, w2 = [np.array([sum((1 if m==0 else 2)*(keep[i]*np.conj(o[i])).real for i,(l,m) in enumerate(sht.LM(lmax)) if l == L)/(2*L+1) for L in range(lmax+1)]) for o in (keep,want)]
				ctx.close(p, w1, 1e-10, 1e-12, "auto spectrum"); ctx.close(p2, w2, 1e-10, 1e-12, "cross spectrum")
				ctx.close(uht.harm2powspec(keep, patch=True), w1 if mode == "flat" else w1/uht.fsky, 1e-10, 1e-12, "patch")
				# the total power is the variance of the map
				if mode == "flat" or g in ("f1","cc","f1b"):
					m = uht.harm2map(keep) if mode == "curved" else enmap.ndmap(rng.standard_normal(shape),wcs)
					pw = uht.harm2powspec(uht.map2harm(m) if mode == "flat" else keep)
					q = uht.quad_weights() if mode == "curved" else np.array(1.0)
					# the band limit of the square is twice that of the map, so integrate its monopole on a finer grid
					if mode == "curved":
						s2, w2_ = enmap.fullsky_geometry(shape=(4*lmax+6,8*lmax+12),variant="Fejer1"); m = curvedsky.alm2map(keep, enmap.zeros(s2,w2_)); q = curvedsky.quad_weights(s2,w2_)[:,None]
						msq = np.sum(m**2*q)/(4*np.pi)
					else: msq = np.mean(m**2)
					ctx.close(uht.sum_hprof(pw)/(4*np.pi), msq, 1e-6, 0, "total power")
				hp = uht.lprof2hprof(np.ones(2000)); ctx.close(uht.mean_hprof(hp), 1.0, 1e-9, 0, "mean of a constant")
				x = rng.standard_normal((3,)+fdim); wgt = np.ones(shape) if mode == "flat" else 2*np.arange(lmax+1)+1
				ctx.close(uht.mean_hprof(x), np.sum((x*wgt).reshape(3,-1),1)/np.sum(wgt), 1e-9, 1e-12, "weighted mean")
				ctx.close(uht.sum_hprof(x), np.sum((x*wgt).reshape(3,-1),1)*(1 if mode == "curved" else 4*np.pi/np.prod(ext(shape,wcs))), 1e-3, 1e-9, "weighted sum")
			hp = uht.lprof2hprof(np.exp(-np.arange(3000)*0.01)); w = np.exp(-0.01*np.arange(lmax+1)) if mode == "curved" else np.interp(uht.l,np.arange(3000),np.exp(-np.arange(3000)*0.01))
			ctx.close(hp, w, 1e-6, 1e-9, "lprof2hprof")
			hh2 = uht.hprof2harm(f); ctx.close(hh2, fl, 0, 0, "hprof2harm"); ctx.close(uht.hmul(f,h,inplace=False) if hs != "abl" else hh2, (hh2*h) if hs != "abl" else fl, 1e-12, 1e-12, "hprof2harm multiplies like the profile")
def unit_lprof(ctx, items):
	for mode, g, nl in items:
		shape, wcs, lmax = (FLAT[g]+(None,)) if mode == "flat" else cgeo(g)
		for pre in ((),(2,),(2,2)):
			with ctx.case("lprof2hprof", mode=mode, geo=g, nl=nl, pre=pre):
				uht = uharm.UHT(shape, wcs, mode=mode, lmax=lmax); lp = (np.arange(int(np.prod(pre))*nl)%5+1.0).reshape(pre+(nl,)); k = lp.copy()
				got = uht.lprof2hprof(lp); ctx.eq(lp,k,"untouched")
				if mode == "curved":
					want = np.zeros(pre+(lmax+1,)); n = min(nl,lmax+1); want[...,:n] = lp[...,:n]; ctx.eq(got, want, "values")
				else:
					inside = np.asarray(uht.l) <= nl-1; out = np.asarray(uht.l) >= nl
					want = np.array([np.interp(uht.l,np.arange(nl),p) for p in lp.reshape(-1,nl)]).reshape(pre+shape)
					ctx.check(got.shape == want.shape, "shape"); ctx.close(np.asarray(got)[...,inside], want[...,inside], 1e-9, 1e-9, "values"); ctx.check(np.all(np.asarray(got)[...,out] == 0), "zero beyond the profile")
def unit_rpow(ctx, items):
	for mode, g, power in items:
		with ctx.case("hprof_rpow", mode=mode, geo=g, power=power):
			if mode == "flat":
				shape, wcs = FLAT[g]; uht = uharm.UHT(shape,wcs,mode="flat"); pix = np.prod(ext(shape,wcs)/np.array(shape)); h = enmap.ndmap(np.exp(-(np.asarray(uht.l)/np.max(uht.l))**2*4),wcs)
				D = dftmat(shape); b = (np.einsum("abij,ab->ij",D.conj(),np.asarray(h))/np.prod(shape)/pix).real; want = np.einsum("abij,ij->ab",D,b**power)*pix
				ctx.close(uht.hprof_rpow(h,power), want, 1e-3, 1e-3*np.abs(want).max(), "power of the profile")
			else:
				lmax = g; sig = 12.0/lmax; l = np.arange(lmax+1); bl = np.exp(-0.5*l*(l+1)*(sig/3)**2)
				shape, wcs, _ = cgeo("f1"); uht = uharm.UHT(shape,wcs,mode="curved",lmax=lmax)
				r = np.linspace(0,np.pi,6001); P = legendre(lmax,np.cos(r)); b = np.einsum("l,lr->r",bl*(2*l+1)/(4*np.pi),P); want = 2*np.pi*np.trapezoid(b**power*P*np.sin(r),r,axis=1)
				ctx.close(uht.hprof_rpow(bl,power), want, 0, 0.01*np.abs(want).max(), "power of the profile")
def unit_mode(ctx, items):
	for d1, d2, sgn, maxd in items:
		ny = int(round(abs(d2-d1)/0.5)); dec0 = min(d1,d2)
		shape = (ny,4); wcs = G.mkwcs("CAR",[0,0],[-0.5,0.5*sgn],[2, 0.5-dec0/0.5 if sgn > 0 else max(d1,d2)/0.5+0.5])
		with ctx.case("choice of mode", decs=[d1,d2], sign=sgn, max_distortion=maxd):
			e = np.clip([dec0,max(d1,d2)],-90,90)*deg; c = np.cos(e); mn = max(c.min(),0); mx = 1 if e[0] <= 0 <= e[1] else c.max()
			want = "flat" if mx <= (1+maxd)*mn else "curved"
			if mn > 1e-9 and abs(mx/mn-1-maxd) < 1e-6: continue
			uht = uharm.UHT(shape, wcs, max_distortion=maxd) if maxd != 0.1 else uharm.UHT(shape, wcs)
			ctx.eq(uht.mode, want, "mode")
			if want == "curved": ctx.check(uht.lmax == 360 and uharm.UHT(shape,wcs,mode="curved",lmax=17).lmax == 17, "lmax")
			else: ctx.check(uharm.UHT(shape,wcs,mode="curved",lmax=5).mode == "curved", "explicit mode")
			ctx.raises(lambda: uharm.UHT(shape,wcs,mode="bent"), ValueError, "unknown mode")
def unit_full(ctx, items):
	for var, n in items:
		with ctx.case("mode of the full sky", variant=var, n=n):
			s, w = enmap.fullsky_geometry(shape=(n,2*n), variant=var); ctx.eq(uharm.UHT(s,w).mode, "curved", "mode")
def units(tier):
	t = tier == "thorough"
	yield from chunked("flat", [(g,s,d) for g in FLAT for s in ("0","2","02") for d in (("f8","f4") if t or g == "odd" else ("f8",))], unit_flat, 15)
	yield from chunked("curved", [(g,s,d) for g in CURV for s in ("0","2","02") for d in (("f8","f4") if t or g == "band" else ("f8",)) if t or not (g == "f1b")], unit_curved, 12)
	yield from chunked("iter", [(g,n) for g in ("f1","cc","band") for n in (1,2,3)], unit_iter, 3)
	yield from chunked("prof", [("flat",g,p) for g in FLAT for p in (0.6,0.9,1.0)]+[("curved",lm,w) for lm in ((8,20,50) if not t else (1,8,20,50,80)) for w in (None,0.5,1.5)], unit_prof, 4)
	yield from chunked("mul", [(m,g,nc,hs,i) for m,gs in (("flat",FLAT),("curved",CURV)) for g in gs for nc in (0,1,2,3) for hs in ("l","al","abl") for i in (False,True) if not (nc == 0 and hs != "l")], unit_mul, 8)
	yield from chunked("lprof", [(m,g,nl) for m,gs in (("flat",FLAT),("curved",CURV)) for g in gs for nl in (1,2,4,5,6,50,2000) if not (m == "flat" and nl == 1)], unit_lprof, 4)
	yield from chunked("rpow", [("flat",g,p) for g in ("sq","cea","big") for p in (1,2,3)]+[("curved",lm,p) for lm in (60,120) for p in (1,2)], unit_rpow, 4)
	decs = (-95,-90,-80,-60,-30,-10,0,10,24,25,30,60,85,90,95) if not t else range(-95,96,5)
	yield from chunked("mode", [(a,b,s,m) for a in decs for b in decs if a < b for s in (1,-1) for m in (0.1,0.02,1.0)], unit_mode, 8)
	yield from chunked("full", [(v,n) for v in ("Fejer1","CC") for n in range(2,30)], unit_full, 2)
