"""C32: matched filters and source finding."""
import numpy as np, itertools
from pixell import enmap, utils, uharm, analysis, wavelets, pointsrcs
from ..core import chunked

RULE   = "every filter x geometry x beam x noise spectrum x depth pattern x leading shape, applied to a unit impulse in every pixel, so that the whole filter matrix is compared with dense linear algebra on the noise model it documents; every subset of source positions on a lattice of (sub)pixel positions x flux patterns x noise models for the finders and measurers; every catalogue of up to the given length over the case alphabet for the multi-class ones; every list of signal-to-noise values over an alphabet for the grouping; oracle: rho = S'N^-1 m and kappa = S'N^-1 S written out as matrices"
BOUNDS = "patches of 9x10 to 12x14 pixels for the dense comparison (all pixels), 36x40 for the finders (up to 3 sources on a 3x3 lattice of positions with subpixel offsets), 1-3 components, catalogues of up to 3 (quick) or 4 entries in 2-3 classes; curved sky on a 6 degree full sky"
ASSUME = ["flat-sky filters are exact only where the pixel area is constant: 2e-5 at the equator and in the tangent plane, 5e-3 on the tilted patch, 2% for the curved-sky ones away from the poles", "lowcorr is exact in kappa only for white noise or uniform depth, and at the centre with high_acc; smoothivar only for uniform depth", "modellers work in single precision", "simulate is not claimed: it needs another package", "finder positions within half a pixel and fluxes within 10% for isolated sources"]

AM = utils.arcmin
def geo(kind, shape, res=0.5*utils.arcmin):
	c = {"eq":(0,0),"eq2":(0,100),"hi":(40,30),"tan":(40,30)}[kind]
	return enmap.geometry(np.array(c)*utils.degree, shape=shape, res=res, proj="tan" if kind == "tan" else "car")
TOL = {"eq":2e-5,"eq2":2e-5,"tan":2e-5,"hi":5e-3}
def beamf(name, l):
	s = 1.4*utils.fwhm*AM
	if name == "gauss": return np.exp(-0.5*l**2*s**2)
	if name == "wide":  return np.exp(-0.5*l**2*(2*s)**2)
	if name == "exp":   return 1/(1+(l*s)**2)**1.5
	return np.ones_like(l)*1.0
def specf(name, l):
	if name == "white": return np.ones_like(l)*1.0
	if name == "knee":  return 1/(1+((l+500)/4000)**-2)
	return np.exp(-(l/20000)**2)+0.1
def ivarf(name, shape):
	y, x = np.mgrid[:shape[0],:shape[1]]
	if name == "uniform": return np.ones(shape)*2.0
	if name == "wave":    return 1+0.5*np.sin(x*1.0+0.3*y)
	if name == "hole":    return np.where((y > 2)&(y < 5)&(x > 3)&(x < 7),0.0,1.0)
	return 1.0+y*0.1+(x%2)*0.3
def unit_dense(ctx, items):
	for kind, shape, bn, sn, vn in items:
		shape, wcs = geo(kind,shape); npix = shape[0]*shape[1]; uht = uharm.UHT(shape,wcs,mode="flat"); tol = TOL[kind]
		l = np.array(uht.l); B = enmap.enmap(beamf(bn,l),wcs); iN = enmap.enmap(specf(sn,l),wcs); pa = np.array(enmap.pixsizemap(shape,wcs)); p = pa.reshape(-1); pm = p.mean()
		fy, fx = [np.exp(-2j*np.pi*np.outer(np.arange(n),np.arange(n))/n) for n in shape]; F = np.kron(fy,fx)/npix**0.5   # unitary
		def op(h): return (F.conj().T@(np.array(h).reshape(-1)[:,None]*F)).real
		S = op(B)/p[None]; ivar = enmap.enmap(ivarf(vn,shape),wcs)*1e-3; v = np.array(ivar).reshape(-1); I = enmap.enmap(np.eye(npix).reshape((npix,)+shape),wcs)
		def rmat(r): return np.array(r).reshape(npix,npix).T
		def rel(a,b,t,msg): ctx.close(np.asarray(a)/np.abs(b).max(), np.asarray(b)/np.abs(b).max(), 0, t, msg)
		case = dict(geometry=kind, shape=shape, beam=bn, spectrum=sn, ivar=vn)
		if vn == "uniform":
			with ctx.case("constant covariance", **case):
				r, k = analysis.matched_filter_constcov(I,B,iN,uht); iC = op(iN)*pm; R = rmat(r); want = S.T@iC
				rel(R, want, 4*tol, "rho"); ctx.close(k, np.diag(want@S).mean(), 4*tol, 0, "kappa"); ctx.close(np.diag(R@S)/k, np.ones(npix), 0, 4*tol, "flux of a source in every pixel")
				ctx.check(np.shape(k) == (), "kappa is one number", state=("cov",kind,bn,sn))
				r1, k1 = analysis.matched_filter_constcov(I[:3],B,iN); ctx.close(np.array(r1), np.array(r[:3]), 1e-10, 1e-10*np.abs(R).max(), "default transform"); ctx.close(k1,k,1e-10,0,"default transform")
				r2, k2 = analysis.matched_filter_constcov(I[:6].reshape((2,3)+shape)*2.5,B,iN*3,uht); ctx.close(np.array(r2).reshape((6,)+shape)/7.5, np.array(r[:6]), 1e-9, 1e-10*np.abs(R).max(), "linear, for every leading axis"); ctx.close(k2,3*k,1e-10,0,"scaling")
		if sn == "white":
			with ctx.case("white", **case):
				r, k = analysis.matched_filter_white(I,B,ivar,uht); want = S.T*v[None]; R = rmat(r); kk = np.array(k).reshape(-1); kw = np.sum(S**2*v[:,None],0)
				rel(R, want, 4*tol, "rho"); rel(kk, kw, 4*tol, "kappa")
				b2 = uht.hprof_rpow(B,2); r1, k1 = analysis.matched_filter_white(I[:2],B,ivar,uht,B2=b2); ctx.close(np.array(k1),np.array(k),1e-10,0,"squared beam given")
				r1, k1 = analysis.matched_filter_white(I[:2],B,ivar); ctx.close(np.array(k1),np.array(k),1e-10,0,"default transform"); ctx.close(np.array(r1),np.array(r[:2]),1e-10,1e-10*np.abs(R).max(),"default transform")
		Vv = v**0.5; iC = op(iN); hC = op(np.array(iN)**0.5); exact = S.T@(Vv[:,None]*iC*Vv[None]); kex = np.sum(exact*S.T,1)
		with ctx.case("constant correlation", **case):
			keep = [np.array(x) for x in (B,iN,ivar)]
			r, k = analysis.matched_filter_constcorr_lowcorr(I,B,ivar,iN,uht); rel(rmat(r), exact, 6*tol, "lowcorr rho"); kk = np.array(k).reshape(-1); w = np.array(iN); bb = np.array(B)**2
			rel(kk, np.sum(S**2*v[:,None],0)*np.sum(bb*w)/np.sum(bb), 6*tol, "lowcorr kappa is the white one times the beam weighted mean spectrum")
			if sn == "white" or vn == "uniform": rel(kk, kex, 6*tol, "lowcorr kappa is exact")
			r, k2 = analysis.matched_filter_constcorr_lowcorr(I[:2],B,ivar,iN,uht,high_acc=True); c = (shape[0]//2)*shape[1]+shape[1]//2; kv = np.array(k2); kv = kv.reshape(-1,npix)[-1]
			ctx.close(kv[c]/kex.max(), kex[c]/kex.max(), 0, 6*tol, "high_acc is exact at the centre"); rel(kv, kk*kex[c]/kk[c], 6*tol, "high_acc only rescales")
			r, k3 = analysis.matched_filter_constcorr_lowcorr(I[:2],B,ivar,iN,S=lambda x:2*x,iS=lambda x:x/2); rel(np.array(r).reshape(2,-1).T, exact[:,:2], 6*tol, "skew operators, default transform"); rel(np.array(k3).reshape(-1), kk, 1e-10, "skew operators leave kappa alone")
			r, k = analysis.matched_filter_constcorr_smoothivar(I,B,ivar,iN,uht); rel(rmat(r), Vv[:,None]*(S.T@iC)*Vv[None], 6*tol, "smoothivar rho"); rel(np.array(k).reshape(-1), v*np.mean(np.sum((S.T@iC)*S.T,1)), 6*tol, "smoothivar kappa")
			if vn == "uniform": rel(np.array(k).reshape(-1), kex, 6*tol, "smoothivar kappa is exact")
			r1, k1 = analysis.matched_filter_constcorr_smoothivar(I[:2],B,ivar,iN); ctx.close(np.array(k1),np.array(k),1e-10,0,"default transform"); ctx.close(np.array(r1),np.array(r[:2]),1e-10,1e-10*np.abs(exact).max(),"default transform")
			r, k = analysis.matched_filter_constcorr_dual(I,B,ivar,iN,uht); D = S.T@hC@(v[:,None]*hC); rel(rmat(r), D, 6*tol, "dual rho"); rel(np.array(k).reshape(-1), np.sum(D*S.T,1), 6*tol, "dual kappa")
			r, k1 = analysis.matched_filter_constcorr_dual(I[:2],B,ivar,iN,S=lambda x:2*x,iS=lambda x:x/2); rel(np.array(r).reshape(2,-1).T, D[:,:2], 6*tol, "dual skew operators"); rel(np.array(k1).reshape(-1), np.array(k).reshape(-1), 1e-10, "dual skew")
			for x, y in zip((B,iN,ivar),keep): ctx.eq(np.array(x), y, "input untouched")
			ctx.eq(np.array(I).reshape(npix,npix), np.eye(npix), "map untouched")
def unit_curved(ctx, items):
	for y, x, bfw, sn in items:
		shape, wcs = enmap.fullsky_geometry(res=6*utils.degree); uht = uharm.UHT(shape,wcs,mode="curved",lmax=20); l = uht.l
		B = np.exp(-0.5*l*(l+1)*(bfw*utils.fwhm*utils.degree)**2); iN = {"white":np.ones(21),"knee":1/(1+((l+0.5)/5)**-2.0)}[sn]; pa = enmap.pixsizemap(shape,wcs); dec, ra = enmap.pix2sky(shape,wcs,[y,x])
		with ctx.case("curved", pix=(y,x), fwhm=bfw, spectrum=sn):
			c = np.cos(np.array(enmap.modrmap(shape,wcs,[dec,ra]))); P = [np.ones_like(c),c]
			for i in range(2,21): P.append(((2*i-1)*c*P[-1]-(i-1)*P[-2])/i)
			m = enmap.enmap(sum((2*i+1)/(4*np.pi)*B[i]*P[i] for i in range(21)),wcs); ivar = pa*1.0; ktrue = np.sum((2*l+1)/(4*np.pi)*B**2*iN); kw = np.sum((2*l+1)/(4*np.pi)*B**2)
			r, k = analysis.matched_filter_constcov(m,B,iN,uht); ctx.close(k, ktrue, 1e-9, 0, "kappa"); ctx.close(r[y,x]/k, 1, 0, 0.02, "constcov flux"); ctx.check(True,"state",state=(y,x,bfw,sn))
			r, k = analysis.matched_filter_white(m,B,ivar,uht); ctx.close(r[y,x]/k[y,x], 1, 0, 0.02, "white flux"); ctx.close(k[y,x], kw, 0.02, 0, "white kappa")
			for fn in ("lowcorr","smoothivar","dual"):
				r, k = getattr(analysis,"matched_filter_constcorr_"+fn)(m,B,ivar,iN,uht); ctx.close(r[y,x]/k[y,x], 1, 0, 0.02, fn+" flux"); ctx.close(k[y,x], ktrue, 0.05, 0, fn+" kappa")
def corr(n): return np.eye(n)+0.2*np.tri(n,k=-1)+0.2*np.tri(n,k=-1).T+np.diag(np.arange(n)*0.5)
def unit_nmat(ctx, items):
	for kind, shape, n, sn, vn in items:
		shape, wcs = geo(kind,shape); npix = shape[0]*shape[1]; tol = TOL[kind]; l = np.array(enmap.modlmap(shape,wcs)); pa = float(enmap.pixsize(shape,wcs)); names = ("gauss","wide","exp")[:n]
		beam = enmap.enmap(np.array([beamf(b,l) for b in names]),wcs); C = corr(n); iN = enmap.enmap(np.linalg.inv(C)[:,:,None,None]*specf(sn,l),wcs)*1e3; ivar = enmap.enmap(np.array([ivarf(vn,shape)*(i+1) for i in range(n)]),wcs)
		fy, fx = [np.exp(-2j*np.pi*np.outer(np.arange(k),np.arange(k))/k) for k in shape]; F = np.kron(fy,fx)/npix**0.5
		def op(h): return (F.conj().T@(np.array(h).reshape(-1)[:,None]*F)).real
		S = [op(b)/pa for b in beam]; I = np.eye(npix).reshape((npix,)+shape)
		def apply(N, beam, **kw):
			R = np.zeros((n,npix,n,npix)); K = None
			for c in range(n):
				for q in range(npix):
					m = enmap.zeros((n,)+shape,wcs); m[c] = I[q]; keep = m.copy(); r, K = N.matched_filter(m,beam,**kw); R[:,:,c,q] = np.array(r).reshape(n,npix)
					if q == 0: ctx.eq(np.array(m),np.array(keep),"map untouched")
			return R, np.array(K).reshape(n,n,npix)
		def rel(a,b,t,msg): ctx.close(np.asarray(a)/np.abs(b).max(), np.asarray(b)/np.abs(b).max(), 0, t, msg)
		case = dict(geometry=kind, shape=shape, n=n, spectrum=sn, ivar=vn)
		full = np.array([[op(iN[a,b]) for b in range(n)] for a in range(n)])
		if vn == "uniform":
			with ctx.case("NmatConstcov", **case):
				N = analysis.NmatConstcov(iN,1); R, K = apply(N,beam); want = np.array([[S[a].T@full[a,b]*pa for b in range(n)] for a in range(n)]).transpose(0,2,1,3)
				rel(R, want, 6*tol, "rho"); rel(K, np.array([[np.diag(S[a].T@full[a,b]@S[b])*pa for b in range(n)] for a in range(n)]), 6*tol, "kappa")
				ap = enmap.enmap(ivarf("wave",shape),wcs); N2 = analysis.NmatConstcov(iN,ap); m = enmap.enmap(np.array([I[(3*i+5)%npix]+0.5*I[i] for i in range(n)]),wcs); r2, k2 = N2.matched_filter(m,beam); r1, k1 = N.matched_filter(m*ap,beam); rel(np.array(r2),np.array(r1),1e-9,"apodization multiplies the map"); ctx.close(np.array(k2),np.array(k1),1e-10,0,"kappa")
				cache = {"other":1}; r3, k3 = N.matched_filter(m,beam,cache=cache); r1, k1 = N.matched_filter(m,beam); rel(np.array(r3),np.array(r1),1e-9,"with a cache"); b2 = beam[::-1].copy(); r3, k3 = N.matched_filter(m,b2,cache=cache); r1, k1 = N.matched_filter(m,b2); rel(np.array(r3),np.array(r1),1e-9,"second beam from the cache"); ctx.close(np.array(k3),np.array(k1),1e-10,1e-12*np.abs(np.array(k1)).max(),"kappa with a cache")
				fl, df = analysis.solve_mapsys(k1,r1); kk = np.array(k1); rr = np.array(r1)
				for y in range(shape[0]):
					for x in range(0,shape[1],3): ctx.close(np.array(fl[:,y,x]), np.linalg.solve(kk[:,:,y,x],rr[:,y,x]), 1e-7, 1e-7*np.abs(np.array(fl)).max(), "solve"); ctx.close(np.array(df[:,y,x]), np.diag(np.linalg.inv(kk[:,:,y,x]))**0.5, 1e-7, 0, "uncertainty")
				if n == 1: f1, d1 = analysis.solve_mapsys(k1[0,0],r1[0]); ctx.close(np.array(f1),np.array(fl[0]),1e-9,1e-12,"scalar system"); ctx.close(np.array(d1),np.array(df[0]),1e-9,0,"scalar system")
		with ctx.case("NmatConstcorr", **case):
			N = analysis.NmatConstcorr(iN,ivar); R, K = apply(N,beam); V = np.array(ivar).reshape(n,npix)**0.5; want = np.array([[S[a].T@(V[a][:,None]*full[a,b]*V[b][None]) for b in range(n)] for a in range(n)]).transpose(0,2,1,3)
			rel(R, want, 6*tol, "rho")
			ws = np.array([[np.sum(beam[a]*iN[a,b]*beam[b])/np.sum(beam[a]*beam[b]) for b in range(n)] for a in range(n)]); base = np.array([np.maximum(np.sum(S[a]**2*V[a][:,None]**2,0),0)**0.5 for a in range(n)])
			rel(K, base[:,None]*ws[:,:,None]*base[None], 6*tol, "kappa")
			if n == 1 and (vn == "uniform" or sn == "white"): rel(K[0,0], np.sum(want[0,:,0]*S[0].T,1), 6*tol, "kappa is exact")
			m = enmap.enmap(np.array([I[(3*i+5)%npix]+0.5*I[i] for i in range(n)]),wcs); r1, k1 = N.matched_filter(m,beam); r2, k2 = N.matched_filter(m,beam,beam2=analysis.rpow(beam,2)); rel(np.array(r2),np.array(r1),1e-10,"squared beam given"); rel(np.array(k2),np.array(k1),1e-10,"squared beam given")
			cache = {"other":1}; N.matched_filter(m,beam[::-1].copy(),cache=cache); r3, k3 = N.matched_filter(m,beam,cache=cache); rel(np.array(r3),np.array(r1),1e-9,"from the cache"); rel(np.array(k3),np.array(k1),1e-9,"from the cache")
			rel(np.array(analysis.rmul(beam,beam)), np.array(analysis.rpow(beam,2)), 1e-10, "rmul of equals is rpow"); rel(np.array(analysis.rop(beam,beam)), np.array(analysis.rpow(beam,2)), 1e-10, "rop")
			rel(np.array([op(x) for x in analysis.rpow(beam,2)]), np.array([S[a]**2*pa for a in range(n)]), 6*tol, "rpow squares the profile")
def unit_wave(ctx, items):
	for kind, shape, n, bname, pat in items:
		shape, wcs = geo(kind,shape); tol = TOL[kind]; l = np.array(enmap.modlmap(shape,wcs)); pa = float(enmap.pixsize(shape,wcs)); beam = enmap.enmap(np.array([beamf(b,l) for b in ("wide","gauss","exp")[:n]]),wcs)
		basis = {"trim":lambda: wavelets.ButterTrim(step=2),"trim2":lambda: wavelets.ButterTrim(step=2**0.5),"butter":lambda: wavelets.Butterworth(step=2)}[bname](); wt = wavelets.WaveletTransform(uharm.UHT(shape,wcs,mode="flat"),basis=basis)
		with ctx.case("NmatWavelet", geometry=kind, shape=shape, n=n, basis=bname, pattern=pat):
			wiN = wt.map2wave(enmap.zeros((n,n)+shape,wcs)); C = np.linalg.inv(corr(n)); w = [{"one":1.0,"level":1.0+0.3*i,"first":1.0 if i < wt.nlevel//2 else 0.2}[pat] for i in range(wt.nlevel)]
			for i in range(wt.nlevel): wiN.maps[i][:] = C[:,:,None,None]*w[i]
			N = analysis.NmatWavelet(wt,wiN); T = sum(wi*np.array(enmap.resample_fft(enmap.enmap(np.array(f)**2,g[1]),shape,norm=None,corner=False)) for wi,f,g in zip(w,wt.filters,wt.geometries))
			for c in range(n):
				for (y,x) in ((shape[0]//2,shape[1]//2),(0,0),(3,shape[1]-2)):
					u = enmap.zeros((n,)+shape,wcs); u[c,y,x] = 1/pa; m = enmap.ifft(beam*enmap.fft(u)).real; r, k = N.matched_filter(m,beam); wantk = np.array([[C[a,b]*np.sum(np.array(beam[a]*beam[b])*T)/(pa**2*shape[0]*shape[1]) for b in range(n)] for a in range(n)])
					ref = np.abs(wantk).max(); ctx.close(np.array(k)[:,:,y,x]/ref, wantk/ref, 0, 1e-3+2*tol, "kappa"); ctx.close(np.array(r)[:,y,x]/ref, wantk[:,c]/ref, 0, 1e-3+2*tol, "rho is kappa for a unit source"); ctx.check(r.shape == (n,)+shape and k.shape == (n,n)+shape, "shapes", state=(shape,n,bname,pat))
# ---- finding and measuring
DT = lambda n: [("ra","d"),("dec","d"),("snr","d"),("flux_tot","d"),("dflux_tot","d"),("flux","d",(n,)),("dflux","d",(n,)),("case","i")]
class Setup:
	def __init__(self, kind, n, noise, shape=(36,40), depth=1.0):
		self.shape, self.wcs = geo(kind,shape); self.n = n; l = enmap.modlmap(self.shape,self.wcs); self.sig = [1.4*utils.fwhm*AM*(1+0.25*i) for i in range(n)]
		self.beam = enmap.enmap(np.array([np.exp(-0.5*l**2*s**2) for s in self.sig]),self.wcs); r = np.linspace(0,14*AM,1500); self.prof = [np.array([r,np.exp(-0.5*r**2/s**2)]) for s in self.sig]
		self.wide = enmap.enmap(np.array([np.exp(-0.5*l**2*(2.5*s)**2) for s in self.sig]),self.wcs); self.wprof = [np.array([r,np.exp(-0.5*r**2/(2.5*s)**2)]) for s in self.sig]
		pa = enmap.pixsize(self.shape,self.wcs); self.pa = pa; C = np.diag(1+0.5*np.arange(n)) if noise != "corr" else corr(n)
		# the noise is chosen such that a flux of one has a signal-to-noise of about ten
		white = np.linalg.inv(C)[:,:,None,None]+0*np.array(l)
		if noise == "constcorr": k = np.sum(np.array(self.beam[0])**2)/(np.prod(self.shape)*pa**2); self.nmat = analysis.NmatConstcorr(enmap.enmap(white,self.wcs), enmap.full((n,)+self.shape,self.wcs,100/k*depth))
		else: k = np.sum(np.array(self.beam[0])**2)/(np.prod(self.shape)*pa); self.nmat = analysis.NmatConstcov(enmap.enmap(white*100/k*depth,self.wcs),1)
	def cat(self, rows):
		c = np.zeros(len(rows),DT(self.n)).view(np.recarray)
		for i, (p, flux, case) in enumerate(rows):
			dec, ra = enmap.pix2sky(self.shape,self.wcs,p); c.dec[i], c.ra[i] = dec, ra; c.flux[i] = flux; c.flux_tot[i] = np.mean(flux); c.case[i] = case; c.snr[i] = 10*np.mean(flux)
		return c
	def map(self, rows):
		m = np.zeros((self.n,)+self.shape); pos = np.array(enmap.posmap(self.shape,self.wcs))
		for p, flux, case in rows:
			dec, ra = enmap.pix2sky(self.shape,self.wcs,p)
			r = 2*np.arcsin(np.sqrt(np.sin((dec-pos[0])/2)**2+np.cos(dec)*np.cos(pos[0])*np.sin((ra-pos[1])/2)**2))
			for i in range(self.n): s = self.sig[i]*(2.5 if case == 1 else 1); m[i] += flux[i]/(2*np.pi*s**2)*np.exp(-0.5*r**2/s**2)
		return enmap.enmap(m,self.wcs)
LAT = [(9.0,10.0),(9.3,29.6),(26.5,10.2),(25.8,30.0)]
FL  = {1:[(2.0,),(5.0,),(1.2,)], 2:[(2.0,2.0),(5.0,4.0),(1.2,1.5)]}
def near(S, cat, p): py, px = enmap.sky2pix(S.shape,S.wcs,[cat.dec,cat.ra]); return np.hypot(py-p[0],px-p[1])
def unit_find(ctx, items):
	for kind, n, noise, which, fl in items:
		S = Setup(kind,n,noise); rows = [(LAT[i],FL[n][f],0) for i,f in zip(which,fl)]; scal = np.ones(n); m = S.map(rows)
		with ctx.case("finder", geometry=kind, n=n, noise=noise, sources=which, fluxes=fl):
			keep = np.array(m); F = analysis.FinderSimple(S.nmat,S.beam,scaling=scal); res = F(m); ctx.eq(np.array(m),keep,"map untouched"); cat = res.cat
			rho, kap = S.nmat.matched_filter(m,S.beam); kt = np.sum(kap,(0,1)); snr = np.sum(rho,0)/kt**0.5
			ctx.check(len(cat) == len(rows), "one entry per source", state=(kind,n,noise,which,fl)); ctx.check(np.all(np.diff(cat.snr) <= 0), "sorted"); ctx.check(np.all(cat.snr >= 5) and res.snmin == 5, "threshold")
			ctx.close(np.array(res.snr), np.array(snr), 1e-6, 1e-6*max(1e-3,np.abs(snr).max()), "signal-to-noise map")
			for p, f, _ in rows:
				d = near(S,cat,p)
				if not ctx.check(len(d) > 0 and d.min() < 0.5, "position"): continue
				e = cat[np.argmin(d)]; iy, ix = [int(round(q)) for q in p]; ctx.close(e["flux"], f, 0.1, 0, "flux"); ctx.close(e["dflux"], np.diag(np.linalg.inv(np.array(kap)[:,:,iy,ix]))**0.5, 0.02, 0, "uncertainty"); ctx.close(e["dflux_tot"], np.array(kt)[iy,ix]**-0.5, 0.02, 0, "total uncertainty"); ctx.close(e["snr"], np.array(snr)[iy-2:iy+3,ix-2:ix+3].max(), 1e-6, 0, "peak")
				ctx.check(min(f)*0.9 <= e["flux_tot"] <= max(f)*1.1, "total flux")
			M = analysis.MeasurerSimple(S.nmat,S.beam,scaling=scal)
			if rows:
				inp = S.cat(rows); mc = M(m,inp).cat
				for j, (p, f, _) in enumerate(rows): ctx.close(mc.flux[j], f, 0.05, 0, "measured at the true position"); ctx.close([mc.ra[j],mc.dec[j]], [inp.ra[j],inp.dec[j]], 0, 0, "position kept")
				# scaling the map or the threshold
				r2 = F(m*3); ctx.close(r2.cat.snr, cat.snr*3, 1e-5, 0, "linear") if len(r2.cat) == len(cat) else None
				big = max(cat.snr); r3 = F(m,snmin=big*1.01); ctx.eq(len(r3.cat), 0, "nothing above the largest"); ctx.close(np.array(r3.snr), np.array(snr), 1e-6, 1e-6*max(1e-3,np.abs(snr).max()), "signal-to-noise map without detections"); r3 = F(m,snmin=big*0.99); ctx.check(len(r3.cat) >= 1 and np.all(r3.cat.snr >= big*0.99), "only the largest")
				r4 = F(m,snmin=5,snrel=0.9); ctx.close(r4.snmin, max(5,0.9*big), 1e-9, 0, "relative threshold"); ctx.check(np.all(r4.cat.snr >= r4.snmin*(1-1e-9)), "relative threshold")
				pen = enmap.ones(S.shape,S.wcs); iy, ix = [int(round(q)) for q in rows[0][0]]; pen[max(0,iy-8):iy+9,max(0,ix-8):ix+9] = 1e6; r5 = F(m,penalty=pen); ctx.check(all(near(S,r5.cat,rows[0][0]) > 4), "penalized area"); ctx.eq(len(r5.cat), len(cat)-1, "only the penalized area")
				soft = enmap.ones(S.shape,S.wcs); soft[max(0,iy-8):iy+9,max(0,ix-8):ix+9] = 4; top = np.max(np.array(snr)/np.array(soft))
				for sm, sr in ((5,0.9),(5,0.3),(0.999*big,0.01)): r6 = F(m,snmin=sm,snrel=sr,penalty=soft); ctx.close(r6.snmin, max(sm,sr*top), 1e-9, 0, "relative threshold with a penalty"); ctx.close(np.array(r6.snlim), r6.snmin*np.array(soft), 1e-9, 0, "penalized limit"); ctx.check(len(r6.cat) >= 1 or sm*1.0 > top, "penalized peak found")
				scs = [np.ones(n),np.ones(n)]
				for cls in (analysis.FinderMulti,analysis.FinderMultiSafe):
					for sc in (scs,None):
						G = quiet(lambda: cls(S.nmat,[S.beam,S.wide],sc)); g0 = G(m); g = g0.cat; g = g[g.snr >= 5]
						ge = quiet(lambda: G(m,snmin=1e6)); ctx.check(len(ge.cat) == 0 and np.array_equal(np.array(ge.snr),np.array(g0.snr)), "no detections")
						g1 = quiet(lambda: G(m,snmin=5,snrel=0.5,penalty=soft)); ctx.close(g1.snmin, max(5,0.5*np.max(np.array(g0.snr)/np.array(soft))), 1e-6, 0, "relative threshold with a penalty"); ctx.close(np.array(g1.snlim), g1.snmin*np.array(soft), 1e-9, 0, "penalized limit")
						for p, f, _ in rows:
							d = near(S,g,p)
							if ctx.check(len(d) > 0 and d.min() < 0.6, "%s position" % cls.__name__): e = g[np.argmin(d)]; ctx.close(e["flux"], f, 0.15, 0, "%s flux" % cls.__name__); ctx.eq(int(e["case"]), 0, "%s class" % cls.__name__)
def quiet(f):
	import io, contextlib
	with contextlib.redirect_stdout(io.StringIO()): return f()
def unit_iter(ctx, items):
	for kind, n, noise, off, ratio in items:
		S = Setup(kind,n,noise,depth=25.0); p = (17.0,19.0); q = (p[0]+off[0],p[1]+off[1]); f = np.array([10.0,8.0][:n]); rows = [(p,tuple(f),0),(q,tuple(f*ratio),0)]; m = S.map(rows)
		with ctx.case("iterative finder", geometry=kind, n=n, noise=noise, offset=off, ratio=ratio):
			mod = analysis.ModellerPerfreq(S.shape,S.wcs,S.prof); FI = analysis.FinderIterative(analysis.FinderSimple(S.nmat,S.beam),mod); res = quiet(lambda: FI(m,snmin=20)); cat = res.cat
			for pp, ff, _ in rows:
				d = near(S,cat,pp)
				if ctx.check(len(d) > 0 and d.min() < 1.0, "found", state=(kind,n,noise,off,ratio)): e = cat[np.argmin(d)]; ctx.close(e["flux"], ff, 0.3, 0, "flux")
			ctx.close(np.array(res.model)/np.abs(m).max(), np.array(m)/np.abs(m).max(), 0, 0.15, "model follows the map"); ctx.check("contam" in cat.dtype.names and cat.contam.shape == (len(cat),n), "contamination column")
			again = np.array(mod(cat)); ctx.close(np.array(res.model)/np.abs(m).max(), again/np.abs(m).max(), 0, 1e-3, "the model is that of the catalogue")
			inp = S.cat(rows); inp.snr = [500*f.mean()/10,500*f.mean()/10*ratio]; M = analysis.MeasurerIterative(analysis.MeasurerSimple(S.nmat,S.beam),mod); r = M(m,inp)
			if ratio < 0.3:
				ctx.close(r.cat.flux[1]/f, f*ratio/f, 0, 0.05, "neighbour measured after subtraction")
			ctx.close(np.array(r.model)/np.abs(m).max(), np.array(mod(r.cat))/np.abs(m).max(), 0, 1e-3, "measured model"); ctx.close(r.cat.ra, inp.ra, 0, 0, "order of the catalogue is kept")
			e = quiet(lambda: FI(m*0)); ctx.check(len(e.cat) == 0 and np.all(np.array(e.model) == 0) and "contam" in e.cat.dtype.names, "empty map"); e = M(m,inp[:0]); ctx.check(len(e.cat) == 0, "empty catalogue")
def unit_multi(ctx, items):
	S = Setup("eq",2,"constcov"); POS = [(9.0,10.0),(9.0,29.0),(26.0,10.0),(26.0,30.0)]
	scal = np.array([1.0,0.7]); mods = [analysis.ModellerPerfreq(S.shape,S.wcs,S.prof),analysis.ModellerPerfreq(S.shape,S.wcs,S.wprof),analysis.ModellerScaled(S.shape,S.wcs,S.prof,scal)]; MM = analysis.ModellerMulti(mods)
	meas = [analysis.MeasurerSimple(S.nmat,S.beam),analysis.MeasurerSimple(S.nmat,S.wide),analysis.MeasurerSimple(S.nmat,S.beam,scaling=scal)]; ME = analysis.MeasurerMulti(meas)
	base = S.map([(p,(3.0,2.0),i%2) for i,p in enumerate(POS)])
	for cases in items:
		with ctx.case("classes", cases=cases):
			cat = S.cat([(POS[i],(2.0+i,1.0+0.5*i),c) for i,c in enumerate(cases)]); keep = cat.copy()
			tot = np.zeros((2,)+S.shape)
			for i, c in enumerate(cases): tot += np.array(mods[c](cat[i:i+1]),float)
			mm = MM(cat); ctx.close(np.array(mm), tot, 1e-5, 1e-5*max(1,np.abs(tot).max()), "model is the sum over sources"); ctx.check(mm.shape == (2,)+S.shape, "shape", state=cases)
			am = MM.amplitudes(cat); ctx.eq(np.shape(am), (len(cases),2), "amplitudes")
			for i, c in enumerate(cases): ctx.close(am[i], mods[c].amplitudes(cat[i:i+1])[0], 1e-10, 0, "amplitudes by class"); iy, ix = [int(q) for q in POS[i]]; own = np.array(mods[c](cat[i:i+1]))[:,iy,ix]; ctx.close(own, am[i], 2e-3, 0, "amplitude is the peak of the model")
			got = ME(base,cat).cat
			for i, c in enumerate(cases):
				w = meas[c](base,cat[i:i+1]).cat
				for key in ("ra","dec","flux","dflux","flux_tot","dflux_tot","snr"): ctx.close(got[key][i], w[key][0], 1e-6, 1e-9, "measured by its own class: "+key)
			ctx.check(cat.tobytes() == keep.tobytes(), "catalogue untouched")
			for i, c in enumerate(cases):
				one = np.array(mods[c](cat[i:i+1]),float); fl = cat.flux[i] if c < 2 else cat.flux_tot[i]*scal; ctx.close(one.sum((-2,-1))*S.pa, fl, 0.03, 0, "flux of the model")
def unit_split(ctx, items):
	for snrs in items:
		for tol in (0.25,0.5,0.1):
			for smin in (0.1,5):
				with ctx.case("snr_split", snrs=snrs, sntol=tol, snmin=smin):
					a = np.array(snrs,float); g = analysis.snr_split(a,sntol=tol,snmin=smin); ctx.check(sorted(int(i) for x in g for i in x) == list(range(len(a))), "partition", state=(snrs,tol,smin)); e = np.maximum(np.abs(a),smin); ctx.eq(a,np.array(snrs,float),"untouched")
					for x in g: ctx.check(e[x].min() >= tol*e[x].max()*(1-1e-6), "ratio within a group")
					for x, y in zip(g[:-1],g[1:]): ctx.check(e[x].min() > e[y].max()*(1-1e-9), "strongest first")
					ctx.check(sum(1 for x in g if np.any(np.abs(a[x]) <= smin)) <= 1, "weak ones together")
def unit_help(ctx, items):
	for n, shape in items:
		with ctx.case("helpers", n=n, shape=shape):
			rng = np.arange(n*n*int(np.prod(shape))).reshape((n,n)+shape)%7-1.0; _, wcs = geo("eq",shape); k = enmap.enmap(rng,wcs); keep = np.array(k)
			for tol in (1e-4,0.5):
				s = analysis.sanitize_kappa(k,tol=tol); w = keep.copy()
				for i in range(n): w[i,i] = np.maximum(w[i,i],w[i,i].max()*tol)
				ctx.eq(np.array(s), w, "sanitize"); ctx.eq(np.array(k),keep,"untouched"); k2 = k.copy(); s2 = analysis.sanitize_kappa(k2,tol=tol,inplace=True); ctx.check(s2 is k2, "in place"); ctx.eq(np.array(k2), w, "in place")
			a = np.zeros(4,[("x","d"),("y","i",(2,))]); b = np.zeros(4,[("z","d",(n,))]); a["x"] = np.arange(4); a["y"] = np.arange(8).reshape(4,2); b["z"] = np.arange(4*n).reshape(4,n)+0.5; c = analysis.merge_arrays([a,b]); ctx.check(c.dtype.names == ("x","y","z") and np.all(c["x"] == a["x"]) and np.all(c["y"] == a["y"]) and np.all(c["z"] == b["z"]), "merge_arrays")
			fr, fk = analysis.get_flat_sky_correction(np.array([0.8,1,1.2])); ctx.close([fr[1],fk[1]],[1,1],1e-12,0,"no correction for equal areas")
			for ps in ([(1,1)],[(1,1),(shape[0]-2,shape[1]-2)],[(0,0),(shape[0]-1,0),(2,shape[1]-1)]):
				for r in (0.6*AM,1.2*AM):
					pix = np.array(ps).T; L = np.array(analysis.make_circle_labels(shape,wcs,pix,r=r)); pos = np.array(enmap.posmap(shape,wcs)); d = np.array([np.hypot(pos[0]-pos[0,y,x],(pos[1]-pos[1,y,x])*np.cos(pos[0])) for y,x in ps]); safe = np.all(np.abs(d-r) > 1e-3*AM,0); mn = d.min(0); uni = np.sort(d,0); amb = (len(ps) > 1) & (uni[min(1,len(ps)-1)]-uni[0] < 1e-3*AM) if len(ps) > 1 else np.zeros(shape,bool)
					want = np.where(mn < r,np.argmin(d,0)+1,0); ok = safe&~amb; ctx.eq(L[ok], want[ok], "circle labels"); L2 = np.array(analysis.make_circle_labels(shape,wcs,pix,inds=np.arange(len(ps))+5,r=r)); ctx.eq(L2, np.where(L > 0,L+4,0), "given labels")
def units(tier):
	T = tier == "thorough"
	G = ["eq","tan","hi"]+(["eq2"] if T else []); SH = [(9,10),(12,14)]+([(10,9),(11,11)] if T else [])
	us  = chunked("dense", [(k,s,b,n,v) for k in G for s in (SH if T or k == "eq" else SH[:1]) for b in (("gauss","exp","wide") if T or k == "eq" else ("gauss",)) for n in ("white","knee","drop") for v in ("uniform","wave","hole","ramp")], unit_dense, 16)
	us += chunked("curved", [(y,x,b,s) for y in ((15,5,25) if not T else range(5,26,2)) for x in ((10,50) if not T else range(0,60,7)) for b in (15,25) for s in ("white","knee")], unit_curved, 4 if not T else 16)
	us += chunked("nmat", [(k,(9,10),n,s,v) for k in (("eq","tan") if not T else G) for n in (1,2,3) for s in ("white","knee") for v in ("uniform","wave","hole")], unit_nmat, 12)
	us += chunked("wave", [(k,s,n,b,p) for k in ("eq","tan") for s in ((24,26),(25,32))+(((40,41),) if T else ()) for n in (1,2) for b in ("trim","trim2","butter") for p in ("one","level","first")], unit_wave, 4)
	subs = [w for k in range(0,4 if T else 3) for w in itertools.combinations(range(4),k)]
	us += chunked("find", [(g,n,no,w,f) for g in (("eq","tan") if T else ("eq",)) for n in (1,2) for no in ("constcov","constcorr")+(("corr",) if n == 2 else ()) for w in subs for f in itertools.product(range(3 if T else 2),repeat=len(w))], unit_find, 16)
	us += chunked("iter", [(g,n,no,o,r) for g in ("eq","tan") for n in (1,2) for no in ("constcov","constcorr") for o in ((8,0),(0,7),(6,6),(10,-4),(-9,5)) for r in (0.2,0.5)], unit_iter, 8)
	us += chunked("multi", [c for k in range(0,5 if T else 4) for c in itertools.product(range(3),repeat=k)], unit_multi, 8)
	us += chunked("split", [c for k in range(1,5 if not T else 6) for c in itertools.product((1,4,5.5,20,-30,100),repeat=k)], unit_split, 6)
	us += chunked("help", [(n,s) for n in (1,2,3) for s in ((5,6),(8,7),(12,12))], unit_help, 2)
	return us
