"""C20: wavelet bases and transforms."""
import numpy as np, itertools
from pixell import enmap, wavelets, uharm, curvedsky, multimap
from .. import geo as G, sht
from ..core import chunked
from .c19 import synth, teb
deg = np.pi/180

RULE   = "every basis x (lmin,lmax,step,shape) of the lattice at every integer and half-integer multipole; every map geometry x basis x unit impulse map (so the linear transforms are covered completely) with direct Fourier sums or brute-force spherical harmonics as the reference; every map shape x offset x number of levels for the Haar transform"
BOUNDS = "bases with lmin 1..30, lmax up to 300, steps 1.5,2,3; flat maps up to 24x20 (quick) or 36x30; full sky maps of 15 and 12 degree pixels; Haar maps 1x1..9x9 with 0..4 levels"
ASSUME = ["levels that contain none of the modes of the map are not compared", "the Butterworth basis is not compact, so reducing its resolution is only accurate to its tol", "the variance transform is an approximation and is not compared", "curved-sky transforms of patches are compared with the filtered harmonic coefficients of the patch, which are themselves what C13 checks", "AdriSD needs the optweight library, which is not installed"]

def kern(l, lmin, step, shape, i): return 1/(1+(l/(lmin*step**(i+0.5)))**(shape/np.log(step)))
def unit_basis(ctx, items):
	for name, lmin, lmax, step, shape in items:
		with ctx.case("basis", name=name, lmin=lmin, lmax=lmax, step=step, shape=shape):
			l = np.arange(0,2*lmax+1)/2.0
			if name == "DigitalButterTrim": l = np.arange(lmax*1.0)
			b = getattr(wavelets,name)(step=step, shape=shape, lmin=lmin, lmax=lmax)
			b2 = getattr(wavelets,name)(step=step, shape=shape).with_bounds(lmin,lmax)
			ctx.check(b.n >= 1 and len(b.lmaxs) == b.n and b.lmaxs[-1] == lmax and b.lmin == lmin and b.lmax == lmax, "bounds")
			ctx.check(lmin*step**b.n <= lmax*(1+1e-9) or b.n == 1, "no more levels than fit"); ctx.check(lmin*step**(b.n+1) > lmax*(1-1e-9), "as many levels as fit")
			P = np.array([b(i,l.copy()) for i in range(b.n)]); ctx.close(np.array([b2(i,l.copy()) for i in range(b.n)]), P, 1e-14, 1e-14, "with_bounds")
			ctx.check(np.all(P >= 0) and np.all(P <= 1+1e-12), "range"); ctx.close(np.sum(P**2,0), np.ones(len(l)), 0, 1e-12, "squares sum to one")
			for i in range(b.n-1): ctx.check(b.lmaxs[i] >= lmin*step**(i+0.5), "lmaxs cover the step")
			if name != "Butterworth":
				for i in range(b.n-1):
					hi = l > b.lmaxs[i]; ctx.check(np.all(P[i][hi] == 0), "no power beyond lmaxs")
			else:
				for i in range(b.n-1): ctx.check(np.all(P[i][l >= b.lmaxs[i]+0.5]**2 <= 1e-3*1.02), "power beyond lmaxs is below tol")
			K = [kern(l,lmin,step,shape,i) for i in range(b.n-1)]+[np.ones(len(l))]
			if name == "ButterTrim": K = [np.clip(k*1.02-0.01,0,1) for k in K[:-1]]+[K[-1]]
			if name != "DigitalButterTrim":
				K = [0*l]+K
				for i in range(b.n): ctx.close(P[i]**2, K[i+1]-K[i], 0, 1e-12, "profile")
			else:
				ctx.check(np.all((P == 0)|(P == 1)), "digital")
				# a comb with the density of the smooth filter
				for i in range(b.n-1):
					k = np.clip(kern(l,lmin,step,shape,i)*1.02-0.01,0,1)
					ctx.check(abs(np.sum(np.sum(P[:i+1],0))-np.sum(k)) <= 2+i, "density of the comb")
def unit_needlet(ctx, items):
	for peaks in items:
		with ctx.case("CosineNeedlet", peaks=peaks):
			b = wavelets.CosineNeedlet(np.array(peaks)); l = np.arange(0,2*peaks[-1]+4)/2.0
			P = np.array([b(i,l) for i in range(b.n)]); ctx.check(b.n == len(peaks) and b.lmin == peaks[0] and b.lmax == peaks[-1], "bounds")
			inside = (l >= peaks[0]) & (l <= peaks[-1])
			ctx.close(np.sum(P**2,0)[inside], np.ones(inside.sum()), 0, 1e-12, "squares sum to one"); ctx.check(np.all(P[:,~inside] == 0), "nothing outside")
			for i in range(b.n):
				ctx.close(P[i][l == peaks[i]], [1.0], 0, 1e-12, "peak"); ctx.check(np.all(P[i][(l > b.lmaxs[i])|(l < b.lmins[i])] == 0), "support")

def lref(shape, wcs):
	ext = np.array(enmap.extent(shape, wcs)); ky, kx = [np.fft.fftfreq(n)*n for n in shape]
	return np.hypot((2*np.pi*ky/ext[0])[:,None], (2*np.pi*kx/ext[1])[None,:])
def dft(n, no):
	"""[no,n,k]: contribution of pixel j through mode k to output sample, pixel edges aligned; plus the modes"""
	k = np.fft.fftfreq(n)*n; x = (np.arange(n)+0.5)/n; xo = (np.arange(no)+0.5)/no
	return k, np.exp(-2j*np.pi*k[:,None]*x)/n, np.exp(2j*np.pi*xo[:,None]*k)
FLAT = {"sq":((12,12),G.mkwcs("CAR",[3,0],[-0.5,0.5],[6.5,6.5])), "wide":((9,20),G.mkwcs("CAR",[0,0],[-0.25,0.25],[10,5])), "odd":((15,11),G.mkwcs("CAR",[-100,0],[0.2,-0.2],[1,1])), "rect":((16,8),G.mkwcs("CAR",[10,0],[-0.5,0.25],[4,30])), "tan":((14,13),G.mkwcs("TAN",[40,30],[-0.3,0.3],[7,7])), "big":((24,20),G.mkwcs("CAR",[3,0],[-0.1,0.1],[6.5,6.5])), "tiny":((3,4),G.mkwcs("CAR",[0,0],[-1,1],[2,2])), "huge":((36,30),G.mkwcs("CAR",[3,0],[-0.1,0.1],[6.5,6.5]))}
def mkbasis(name, uht):
	if name == "default": return wavelets.ButterTrim()
	if name == "step3": return wavelets.ButterTrim(step=3, shape=9, trim=0.03)
	if name == "butter": return wavelets.Butterworth(tol=1e-5)
	if name == "fixed": return wavelets.ButterTrim(lmin=float(np.max(uht.l))/20, lmax=int(np.max(uht.l)))
def unit_flat(ctx, items):
	for name, bname, ores, dt in items:
		shape, wcs = FLAT[name]; N = shape[0]*shape[1]
		with ctx.case("flat", geo=name, basis=bname, ores=ores, dtype=np.dtype(dt).name):
			uht = uharm.UHT(shape, wcs, mode="flat"); B = mkbasis(bname, uht)
			kw = {} if ores is None else {"ores":ores*np.max(enmap.pixshapebounds(shape,wcs))}
			wt = wavelets.WaveletTransform(uht, basis=B, **kw); n = wt.nlevel
			if any(not np.any(wt.basis(i, lref(shape,wcs))) for i in range(n)): continue # a level without any modes
			ctx.check(tuple(wt.shape) == shape and wt.wcs is not None and G.wcs_key(wt.wcs) == G.wcs_key(wcs) and wt.geometry == (wt.shape,wt.wcs), "geometry")
			ctx.check(n == wt.basis.n and len(wt.filters) == len(wt.norms) == len(wt.lmids) == n, "levels")
			E = enmap.enmap(np.eye(N,dtype=dt).reshape((N,)+shape), wcs)
			W = wt.map2wave(E); ctx.check(W.nmap == n and W.pre == (N,) and W.dtype == dt, "kind of coefficients")
			l = lref(shape, wcs); area = enmap.area(shape, wcs); tol = 1e-9 if dt == np.float64 else 1e-4
			lossless = bname != "butter" and ores is None
			for i in range(n):
				g = W.geometries[i]; sh = tuple(g.shape[-2:])
				# same area, aligned edges
				gp = np.array([[-0.5,sh[0]-0.5],[-0.5,sh[1]-0.5]]); ip = np.array([[-0.5,shape[0]-0.5],[-0.5,shape[1]-0.5]])
				ctx.close(G.unitvec(G.ref_pix2sky(g.wcs,gp)), G.unitvec(G.ref_pix2sky(wcs,ip)), 0, 1e-9, "covers the same area")
				if not lossless: continue
				F = wt.basis(i, l); norm = np.sqrt(np.sum(F**2)/area)
				ctx.close(wt.norms[i], norm, 1e-9, 0, "normalisation"); ctx.close(wt.lmids[i], np.sum(F**2*l)/np.sum(F**2), 1e-9, 1e-9, "typical multipole")
				(ky,Ay,Oy),(kx,Ax,Ox) = [dft(a,b) for a,b in zip(shape,sh)]
				want = np.einsum("pk,ql,kl,ky,lx->yxpq",Oy,Ox,F/norm,Ay,Ax,optimize=True).real.reshape((N,)+sh)
				ctx.close(np.array(W.maps[i]), want, 0, tol*np.max(np.abs(want)), "coefficients of level %d" % i)
				# white noise with unit power spectrum has unit variance
				ctx.close(np.sum(want**2,0)*N/area, np.ones(sh), 0, 1e-9, "unit variance"); ctx.close(np.sum(np.array(W.maps[i],float)**2,0)*N/area, np.ones(sh), 0, tol*10, "unit variance")
			back = wt.wave2map(W)
			if ores is None or ores < 1.01:
				ctx.check(back.shape == E.shape and back.dtype == dt and G.wcs_key(back.wcs) == G.wcs_key(wcs), "kind of map")
				ctx.close(np.array(back), np.array(E), 0, tol if lossless or ores is not None else 1e-3, "round trip")
			# buffers, leading axes, chosen scales
			keep = np.array(W); m = enmap.enmap(np.cos(np.arange(6*N)*1.3).reshape((2,3)+shape).astype(dt), wcs); km = np.array(m)
			w = wt.map2wave(m); ctx.eq(np.array(m), km, "map untouched"); ctx.close(np.array(w), np.tensordot(np.array(m).reshape(2,3,N),np.array(W),(2,0)), 0, tol*10*np.max(np.abs(np.array(W))), "leading axes")
			o = multimap.zeros([(m.shape[:-2]+tuple(g.shape[-2:]),g.wcs) for g in W.geometries], dt); o[:] = 7; r = wt.map2wave(m, owave=o); ctx.check(r is o, "buffer"); ctx.eq(np.array(o), np.array(w), "buffer")
			kw = np.array(w); om = enmap.zeros(m.shape, wcs, dt)+5; r = wt.wave2map(w, omap=om); ctx.check(r is om, "output buffer"); ctx.eq(np.array(om), np.array(wt.wave2map(w)), "output buffer"); ctx.eq(np.array(w), kw, "coefficients untouched")
			for sc in ([0],[n-1],list(range(0,n,2)),[]):
				for fv in (None, 3.5, np.nan):
					r = wt.map2wave(m, scales=sc, fill_value=fv)
					for i in range(n):
						want = np.array(w.maps[i]) if i in sc else np.full(w.maps[i].shape, 0 if fv is None else fv)
						ctx.eq(np.array(r.maps[i]), want, "chosen scales")

def unit_curved(ctx, items):
	for name, res, bname, ncomp in items:
		with ctx.case("curved", geo=name, res=res, basis=bname, ncomp=ncomp):
			nx, ny = int(360/res), int(180/res)
			wcs = G.mkwcs("CAR",[0,0],[-res,res],[nx/2+0.5,(ny if name == "f1" else ny+1)/2+0.5]); shape = (ny if name == "f1" else ny+1, nx)
			lmax = ny//2-1
			uht = uharm.UHT(shape, wcs, mode="curved", lmax=lmax)
			B = {"default":wavelets.ButterTrim(), "fixed":wavelets.ButterTrim(lmin=2,lmax=lmax), "digital":wavelets.DigitalButterTrim(lmin=1,lmax=lmax), "needlet":wavelets.CosineNeedlet(np.array([0,2,4,lmax]))}[bname]
			wt = wavelets.WaveletTransform(uht, basis=B); n = wt.nlevel; L = wt.basis.lmax
			ctx.check(L <= lmax and n == wt.basis.n, "bounds")
			Lin = L if bname != "digital" else L-1
			a = teb(Lin, 3)[:ncomp]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape))
			sky = lambda a, p: np.concatenate([synth(0,Lin,a[:1],*p)]+([synth(2,Lin,a[1:],*p)] if ncomp == 3 else []))
			m = enmap.enmap(sky(a,pos), wcs); m = m if ncomp == 3 else m[0]; km = np.array(m)
			w = wt.map2wave(m); ctx.eq(np.array(m), km, "map untouched"); ctx.check(w.pre == m.shape[:-2] and w.nmap == n, "kind")
			lm = sht.LM(Lin); ls = np.arange(L+1.0)
			for i in range(n):
				Fl = wt.basis(i, np.arange(lmax+1.0)); norm = np.sqrt(np.sum(Fl**2*(2*np.arange(lmax+1)+1))/(4*np.pi))
				ctx.close(wt.norms[i], norm, 1e-9, 0, "normalisation"); ctx.close(wt.lmids[i], np.sum(Fl**2*(2*np.arange(lmax+1)+1)*np.arange(lmax+1))/(4*np.pi*norm**2), 1e-9, 0, "typical multipole")
				wa = np.array([[v*(Fl[l]/norm if l <= wt.basis.lmaxs[i] else 0) for v,(l,mm) in zip(c,lm)] for c in a])
				g = w.geometries[i]; wm = np.array(w.maps[i]); p = G.ref_pix2sky(g.wcs, G.pixgrid(g.shape[-2:]))[:,::9,::11]
				want = sky(wa, p); want = want if ncomp == 3 else want[0]
				ctx.close(wm[...,::9,::11], want, 0, 1e-8*max(1,np.max(np.abs(want))), "coefficients of level %d" % i)
				ctx.check(np.max(np.abs(p[0])) > 70*deg, "covers the sky")
			back = wt.wave2map(w); ctx.check(back.shape == m.shape and G.wcs_key(back.wcs) == G.wcs_key(wcs), "kind of map"); ctx.close(np.array(back), np.array(m), 0, 1e-8*np.max(np.abs(m)), "round trip")
			o = enmap.zeros(m.shape, wcs)+3; r = wt.wave2map(w, omap=o); ctx.check(r is o, "buffer"); ctx.close(np.array(o), np.array(back), 0, 1e-12, "buffer")
			# prefilter and scales
			fl = 1/(1+np.arange(L+1.0)); w2 = wt.map2wave(m, fl=fl); w3 = wt.map2wave(m, fl=lambda l: 1/(1+l)); ctx.close(np.array(w3), np.array(w2), 0, 1e-12, "filter function")
			af = np.array([[v*fl[l] for v,(l,mm) in zip(c,lm)] for c in a]); mf = sky(af,pos); mf = enmap.enmap(mf if ncomp == 3 else mf[0], wcs)
			ctx.close(np.array(w2), np.array(wt.map2wave(mf)), 0, 1e-8*np.max(np.abs(np.array(w2))), "prefilter")
			for sc, fv in (([0],None),([n-1],-2.0),([],np.nan)):
				r = wt.map2wave(m, scales=sc, fill_value=fv)
				for i in range(n): ctx.eq(np.array(r.maps[i]), np.array(w.maps[i]) if i in sc else np.full(w.maps[i].shape, 0 if fv is None else fv), "chosen scales")
PATCH = {"eq":((8,14),G.mkwcs("CAR",[0,0],[-5,5],[7.5,4.5])), "north":((6,18),G.mkwcs("CAR",[0,0],[-10,10],[9.5,-2.5])), "seam":((7,10),G.mkwcs("CAR",[180,0],[-6,6],[3.5,8]))}
def carpos(wcs, shape):
	y, x = G.pixgrid(shape); w = wcs.wcs
	return np.array([w.crval[1]+(y+1-w.crpix[1])*w.cdelt[1], w.crval[0]+(x+1-w.crpix[0])*w.cdelt[0]])*deg
def unit_patch(ctx, items):
	for name, pre in items:
		with ctx.case("curved patch", geo=name, pre=pre):
			shape, wcs = PATCH[name]; uht = uharm.UHT(shape, wcs, mode="curved", lmax=10); wt = wavelets.WaveletTransform(uht, basis=wavelets.ButterTrim(lmin=1,lmax=10))
			m = enmap.enmap(np.cos(np.arange(int(np.prod((3,)[:pre]+shape)))*0.7).reshape((3,)[:pre]+shape), wcs); w = wt.map2wave(m)
			alm = np.atleast_2d(curvedsky.map2alm(m, lmax=10, spin=[0,2])); lm = sht.LM(10)
			pos = G.ref_pix2sky(wcs, G.pixgrid(shape))
			for i in range(wt.nlevel):
				g = w.geometries[i]; p = carpos(g.wcs, g.shape[-2:])
				# every pixel of the patch is near a coefficient
				st = np.max(np.abs(g.wcs.wcs.cdelt))*deg
				d = G.unitvec(pos).reshape(3,-1).T @ G.unitvec(p).reshape(3,-1)
				ctx.check(np.all(np.max(d,1) > np.cos(1.5*st)), "coefficients cover the patch at level %d" % i)
				F = wt.basis(i, np.arange(11.0))/wt.norms[i]; wa = np.array([[v*(F[l] if l <= wt.basis.lmaxs[i] else 0) for v,(l,mm) in zip(c,lm)] for c in alm])
				s = (slice(None,None,5),slice(None,None,7)); p = p[(slice(None),)+s]
				want = np.concatenate([synth(0,10,wa[:1],*p)]+([synth(2,10,wa[1:],*p)] if pre else [])); want = want if pre else want[0]
				ctx.close(np.array(w.maps[i])[(Ellipsis,)+s], want, 0, 1e-8*np.max(np.abs(want)), "coefficients of level %d" % i)

def unit_haar(ctx, items):
	for shape, nlevel, off, ref, npre in items:
		wcs = G.mkwcs("CAR",[0,0],[-1,1],[3+off[1],2+off[0]])
		with ctx.case("haar", shape=shape, nlevel=nlevel, off=off, ref=ref, pre=npre):
			pre = (2,3)[:npre]; m = enmap.enmap(np.cos(np.arange(int(np.prod(pre+shape)))*1.9+0.3).reshape(pre+shape), wcs); km = np.array(m)
			ht = wavelets.HaarTransform(nlevel, ref=ref); w = ht.map2wave(m); ctx.eq(np.array(m), km, "untouched")
			ctx.check(w.nmap == nlevel+1 and w.pre == pre, "levels"); ctx.check(tuple(w.geometries[-1].shape[-2:]) == shape, "finest level")
			b = ht.wave2map(w); ctx.check(b.shape == m.shape and G.wcs_key(b.wcs) == G.wcs_key(wcs), "geometry"); ctx.close(np.array(b), km, 0, 1e-13, "round trip")
			# reference: block means with blocks anchored at the reference point
			cur, cwcs = km, wcs
			for i in range(nlevel):
				sh = cur.shape[-2:]
				o = [0,0]
				if ref is not None:
					rp = cwcs.wcs_world2pix([[ref[1]/deg,ref[0]/deg]],0)[0][::-1]; o = [int(np.round(v))%2 for v in rp]
				down = [[int((j+(2-o[ax])%2)//2) for j in range(n)] for ax,n in enumerate(sh)]
				nd = [d[-1]+1 for d in down]; s = np.zeros(cur.shape[:-2]+tuple(nd)); c = np.zeros(nd)
				for y in range(sh[0]):
					for x in range(sh[1]): s[...,down[0][y],down[1][x]] += cur[...,y,x]; c[down[0][y],down[1][x]] += 1
				s = s/c; det = np.array(w.maps[nlevel-i])
				ctx.check(tuple(w.geometries[nlevel-i-1].shape[-2:]) == tuple(nd), "shape of level %d" % i)
				ctx.close(det, cur-s[...,down[0],:][...,down[1]], 0, 1e-12, "detail %d" % i)
				cur, cwcs = s, w.geometries[nlevel-i-1].wcs
				# wcs of the coarse level: block centres
			ctx.close(np.array(w.maps[0]), cur, 0, 1e-12, "coarse map")

def units(tier):
	q = tier == "quick"
	u  = chunked("basis", [(n,a,b,s,sh) for n in ("Butterworth","ButterTrim","DigitalButterTrim") for a in (1,2,3.5,7,30) for b in (9,16,31,64,100,300) for s in (1.5,2,3) for sh in (5,7,10) if b > a], unit_basis, 4)
	u += chunked("needlet", [list(p) for n in (2,3,4) for p in itertools.combinations((0,1,2,5,9,20,50),n)], unit_needlet, 2)
	u += chunked("flat", [(g,b,o,d) for g in FLAT if not (q and g == "huge") for b in ("default","step3","butter","fixed") for o,d in ((None,np.float64),(None,np.float32),(1.0,np.float64),(2.0,np.float64)) if not (d == np.float32 and b != "default")], unit_flat, 16)
	u += chunked("curved", [(n,r,b,c) for n in ("f1","cc") for r in ((15,) if q else (15,12,10)) for b in ("default","fixed","digital","needlet") for c in (1,3)], unit_curved, 16)
	u += chunked("patch", [(n,p) for n in PATCH for p in (0,1)], unit_patch, 6)
	shapes = [(y,x) for y in (1,2,3,4,7,9) for x in (1,2,3,5,8)]
	u += chunked("haar", [(s,n,o,r,p) for s in shapes for n in range(0,4 if q else 5) for o in ((0,0),(1,0),(0,1),(5,-8)) for r,p in (([0,0],0),(None,1),([0.03,-0.05],2))], unit_haar, 6)
	return u
