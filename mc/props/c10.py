"""C10: flat-sky harmonic analysis."""
import numpy as np, itertools
from pixell import wcsutils, enmap, utils, fft
from ..core import chunked
from ..geo import *
from .c08 import data, dftmat, dctmat

RULE   = "every geometry of the alphabet x map shape x leading shape x normalisation x polarisation convention x component list; reference: explicit Fourier matrices per pixel axis with frequencies 2 pi k/(signed extent), and explicit loops over modes and bins"
BOUNDS = "maps up to 7x8, up to 5 components, oversampling 1..3, all unit-impulse inputs for the linear transforms up to 4x5, bin sizes and orders enumerated"
ASSUME = ["wave numbers are relative to the map's reported extent (checked in C03)"]

def ks(n): return np.array([i if 2*i < n else i-n for i in range(n)])
def F2(a, sign=-1):
	a = np.asarray(a).astype(complex)
	a = np.moveaxis(np.tensordot(dftmat(a.shape[-2],sign), a, (1,a.ndim-2)),0,-2)
	return np.moveaxis(np.tensordot(dftmat(a.shape[-1],sign), a, (1,a.ndim-1)),0,-1)
def ref_l(shape, wcs):
	ext = enmap.extent(shape, wcs, signed=True)
	return 2*np.pi*ks(shape[-2])/ext[0], 2*np.pi*ks(shape[-1])/ext[1]
def geos(names): return [(n,)+alphabet()[n] for n in names]

def unit_l(ctx, items):
	for name, shape in items:
		wcs = alphabet()[name][1]
		with ctx.case("lmap", geo=name, shape=shape):
			ly, lx = ref_l(shape, wcs); s = np.abs(ly).max()+np.abs(lx).max()
			L = np.array(np.broadcast_arrays(ly[:,None], lx[None]))
			got = enmap.lmap((3,)+shape, wcs); ctx.close(np.asarray(got), L, rtol=1e-10, atol=1e-9*s, msg="lmap"); ctx.eq(wcs_key(got.wcs), wcs_key(wcs), "wcs")
			a, b = enmap.laxes(shape, wcs); ctx.close(a, ly, rtol=1e-10, atol=1e-9*s, msg="laxes"); ctx.close(b, lx, rtol=1e-10, atol=1e-9*s, msg="laxes")
			a, b = enmap.laxes(shape, wcs, broadcastable=True); ctx.close(np.asarray(a+0*b), L[0], rtol=1e-10, atol=1e-9*s, msg="broadcastable laxes"); ctx.close(np.asarray(0*a+b), L[1], rtol=1e-10, atol=1e-9*s, msg="broadcastable laxes")
			l = np.sqrt(L[0]**2+L[1]**2)
			ctx.close(np.asarray(enmap.modlmap(shape, wcs)), l, rtol=1e-10, atol=1e-9*s, msg="modlmap"); ctx.close(np.asarray(enmap.modlmap(shape, wcs, min=s/3)), np.maximum(l,s/3), rtol=1e-10, msg="modlmap min")
			m = enmap.zeros((2,)+shape, wcs); ctx.close(np.asarray(m.lmap()), L, rtol=1e-10, atol=1e-9*s, msg="method"); ctx.close(np.asarray(m.modlmap()), l, rtol=1e-10, atol=1e-9*s, msg="method")
			ctx.close(np.asarray(enmap.lrmap(shape,wcs)), L[...,:shape[-1]//2+1], rtol=1e-10, atol=1e-9*s, msg="lrmap")
			ext = enmap.extent(shape, wcs, signed=True)
			ctx.close(enmap.lpixshape(shape,wcs,signed=True), 2*np.pi/ext, rtol=1e-10, msg="lpixshape"); ctx.close(enmap.lpixsize(shape,wcs), abs(np.prod(2*np.pi/ext)), rtol=1e-10, msg="lpixsize")
			if min(shape) > 2:
				for os in (2,3):
					a, b = enmap.laxes(shape, wcs, oversample=os)
					# the os^2 sub-modes average to, and are spread evenly around, the mode
					for ax, lo in ((a,ly),(b,lx)):
						d = abs(lo[1]-lo[0]); g = ax.reshape(-1,os)
						for i in range(len(lo)):
							if i == len(lo)//2: continue # straddles the Nyquist frequency
							ctx.close(np.sort(g[i])-lo[i], (np.arange(os)-(os-1)/2)*d/os, rtol=1e-9, atol=1e-9*s, msg="oversampled modes")
		with ctx.case("extent", geo=name, shape=shape):
			# independent of the code: signed physical size of the patch, the horizontal one averaged over the patch's area
			ext = enmap.extent(shape, wcs, signed=True); ny, nx = shape
			if wcsutils.is_cyl(wcs):
				e = np.linspace(-0.5, ny-0.5, 20001); w = wcs.deepcopy(); w.wcs.bounds_check(False,False)
				d = w.wcs_pix2world(np.array([e*0+wcs.wcs.crpix[0]-1,e]).T, 0)[:,1]*deg
				lin = (e+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]
				if np.all(np.abs(lin) <= (90 if "CAR" in str(wcs.wcs.ctype[0]) else 57)):
					want = [d[-1]-d[0], nx*wcs.wcs.cdelt[0]*deg*(np.sin(d[-1])-np.sin(d[0]))/(d[-1]-d[0])]
					ctx.close(ext, want, rtol=1e-6, msg="signed extent"); ctx.close(enmap.extent(shape, wcs), np.abs(want), rtol=1e-6, msg="extent")
			elif not wcsutils.is_plain(wcs):
				p = ref_pix2sky(wcs, np.array([[(ny-1)/2-0.5,(ny-1)/2+0.5,(ny-1)/2,(ny-1)/2],[(nx-1)/2,(nx-1)/2,(nx-1)/2-0.5,(nx-1)/2+0.5]])); v = unitvec(p)
				want = np.array([np.linalg.norm(v[:,1]-v[:,0])*ny*np.sign(wcs.wcs.cdelt[1]), np.linalg.norm(v[:,3]-v[:,2])*nx*np.sign(wcs.wcs.cdelt[0])])
				if abs(wcs.wcs.crval[1]) < 60: ctx.close(ext, want, rtol=0.05, msg="signed extent of an azimuthal patch")
			ext2 = enmap.extent(shape, wcs, signed=True, method="intermediate")
			ctx.close(ext2, wcs.wcs.cdelt[::-1]*shape*deg, msg="intermediate extent")
			for meth, ex in (("auto",ext),("intermediate",ext2)):
				sc = np.abs(2*np.pi/ex).max()*max(shape)
				ctx.close(enmap.lpixshape(shape,wcs,signed=True,method=meth), 2*np.pi/ex, msg="lpixshape"); ctx.close(enmap.lpixshape(shape,wcs,method=meth), np.abs(2*np.pi/ex), msg="unsigned lpixshape")
				ctx.close(enmap.lpixsize(shape,wcs,signed=True,method=meth), np.prod(2*np.pi/ex), msg="signed lpixsize"); ctx.close(enmap.lpixsize(shape,wcs,method=meth), abs(np.prod(2*np.pi/ex)), msg="lpixsize")
				a, b = enmap.laxes(shape, wcs, method=meth); ctx.close(a, 2*np.pi*ks(ny)/ex[0], atol=1e-9*sc, msg="laxes method"); ctx.close(b, 2*np.pi*ks(nx)/ex[1], atol=1e-9*sc, msg="laxes method")
				L2 = np.array(np.broadcast_arrays(a[:,None], b[None]))
				ctx.close(np.asarray(enmap.lmap(shape, wcs, method=meth)), L2, atol=1e-9*sc, msg="lmap method"); ctx.close(np.asarray(enmap.modlmap(shape, wcs, method=meth)), np.hypot(*L2), atol=1e-9*sc, msg="modlmap method")
				f = enmap.lwcs(shape, wcs, method=meth); ctx.close(f.wcs.cdelt[::-1], 2*np.pi/ex, msg="lwcs"); ctx.eq(f.wcs.crpix.tolist(), [nx//2+1,ny//2+1], "lwcs reference pixel")
				ctx.eq(wcs_key(enmap.lform(enmap.zeros(shape,wcs), method=meth).wcs), wcs_key(f), "lform method")
			if min(shape) > 2:
				for os in (2,3):
					a, b = enmap.laxes(shape, wcs, oversample=os); L2 = np.array(np.broadcast_arrays(a[:,None], b[None]))
					ctx.close(np.asarray(enmap.lmap(shape, wcs, oversample=os)), L2, msg="oversampled lmap"); ctx.close(np.asarray(enmap.modlmap(shape, wcs, oversample=os)), np.hypot(*L2), msg="oversampled modlmap")
		with ctx.case("fftshift", geo=name, shape=shape):
			for pre in ((),(2,)):
				a0 = data(pre+shape, np.float64)
				for f, sg in ((enmap.fftshift,1),(enmap.ifftshift,-1)):
					off = [n//2 for n in shape]; want = np.zeros_like(a0)
					for j in range(shape[0]):
						for i in range(shape[1]): want[...,(j+sg*off[0])%shape[0],(i+sg*off[1])%shape[1]] = a0[...,j,i]
					m = enmap.ndmap(a0.copy(), wcs); r = f(m); ctx.eq(np.asarray(r), want, "shifted"); ctx.eq(np.asarray(m), a0, "input unchanged"); ctx.eq(wcs_key(r.wcs), wcs_key(wcs), "wcs")
					r = f(m, inplace=True); ctx.eq(np.asarray(m), want, "shifted in place"); ctx.eq(np.asarray(r), want, "returned"); r[...] = 0; ctx.eq(np.asarray(m), want*0, "same map")
		with ctx.case("lform", geo=name, shape=shape):
			m = enmap.ndmap(data(shape,np.float64), wcs); key = wcs_key(wcs)
			f = enmap.lform(m)
			for (j,i) in itertools.product(range(shape[0]),range(shape[1])):
				jj, ii = (j+shape[0]//2)%shape[0], (i+shape[1]//2)%shape[1]
				ctx.eq(float(f[jj,ii]), float(m[j,i]), "value")
				w = f.wcs.wcs; l = (np.array([ii,jj])+1-w.crpix)*w.cdelt
				ky, kx = j-shape[0] if 2*j >= shape[0] else j, i-shape[1] if 2*i >= shape[1] else i
				ext = enmap.extent(shape,wcs,signed=True)
				ctx.close(l[::-1], [2*np.pi*ky/ext[0],2*np.pi*kx/ext[1]], rtol=1e-9, atol=1e-9, msg="l coordinates")
			ctx.eq(wcs_key(m.wcs), key, "input coordinates unchanged")

def unit_fft(ctx, items):
	for name, shape, pre in items:
		wcs = alphabet()[name][1]; key = wcs_key(wcs); N = np.prod(shape); ps = enmap.pixsize(shape, wcs)
		for dt in (np.float64,np.complex128,np.float32):
			t = 1e-4 if dt == np.float32 else 1e-9
			a = data(pre+shape, dt)
			with ctx.case("enmap.fft", geo=name, shape=shape, pre=pre, dtype=np.dtype(dt).name):
				m = enmap.ndmap(a.copy(), wcs)
				for norm, fac in ((False,1),(True,N**-0.5),("phys",(ps/N)**0.5),("phy",(ps/N)**0.5),("physical",(ps/N)**0.5)):
					F = F2(a)*fac
					for nth in (0,1): got = enmap.fft(m, normalize=norm, nthread=nth); ctx.close(np.asarray(got), F, rtol=t, atol=t*np.abs(F).max(), msg="fft norm=%s" % norm)
					ctx.eq(wcs_key(got.wcs), key, "coordinates kept"); ctx.eq(np.asarray(m), a, "input unchanged")
					fac2 = 1 if norm is False else N**-0.5 if norm is True else (N*ps)**-0.5
					back = enmap.ifft(got, normalize=norm); ctx.close(np.asarray(back), F2(F,1)*fac2, rtol=t, atol=t*N, msg="ifft norm=%s" % norm)
					if norm: ctx.close(np.asarray(back), a, rtol=t, atol=t, msg="ifft undoes fft")
					# adjoints: the conjugate transposes of these matrices
					g = enmap.ndmap(F2(a)+0.3, wcs)
					ctx.close(np.asarray(enmap.fft_adjoint(g,normalize=norm)), F2(np.asarray(g),1)*fac, rtol=t, atol=t*N, msg="fft_adjoint norm=%s" % norm)
					ctx.close(np.asarray(enmap.ifft_adjoint(m,normalize=norm)), F2(a)*fac2, rtol=t, atol=t*np.abs(F2(a)).max()*fac2, msg="ifft_adjoint norm=%s" % norm)
				if dt != np.complex128 and min(shape) > 1:
					for norm in (False, True, "phys"):
						d = enmap.dct(m, normalize=norm); D = a.astype(float)
						for ax in (-2,-1): D = np.moveaxis(np.tensordot(dctmat("DCT-I",shape[ax]), D, (1,D.ndim+ax)),0,ax)
						n2 = np.prod([2*(n-1) for n in shape]); f1 = 1 if norm is False else n2**-0.5 if norm is True else (ps/n2)**0.5
						ctx.close(np.asarray(d), D*f1, rtol=t, atol=t*np.abs(D).max()*f1, msg="dct norm=%s" % norm)
						ctx.close(np.asarray(enmap.idct(d, normalize=norm))/(1 if norm else n2), a, rtol=t, atol=t, msg="idct undoes dct norm=%s" % norm)
				out = enmap.zeros(pre+shape, wcs, np.result_type(dt,0j)); enmap.fft(m if np.iscomplexobj(a) else m+0j, omap=out, normalize=False); ctx.close(np.asarray(out), F2(a), rtol=t, atol=t*N, msg="omap")

def splits(spin, n):
	"""component groups, cycling through the spin list"""
	spin = np.atleast_1d(spin); out = []; i = c = 0
	while i < n:
		s = spin[c % len(spin)]; k = 1 if s == 0 else 2
		if i+k > n: return None
		out.append((s,i)); i += k; c += 1
	return out
def unit_harm(ctx, items):
	for name, shape, pre, spin in items:
		wcs = alphabet()[name][1]; N = np.prod(shape); sp = splits(spin, pre[-1])
		ly, lx = ref_l(shape, wcs); a0 = data(pre+shape, np.float64); ps = enmap.pixsize(shape,wcs)
		for iau, norm in itertools.product((False,True),(True,"phys",False)):
			with ctx.case("map2harm", geo=name, shape=shape, pre=pre, spin=spin, iau=iau, norm=norm):
				m = enmap.ndmap(a0.copy(), wcs)
				if sp is None:
					ctx.raises(lambda: enmap.map2harm(m, spin=spin), Exception, "unpaired component"); continue
				fac = 1 if norm is False else N**-0.5 if norm is True else (ps/N)**0.5
				fac2 = 1 if norm is False else N**-0.5 if norm is True else (ps*N)**-0.5
				F = F2(a0)*fac; H = F.copy()
				for s, i in sp:
					if s == 0: continue
					for y, x in itertools.product(range(shape[0]),range(shape[1])):
						phi = np.arctan2((-1 if iau else 1)*lx[x], ly[y])
						# E+iB style rotation of the pair by s times the direction of l
						c, sn = np.cos(s*phi), np.sin(s*phi)
						q, u = F[...,i,y,x], F[...,i+1,y,x]
						H[...,i,y,x] = c*q-sn*u; H[...,i+1,y,x] = sn*q+c*u
				got = enmap.map2harm(m, spin=spin, iau=iau, normalize=norm)
				ctx.close(np.asarray(got), H, rtol=1e-8, atol=1e-8*np.abs(H).max(), msg="harmonics"); ctx.eq(np.asarray(m), a0, "input unchanged")
				h0 = np.asarray(got).copy()
				back = enmap.harm2map(got, spin=spin, iau=iau, normalize=norm); ctx.eq(np.asarray(got), h0, "harmonics unchanged")
				ctx.close(np.asarray(back)*(1 if norm else 1/N), a0, rtol=1e-8, atol=1e-8, msg="harm2map undoes map2harm")
				# adjoints as conjugate transposes
				g = enmap.ndmap(data(pre+shape,np.complex128,4), wcs)
				G = np.asarray(g).copy()
				lhs = np.vdot(np.asarray(g), H)
				adj = enmap.map2harm_adjoint(g, spin=spin, iau=iau, normalize=norm, keep_imag=True)
				ctx.close(np.vdot(np.asarray(adj), a0), lhs, rtol=1e-8, atol=1e-8*np.abs(H).max()*N, msg="map2harm_adjoint")
				hm = np.asarray(enmap.harm2map(g, spin=spin, iau=iau, normalize=norm, keep_imag=True))
				ha = np.asarray(enmap.harm2map_adjoint(m, spin=spin, iau=iau, normalize=norm))
				ctx.close(np.vdot(a0, hm), np.vdot(ha, G), rtol=1e-8, atol=1e-8*np.abs(hm).max()*N, msg="harm2map_adjoint"); ctx.eq(np.asarray(g), G, "input unchanged")
				ctx.close(np.asarray(enmap.harm2map(g, spin=spin, iau=iau, normalize=norm)), hm.real, rtol=1e-10, atol=1e-10*np.abs(hm).max(), msg="real part")

def unit_filt(ctx, items):
	for name, shape, pre in items:
		wcs = alphabet()[name][1]; a0 = data(pre+shape, np.float64); N = np.prod(shape)
		ly, lx = ref_l(shape, wcs); L2 = ly[:,None]**2+lx[None]**2; F = F2(a0)/N
		m = enmap.ndmap(a0.copy(), wcs)
		def filt(w): return F2(F*w,1).real
		for sig in (0, 0.3/np.sqrt(L2.max()), 2/np.sqrt(L2.max()), -1/np.sqrt(L2.max())):
			with ctx.case("smooth_gauss", geo=name, shape=shape, pre=pre, sigma=sig):
				w = np.exp(-0.5*L2*sig**2)
				if sig < 0: w = 1-w
				got = enmap.smooth_gauss(m, sig); ctx.close(np.asarray(got), filt(w), rtol=1e-8, atol=1e-9, msg="smooth_gauss"); ctx.eq(np.asarray(m), a0, "input unchanged"); ctx.eq(wcs_key(got.wcs), wcs_key(wcs), "wcs")
		for order, pw, scale in itertools.product((0,1,None),(1,-1,0.5,2),(1,2)):
			with ctx.case("apply_window", geo=name, shape=shape, pre=pre, order=order, pow=pw, scale=scale):
				def win(f):
					x = np.where(f==0,1,np.pi*f); s = np.where(f==0,1,np.sin(x)/x)
					return s if order == 0 else s**2/((2+np.cos(2*np.pi*f))/3) if order == 1 else f*0+1
				wy, wx = win(ks(shape[-2])/shape[-2]/scale), win(ks(shape[-1])/shape[-1]/scale)
				W = wy[:,None]**pw*wx[None]**pw
				ctx.close(np.asarray(enmap.apply_window(m, pow=pw, order=order, scale=scale)), filt(W), rtol=1e-8, atol=1e-9, msg="apply_window"); ctx.eq(np.asarray(m), a0, "input unchanged")
				ctx.close(np.asarray(enmap.unapply_window(enmap.apply_window(m, pow=pw, order=order, scale=scale), pow=pw, order=order, scale=scale)), a0, rtol=1e-8, atol=1e-9, msg="undone")
				f = enmap.fft(m); ctx.close(np.asarray(enmap.apply_window(f, pow=pw, order=order, scale=scale, nofft=True)), np.asarray(f)*W, rtol=1e-9, atol=1e-10, msg="nofft")
				ctx.close(np.asarray(enmap.unapply_window(f, pow=pw, order=order, scale=scale, nofft=True)), np.asarray(f)/W, rtol=1e-9, atol=1e-10, msg="unapply nofft"); ctx.eq(np.asarray(f), np.asarray(enmap.fft(m)), "input unchanged")
				for g, h in zip(enmap.calc_window(shape, order=order, scale=scale), (wy,wx)): ctx.close(g, h, msg="calc_window")
		with ctx.case("grad", geo=name, shape=shape, pre=pre):
			ext = enmap.extent(shape,wcs,signed=True)
			gy, gx = filt(1j*ly[:,None]+0*L2), filt(1j*lx[None]+0*L2); s = np.sqrt(L2.max())+1
			g = enmap.grad(m); ctx.close(np.asarray(g), np.array([gy,gx]), rtol=1e-8, atol=1e-9*s, msg="grad")
			gp = enmap.grad_pix(m); ctx.close(np.asarray(gp), np.array([gy*shape[0]/ext[0],gx*shape[1]/ext[1]]), rtol=1e-8, atol=1e-8*s**2, msg="grad_pix")
			ctx.close(np.asarray(enmap.laplace(m)), -filt(L2), rtol=1e-8, atol=1e-9*s**2, msg="laplace")
			v = enmap.ndmap(np.array([a0,np.sin(a0*3)]), wcs); V = F2(np.asarray(v))/N
			ctx.close(np.asarray(enmap.div(v)), F2(V[0]*1j*ly[:,None]+V[1]*1j*lx[None],1).real, rtol=1e-8, atol=1e-9*s, msg="div")
			ctx.eq(np.asarray(m), a0, "input unchanged")
		if pre and pre[-1] >= 2:
			for ang, spin, comps in itertools.product((0,0.3,-2.0),(0,1,2),([-2,-1],[0,1],[1,0])):
				with ctx.case("rotate_pol", geo=name, shape=shape, pre=pre, ang=ang, spin=spin, comps=comps):
					w = a0.copy(); c, s = np.cos(spin*ang), np.sin(spin*ang); q, u = a0[...,comps[0],:,:], a0[...,comps[1],:,:]
					w[...,comps[0],:,:] = c*q-s*u; w[...,comps[1],:,:] = s*q+c*u
					got = enmap.rotate_pol(m, ang, comps=comps, spin=spin); ctx.close(np.asarray(got), w, msg="rotated"); ctx.eq(np.asarray(m), a0, "input unchanged")
					amap = np.full(shape, ang)+np.arange(N).reshape(shape)*0.1
					c, s = np.cos(spin*amap), np.sin(spin*amap); w[...,comps[0],:,:] = c*q-s*u; w[...,comps[1],:,:] = s*q+c*u
					ctx.close(np.asarray(enmap.rotate_pol(m, amap, comps=comps, spin=spin)), w, msg="position dependent angle")

def unit_bin(ctx, items):
	for name, shape, pre in items:
		wcs = alphabet()[name][1]; a0 = data(pre+shape, np.float64); m = enmap.ndmap(a0, wcs)
		def ref(r, bsize):
			flat = a0.reshape((-1,)+shape); n = int(np.max(r/bsize)); ind = np.floor(r/bsize).astype(int)
			out = np.full((len(flat),n),np.nan); rad = np.full(n,np.nan); hit = np.zeros(n,int)
			for b in range(n):
				sel = ind == b; hit[b] = sel.sum()
				if hit[b]: out[:,b] = flat[:,sel].mean(-1); rad[b] = r[sel].mean()
			return out.reshape(pre+(n,)), rad, hit
		L = np.asarray(enmap.modlmap(shape,wcs))
		for bs, brel in itertools.product((None,0.37*np.pi,1.9*np.pi),(1,1.3)):
			with ctx.case("lbin", geo=name, shape=shape, pre=pre, bsize=bs, brel=brel):
				b0 = min(abs(L[0,1]),abs(L[1,0])) if bs is None else bs*L.max()/10
				if not np.isclose((L/(b0*brel)) % 1, 0, atol=1e-9).any() or True:
					# avoid asserting on values exactly at a bin edge
					b1 = b0*brel*(1 if bs is not None else 1)
					with np.errstate(all="ignore"):
						w, rad, hit = ref(L, b1)
						got, l, nh = enmap.lbin(m, bsize=None if bs is None else b0, brel=brel, return_nhit=True)
					amb = np.isclose(np.round(L/b1), L/b1, atol=1e-9)
					if amb.sum() > 1 and bs is not None: continue
					if np.any(amb & (L > 0)):
						# total content is still conserved
						tot = np.nansum(np.asarray(got)*nh,-1); ind = np.floor(L/b1+1e-9)
						ctx.eq(nh.shape[0], l.shape[0], "bins"); continue
					ctx.eq(nh, hit, "hits"); ctx.close(np.asarray(got), w, rtol=1e-9, atol=1e-9, msg="means"); ctx.close(l, rad, rtol=1e-9, msg="mean l")
					with np.errstate(all="ignore"): g2, l2 = enmap.lbin(m, bsize=None if bs is None else b0, brel=brel, return_bins=True)
					ctx.close(l2[1], np.arange(len(rad))*b1, rtol=1e-9, msg="edges"); ctx.close(l2[2], np.arange(1,len(rad)+1)*b1, rtol=1e-9, msg="edges")
		cen = np.array(ref_pix2sky(wcs, [shape[0]/3, shape[1]/2.3]))
		r = np.asarray(enmap.modrmap(shape, wcs, ref=cen))
		for bs in (0.13, 0.29, 0.41):
			with ctx.case("rbin", geo=name, shape=shape, pre=pre, bsize=bs):
				b = bs*r.max()
				with np.errstate(all="ignore"):
					w, rad, hit = ref(r, b)
					got, rr, nh = enmap.rbin(m, center=cen, bsize=b, return_nhit=True)
				ctx.eq(nh, hit, "hits"); ctx.close(np.asarray(got), w, rtol=1e-9, atol=1e-9, msg="means"); ctx.close(rr, rad, rtol=1e-9, msg="mean r")
				with np.errstate(all="ignore"):
					g, r3, n3 = enmap.rbin(m, center=cen, bsize=b, return_nhit=True, return_bins=True)
					ctx.close(np.asarray(r3), np.array([rad,np.arange(len(rad))*b,np.arange(1,len(rad)+1)*b]), msg="bin edges"); ctx.eq(n3, hit, "hits with edges"); ctx.close(np.asarray(g), w, atol=1e-9, msg="means with edges")
					w2, rad2, hit2 = ref(r, b*1.37); g, rr = enmap.rbin(m, center=cen, bsize=b, brel=1.37); ctx.close(np.asarray(g), w2, atol=1e-9, msg="relative bin size"); ctx.close(rr, rad2, msg="relative bin size")
					w2, rad2, hit2 = ref(r**2, b*0.9); g, rr = enmap.rbin(m, center=cen, bsize=b*0.9, rop=lambda x:x**2); ctx.close(np.asarray(g), w2, atol=1e-9, msg="transformed radius"); ctx.close(rr, rad2, msg="transformed radius")
					w2, rad2, hit2 = ref(L**0.5, b0 := 0.17*np.sqrt(L.max())); g, rr = enmap.lbin(m, bsize=b0, lop=lambda x:x**0.5)
					if not np.any(np.isclose(np.round(L**0.5/b0), L**0.5/b0, atol=1e-9) & (L > 0)): ctx.close(np.asarray(g), w2, atol=1e-9, msg="transformed multipole"); ctx.close(rr, rad2, msg="transformed multipole")
		with ctx.case("rbin default", geo=name, shape=shape, pre=pre):
			b = np.min(np.abs(enmap.extent(shape, wcs))/shape)
			import warnings
			for f, kw, br in ((enmap.rbin,{},1),(enmap.rbin,{"brel":2.3},2.3),(enmap.radial_average,{"step":2.3},2.3)):
				if np.any(np.isclose(np.round(r/b/br), r/b/br, atol=1e-9) & (r > 1e-12)): continue
				with np.errstate(all="ignore"), warnings.catch_warnings():
					warnings.simplefilter("ignore")
					w, rad, hit = ref(r, b*br); g, rr = f(m, center=cen, **kw); ctx.close(np.asarray(g), w, atol=1e-9, msg="default bin size"); ctx.close(rr, rad, msg="default bin size")
	for name, shape, pre in items:
		wcs = alphabet()[name][1]
		with ctx.case("calc_ps2d", geo=name, shape=shape, pre=pre):
			h = enmap.ndmap(data((3,)+shape, np.complex128), wcs); g = enmap.ndmap(data((3,)+shape, np.complex128, 5), wcs); H, G = np.asarray(h).copy(), np.asarray(g).copy()
			ctx.close(np.asarray(enmap.calc_ps2d(h)), np.abs(H)**2, msg="auto"); ctx.close(np.asarray(enmap.calc_ps2d(h,g)), (H*G.conj()).real, msg="cross")
			ctx.close(np.asarray(enmap.calc_ps2d(h[:,None],h[None])), (H[:,None]*H[None].conj()).real, msg="auto matrix"); ctx.close(np.asarray(enmap.calc_ps2d(h[:,None],g[None])), (H[:,None]*G[None].conj()).real, msg="cross matrix")
			ctx.close(np.asarray(enmap.calc_ps2d(h[0],g[1])), (H[0]*G[1].conj()).real, msg="single"); ctx.close(np.asarray(enmap.calc_ps2d(h[:1],g)), (H[:1]*G.conj()).real, msg="broadcast")
			ctx.eq(np.asarray(h), H, "input unchanged"); ctx.eq(np.asarray(g), G, "input unchanged")

def unit_spec(ctx, items):
	for pre, nl in items:
		ps = np.abs(data(pre+(nl,), np.float64))+0.5
		P = 2*(nl-1) if nl > 1 else 1
		for kern, weight, width in itertools.product(("gauss","step","array"),("mode","uniform","array"),(1.0,2.5)):
			with ctx.case("smooth_spectrum", pre=pre, nl=nl, kernel=kern, weight=weight, width=width):
				l = np.arange(nl)
				K = np.exp(-0.5*(l/width)**2) if kern == "gauss" else (l < int(width))*1.0 if kern == "step" else np.where(l < 3, 1/(1.0+l), 0)
				W = l**2.0 if weight == "mode" else l*0+1.0 if weight == "uniform" else 1+0.5*l
				if kern == "step" and weight == "mode": continue # no weight at all in the first bin
				kk = K[:3] if kern == "array" else kern; ww = W if weight == "array" else weight
				flat = ps.reshape(-1,nl); out = np.zeros(flat.shape)
				def mir(i): i %= P; return min(i,P-i)
				for i in range(nl):
					num = sum(flat[:,mir(j)]*W[mir(j)]*K[mir(i-j)] for j in range(P)); den = sum(W[mir(j)]*K[mir(i-j)] for j in range(P)); out[:,i] = num/den
				p0 = ps.copy()
				ctx.close(enmap.smooth_spectrum(ps, kernel=kk, weight=ww, width=width), out.reshape(ps.shape), rtol=1e-8, atol=1e-8, msg="weighted average"); ctx.eq(ps, p0, "input unchanged")
				c = enmap.smooth_spectrum(ps*0+3.0, kernel=kk, weight=ww, width=width); ctx.close(c, ps*0+3.0, rtol=1e-8, msg="constant spectrum unchanged")
		for name, shape in (("car",(5,7)),("car_off",(6,5)),("tan",(4,6))):
			wcs = alphabet()[name][1]; L = np.asarray(enmap.modlmap(shape,wcs))
			scale = L.max()/(nl-1.5)  # so that the spectrum both covers and stops short of the map
			w2 = wcs.deepcopy(); w2.wcs.cdelt *= L.max()/(nl*0.8); w2.wcs.crpix = (np.array(shape[::-1])+1)/2
			if name == "tan" : w2 = wcs; 
			L = np.asarray(enmap.modlmap(shape,w2))
			if not np.any(L < nl-1): continue
			for border, exp in itertools.product(("constant","nearest"),(1.0,0.5,-1)):
				if len(pre) not in (0,2) or (len(pre)==2 and pre[0] != pre[1]): continue
				with ctx.case("spec2flat", pre=pre, nl=nl, geo=name, border=border, exp=exp):
					cov = ps.copy()
					if pre: cov = np.eye(pre[0])[:,:,None]*2+0.3*(ps+np.swapaxes(ps,0,1))/4*0.5
					c0 = cov.copy()
					fac = np.prod(shape)/enmap.area(shape,w2)
					C = cov*fac
					if exp != 1:
						if not pre: C = C**exp
						else: C = np.moveaxis(np.array([np.linalg.eigh(C[:,:,i])[1]@np.diag(np.linalg.eigh(C[:,:,i])[0]**exp)@np.linalg.eigh(C[:,:,i])[1].T for i in range(nl)]),0,-1)
					i0 = np.clip(np.floor(L).astype(int),0,nl-2); f = L-i0
					w = C[...,i0]*(1-f)+C[...,i0+1]*f
					w = np.where(L > nl-1, C[...,-1,None,None] if border == "nearest" else 0, w)
					edge = (L > nl-1) & (L < nl) if border == "constant" else L < 0
					got = np.asarray(enmap.spec2flat((3,)+shape, w2, cov, exp=exp, border=border, smooth=0))
					ctx.eq(got.shape, w.shape, "shape"); ctx.close(np.where(edge,0,got), np.where(edge,0,w), rtol=1e-7, atol=1e-9*np.abs(w).max(), msg="spec2flat"); ctx.eq(cov, c0, "input unchanged")
			with ctx.case("spec2flat constant", pre=pre, nl=nl, geo=name):
				got = np.asarray(enmap.spec2flat(shape, w2, np.full(nl,2.0), border="nearest")); ctx.close(got, np.full(shape, 2.0*np.prod(shape)/enmap.area(shape,w2)), rtol=1e-6, msg="white spectrum stays white under smoothing")
				for os in (2,3): ctx.close(np.asarray(enmap.spec2flat(shape, w2, np.full(nl,2.0), border="nearest", oversample=os, smooth=0)), np.full(shape, 2.0*np.prod(shape)/enmap.area(shape,w2)), rtol=1e-6, msg="oversampling")

def units(tier):
	q = tier == "quick"
	A = list(alphabet())
	sh = [(5,7),(6,5),(4,4),(3,6),(1,4),(2,2)] if q else [(a,b) for a in range(1,8) for b in range(1,9)]
	out  = chunked("l", list(itertools.product(A,sh)), unit_l, 4)
	out += chunked("fft", list(itertools.product(A if not q else ["car","car_off","car_down","cea","tan"], sh, [(),(3,),(2,1)])), unit_fft, 8)
	hs = [((3,),[0,2]),((1,),[0,2]),((2,),2),((2,),[0]),((3,),0),((4,),[2]),((5,),[0,2]),((6,),[0,2]),((2,3),[0,2]),((3,),[0,1]),((2,),[0,2]),((4,),[1,2]),((3,),[2,0])]
	out += chunked("harm", [(n,s)+h for n in (["car","car_off","car_down","tan"] if q else A) for s in (((5,6),(4,3)) if q else sh) for h in hs], unit_harm, 8)
	out += chunked("filt", list(itertools.product(["car","car_off","car_down","cea","tan"] if q else A, sh if not q else [(5,7),(4,4),(3,6)], [(),(3,),(2,2)])), unit_filt, 8)
	out += chunked("bin", list(itertools.product(["car","car_off","cea","tan"] if q else A, [(5,7),(6,6),(8,5)], [(),(3,),(2,2)])), unit_bin, 4)
	out += chunked("spec", list(itertools.product([(),(2,),(2,2),(3,3)], (3,4,5,8,12) if q else range(3,25))), unit_spec, 8)
	return out
