"""C09: Fourier shifting and resampling keep the signal in place."""
import numpy as np, itertools
from pixell import fft, enmap, resample, utils
from ..core import chunked
from ..geo import *
from .c08 import data, norm_axes

RULE   = "every input length x output length (including odd/even combinations and 1) x axis list x dtype, every shift from a set of integer and fractional values, every map shape x output shape x geometry x alignment; reference: the trigonometric polynomial through the samples, evaluated by explicit sums"
BOUNDS = "1d lengths 1..10 (thorough 1..16) to 1..12 (20); maps up to 6x7 to 8x9; shifts -3..3 in quarter samples; 1-3 dimensional arrays"
ASSUME = ["the unpaired Nyquist mode of an even-length axis belongs to the negative frequencies, and only the real part is kept for real data (as the code documents by construction)"]

def modes(n): return np.array([i if 2*i < n else i-n for i in range(n)])
def interp_mat(n, m, x):
	"""matrix [len(x),n] evaluating, at fractional positions x, the trig polynomial through n samples, restricted to the modes an m-sample array has"""
	c = min(n,m); k = [v for v in modes(n) if -(c//2) <= v <= (c-1)//2]
	A = np.zeros((len(x),n),complex)
	for kk in k: A += np.exp(2j*np.pi*kk*np.asarray(x)/n)[:,None]*np.exp(-2j*np.pi*kk*np.arange(n)/n)[None]/n
	return A
def apply(mat, a, ax): return np.moveaxis(np.tensordot(mat, a, (1,ax)), 0, ax)
def fin(a, like): return a if np.iscomplexobj(like) else a.real

def unit_resample(ctx, items):
	for n, m in items:
		for dt in (np.float64, np.complex128, np.float32, np.int32):
			t = 1e-4 if dt == np.float32 else 1e-9
			M = interp_mat(n, m, np.arange(m)*n/m)
			for shape, ax in [((n,),-1),((n,),0),((2,n),-1),((2,n),1),((n,2),0),((n,2),-2),((2,n,3),1)]:
				a0 = data(shape, dt); want = fin(apply(M, a0.astype(complex), ax), a0)
				with ctx.case("resample1d", n=n, m=m, shape=shape, ax=ax, dtype=np.dtype(dt).name):
					a = a0.copy()
					for eng in ("numpy","ducc"): ctx.close(fft.resample(a, m, axes=[ax], engine=eng), want, rtol=t, atol=t, msg="fft.resample")
					ctx.close(resample.resample_fft(a, [m], axes=[ax]), want, rtol=t, atol=t, msg="resample.resample_fft")
					if ax == -1:
						ctx.close(fft.resample(a, m), want, rtol=t, atol=t, msg="fft.resample default axis"); ctx.close(resample.resample_fft(a, m), want, rtol=t, atol=t, msg="resample.resample_fft default axis")
						if a.ndim == 2: ctx.close(resample.resample_fft_simple(a, m, ngroup=1), want, rtol=t, atol=t, msg="simple")
					if int(n*(m/n)+0.5) == m: ctx.close(resample.resample(a, [m/n], axes=[ax]), want, rtol=t, atol=t, msg="by factor")
					ctx.eq(a, a0, "input unchanged")
				with ctx.case("resample_fft1d", n=n, m=m, shape=shape, ax=ax, dtype=np.dtype(dt).name):
					fa = np.fft.fft(a0, axis=ax)
					osh = list(shape); osh[ax] = m
					w = np.zeros(osh, complex); mm = list(modes(m)); mn = list(modes(n)); c = min(n,m)
					for k in range(-(c//2),(c-1)//2+1):
						wi = [slice(None)]*len(shape); wi[ax] = mm.index(k); fi = [slice(None)]*len(shape); fi[ax] = mn.index(k); w[tuple(wi)] = fa[tuple(fi)]
					f0 = fa.copy()
					ctx.close(fft.resample_fft(fa, m, axes=ax), w, rtol=1e-9, atol=1e-9, msg="modes"); ctx.close(fft.resample_fft(fa, m, axes=ax, norm=2.5), w*2.5, rtol=t, atol=t, msg="norm")
					out = np.full(osh, 3+1j); ctx.check(fft.resample_fft(fa, m, out=out, axes=ax, op=np.add) is out, "output returned"); ctx.close(out, w+3+1j, rtol=t, atol=t, msg="op")
					ctx.eq(fa, f0, "input unchanged")
			# round trip through a finer sampling
			if m >= n and (n%2 or m == n or dt == np.complex128):
				with ctx.case("resample round trip", n=n, m=m, dtype=np.dtype(dt).name):
					a = data((3,n), dt); ctx.close(fft.resample(fft.resample(a, m), n), a, rtol=t, atol=t, msg="fft.resample"); ctx.close(resample.resample_fft(resample.resample_fft(a,m),n), a, rtol=t, atol=t, msg="resample.resample_fft")

def unit_resample2(ctx, items):
	for ns, ms in items:
		for shape, axes in [(ns,(0,1)),((2,)+ns,(-2,-1)),((ns[0],2,ns[1]),(0,2)),((ns[1],ns[0]),(1,0))]:
			for dt in (np.float64,np.complex128):
				with ctx.case("resample2d", ns=ns, ms=ms, shape=shape, axes=axes, dtype=np.dtype(dt).name):
					a = data(shape, dt); w = a.astype(complex)
					for ax, n, m in zip(axes,ns,ms): w = apply(interp_mat(n,m,np.arange(m)*n/m), w, ax)
					w = fin(w, a)
					ctx.close(fft.resample(a, ms, axes=axes), w, rtol=1e-9, atol=1e-9, msg="fft.resample"); ctx.close(resample.resample_fft(a, ms, axes=axes), w, rtol=1e-9, atol=1e-9, msg="resample.resample_fft")
					fa = np.fft.fftn(a, axes=axes); ctx.close(fft.fft(w if np.iscomplexobj(a) else w+0j, axes=axes) if np.iscomplexobj(a) else 0, fft.resample_fft(fa, ms, axes=axes, norm=np.prod(ms)/np.prod(ns)) if np.iscomplexobj(a) else 0, rtol=1e-8, atol=1e-8, msg="resample_fft consistent")

SHIFTS = [-3,-1.75,-1,-0.5,0,0.25,0.5,1,2,2.75]
def unit_shift(ctx, items):
	for n, s in items:
		A = interp_mat(n, n, np.arange(n)-s)
		D = np.zeros((n,n),complex)
		for k in modes(n): D += -2j*np.pi*k/n*np.exp(2j*np.pi*k*(np.arange(n)-s)/n)[:,None]*np.exp(-2j*np.pi*k*np.arange(n)/n)[None]/n
		for shape, ax in [((n,),None),((n,),0),((2,n),None),((2,n),-1),((n,3),0),((n,3),-2),((2,n,3),1)]:
			for dt in (np.float64,np.complex128,np.float32,np.int64):
				t = 1e-4 if dt == np.float32 else 1e-9
				with ctx.case("fft.shift", n=n, shift=s, shape=shape, ax=ax, dtype=np.dtype(dt).name):
					a0 = data(shape, dt); a = a0.copy(); rax = -1 if ax is None else ax
					for eng in ("numpy","ducc"):
						got = fft.shift(a, s, axes=None if ax is None else [ax], engine=eng)
						ctx.close(got, fin(apply(A,a0.astype(complex),rax),a0), rtol=t, atol=t, msg="shifted")
					if s == int(s): ctx.close(got, np.roll(a0,int(s),rax), rtol=t, atol=t, msg="whole-sample shift is a roll")
					ctx.close(fft.shift(a, s, axes=None if ax is None else [ax], deriv=0), fin(apply(D,a0.astype(complex),rax),a0), rtol=t, atol=t*10, msg="derivative")
					ctx.eq(a, a0, "input unchanged")
					fa = np.fft.fft(a0,axis=rax)
					ctx.close(fft.shift(fa, s, axes=None if ax is None else [ax], nofft=True), np.fft.fft(apply(A,a0.astype(complex),rax),axis=rax), rtol=max(t,1e-8), atol=max(t,1e-8), msg="in fourier space")

def unit_shift2(ctx, items):
	for shape, sh in items:
		for dt in (np.float64, np.complex128):
			with ctx.case("fft.shift 2d", shape=shape, shift=sh, dtype=np.dtype(dt).name):
				a = data(shape, dt); w = a.astype(complex)
				for ax, s in zip((-2,-1), sh): w = apply(interp_mat(a.shape[ax],a.shape[ax],np.arange(a.shape[ax])-s), w, ax)
				ctx.close(fft.shift(a, sh), fin(w,a), rtol=1e-9, atol=1e-9, msg="default axes")
				ctx.close(fft.shift(a, sh[::-1], axes=(-1,-2)), fin(w,a), rtol=1e-9, atol=1e-9, msg="explicit axes")
			with ctx.case("enmap.shift", shape=shape, shift=sh, dtype=np.dtype(dt).name):
				w0 = alphabet()["car"][1]; key = wcs_key(w0)
				m = enmap.ndmap(a.copy(), w0)
				got = enmap.fractional_shift(m, sh); ctx.close(np.asarray(got), fin(w,a), rtol=1e-9, atol=1e-9, msg="fractional_shift")
				ctx.close(got.wcs.wcs.crpix, w0.wcs.crpix+np.array(sh)[::-1], msg="coordinates follow the pixels"); ctx.eq(wcs_key(m.wcs), key, "input coordinates unchanged"); ctx.eq(np.asarray(m), a, "input unchanged")
				got = enmap.fractional_shift(m, sh, keepwcs=True); ctx.close(np.asarray(got), fin(w,a), rtol=1e-9, atol=1e-9, msg="fractional_shift"); ctx.eq(wcs_key(got.wcs), key, "keepwcs")
				if all(s == int(s) for s in sh):
					ish = [int(s) for s in sh]; r = np.roll(np.roll(a,ish[0],-2),ish[1],-1)
					got = enmap.shift(m, ish); ctx.eq(np.asarray(got), r, "shift"); ctx.close(got.wcs.wcs.crpix, w0.wcs.crpix+np.array(ish)[::-1], msg="coordinates"); ctx.eq(wcs_key(m.wcs), key, "input coordinates unchanged"); ctx.eq(np.asarray(m), a, "input unchanged")
					got = enmap.shift(m, ish, keepwcs=True); ctx.eq(np.asarray(got), r, "shift"); ctx.eq(wcs_key(got.wcs), key, "keepwcs")
					m2 = m.copy(); got = enmap.shift(m2, ish, inplace=True); ctx.eq(np.asarray(m2), r, "inplace"); ctx.eq(wcs_key(m.wcs), key, "input coordinates unchanged")
	for n, k in itertools.product(range(1,6),range(1,6)):
		with ctx.case("fftshift", shape=(n,k)):
			m = enmap.ndmap(ramp((2,n,k)), alphabet()["car"][1]); ref = np.asarray(m).copy()
			sh = np.asarray(enmap.fftshift(m))
			for j,i in itertools.product(range(n),range(k)): ctx.check(np.all(sh[:,(j+n//2)%n,(i+k//2)%k] == ref[:,j,i]), "zero frequency in the middle")
			ctx.eq(np.asarray(enmap.ifftshift(enmap.fftshift(m))), ref, "undone by ifftshift"); ctx.eq(np.asarray(m), ref, "input unchanged")

def unit_map(ctx, items):
	for name, shape, oshape in items:
		w0 = alphabet()[name][1]; key = wcs_key(w0)
		for dt, pre in ((np.float64,()),(np.float64,(2,)),(np.complex128,()),(np.float32,(1,))):
			t = 1e-3 if dt == np.float32 else 1e-8
			a0 = data(pre+shape, dt)
			for corner, off in itertools.product((True,False), ((0,0),(1,0),(0.5,-0.25))):
				with ctx.case("enmap.resample", geo=name, shape=shape, oshape=oshape, dtype=np.dtype(dt).name, pre=pre, corner=corner, off=off):
					m = enmap.ndmap(a0.copy(), w0)
					got = enmap.resample(m, oshape, off=off, corner=corner)
					x = []
					for n, k, o in zip(shape,oshape,off):
						i = np.arange(k)-o
						x.append((i+0.5)*n/k-0.5 if corner else i*n/k)
					w = apply(interp_mat(shape[0],oshape[0],x[0]),a0.astype(complex),-2); w = apply(interp_mat(shape[1],oshape[1],x[1]),w,-1)
					ctx.close(np.asarray(got), fin(w,a0), rtol=t, atol=t, msg="values")
					if off == (0,0):
						# Each value stays at its place in the sky
						J, I = pixgrid(oshape)
						y = (J+0.5)*shape[0]/oshape[0]-0.5 if corner else J*shape[0]/oshape[0]
						X = (I+0.5)*shape[1]/oshape[1]-0.5 if corner else I*shape[1]/oshape[1]
						a, b = ref_pix2sky(w0,[y,X]), ref_pix2sky(got.wcs,[J,I])
						ctx.check(np.all(same_sky(a,b,1e-8)|~np.all(np.isfinite(a),0)), "coordinates", a)
					ctx.eq(np.asarray(m), a0, "input unchanged"); ctx.eq(wcs_key(m.wcs), key, "input coordinates unchanged")
				if off != (0,0): continue
				with ctx.case("enmap.resample_fft", geo=name, shape=shape, oshape=oshape, dtype=np.dtype(dt).name, pre=pre, corner=corner):
					m = enmap.ndmap(a0.copy(), w0); full = enmap.resample(m+0j, oshape, corner=corner)
					for nrm, ffn in (("plain",False),("pix",True))+((("phys","phys"),) if corner else ()):
						fo = enmap.resample_fft(enmap.fft(m,normalize=ffn), oshape, corner=corner, norm=nrm)
						ctx.close(np.asarray(enmap.ifft(fo,normalize=ffn))/(np.prod(oshape) if nrm == "plain" else 1), np.asarray(full), rtol=t, atol=t*np.abs(full).max(), msg="norm=%s" % nrm)
					gs, gw = enmap.resample_fft(enmap.fft(m), oshape, corner=corner, dummy=True)
					ctx.eq(tuple(gs), pre+oshape, "shape only"); ctx.close(gw.wcs.crpix, full.wcs.wcs.crpix, msg="geometry only"); ctx.close(gw.wcs.cdelt, full.wcs.wcs.cdelt, msg="geometry only")

def units(tier):
	q = tier == "quick"
	N, M = (10,12) if q else (16,20)
	out  = chunked("resample", list(itertools.product(range(1,N+1),range(1,M+1))), unit_resample, 8)
	L = (1,2,3,4,5) if q else (1,2,3,4,5,6,7,8)
	out += chunked("resample2", [((a,b),(c,d)) for a,b,c,d in itertools.product(L,(2,3,4) if q else L,L,(2,3,4,5) if q else L)], unit_resample2, 8)
	out += chunked("shift", list(itertools.product(range(1,N+1),SHIFTS)), unit_shift, 8)
	out += chunked("shift2", list(itertools.product([(1,1),(2,3),(4,4),(5,4),(2,3,5)], itertools.product(SHIFTS[::2] if q else SHIFTS, SHIFTS))), unit_shift2, 8)
	out += chunked("map", [(nm,s,o) for nm in (("car","car_off","tan") if q else ("car","car_off","car_down","car_full","cea","tan","arc")) for s in ((3,4),(4,4),(5,6),(6,7),(1,3)) for o in ((3,4),(4,4),(5,5),(8,9),(2,3),(6,14),(1,1))], unit_map, 8)
	return out
