"""C18: interpolation, its derivative and its transpose; reading and projecting maps."""
import numpy as np, itertools
from scipy.interpolate import BSpline
from pixell import enmap, interpol, utils, resample
from .. import geo as G
from ..core import chunked

RULE   = "every array shape x kernel x order x border x precision within the bounds, at every position of a lattice inside, on and outside the array; every unit impulse (so linear operations are covered completely); oracle: dense evaluation of the kernels, finite differences and explicit transposed matrices"
BOUNDS = "1d arrays of 1..9, 40 elements, 2d up to 5x4, 3d 3x2x4; leading axes (),(2,),(2,3); kernels conv 0,1,3, spline 0..5, lanczos 1..3; borders zero/nearest/cyclic/mirror/reflect; positions in steps of 1/4 from -2n to 3n; maps from the geometry alphabet"
ASSUME = ["spline prefilters for the zero and nearest borders treat the data, not the coefficients, as extended, so samples are reproduced exactly only away from the borders", "nearest-neighbour ties and derivatives at the kinks of linear interpolation are not compared", "scipy spline interpolation of order 4 and 5 with the nearest border is not exact at the borders", "fourier-mode projection assumes periodic bands and is not compared"]

def bspl(order):
	b = BSpline.basis_element(np.arange(order+2)-(order+1)/2, extrapolate=False)
	db = b.derivative() if order > 0 else None
	return (lambda x: np.nan_to_num(b(x))), (lambda x: np.nan_to_num(db(x)))
def kernel(mode, order):
	"""kernel, its derivative, support radius"""
	if mode == "spline":
		f, g = bspl(order); return f, g, (order+1)/2
	if mode == "conv":
		if order == 1: return (lambda x: np.maximum(0,1-np.abs(x))), (lambda x: -np.sign(x)*(np.abs(x)<1)), 1
		def f(x):
			a = np.abs(x); return np.where(a<1,1.5*a**3-2.5*a**2+1,np.where(a<2,-0.5*a**3+2.5*a**2-4*a+2,0))
		def g(x):
			a = np.abs(x); return np.sign(x)*np.where(a<1,4.5*a**2-5*a,np.where(a<2,-1.5*a**2+5*a-4,0))
		return f, g, 2
	if mode == "lanczos":
		f = lambda x: np.where(np.abs(x)<order,np.sinc(x)*np.sinc(x/order),0)
		def ds(x):
			x = np.asarray(x,float); s = np.where(np.abs(x)<1e-3,1,x)
			return np.where(np.abs(x)<1e-3, -np.pi**2*x/3, np.cos(np.pi*x)/s-np.sin(np.pi*x)/(np.pi*s*s))
		g = lambda x: np.where(np.abs(x)<order,ds(x)*np.sinc(x/order)+np.sinc(x)*ds(x/order)/order,0)
		return f, g, order
def bmap(i, n, border):
	if 0 <= i < n: return i
	if border == "zero": return None
	if border == "nearest": return min(max(i,0),n-1)
	if border == "cyclic": return i % n
	p = max(1,2*n-2); v = i % p
	return v if v < n else p-v
def matrix(pts, n, mode, order, border, deriv=False):
	"""[npoint,n] dense weights along one axis (for coefficients)"""
	A = np.zeros((len(pts),n))
	for pi, p in enumerate(pts):
		if order == 0:
			j = bmap(int(np.floor(p+0.5)), n, border)
			if j is not None and not deriv: A[pi,j] += 1
			continue
		f, g, r = kernel(mode, order)
		for i in range(int(np.floor(p-r))-1, int(np.ceil(p+r))+2):
			j = bmap(i, n, border)
			if j is not None: A[pi,j] += (g if deriv else f)(np.array(p-i))
	return A
KERN = [("conv",0),("conv",1),("conv",3)]+[("spline",o) for o in range(6)]+[("lanczos",o) for o in (1,2,3)]
BORDERS = ("zero","nearest","cyclic","mirror","reflect")
def ptlist(n, mode, order):
	p = np.arange(-4*n-4, 12*n+5)/4.0
	if n > 10: p = np.concatenate([np.arange(-30,31),np.arange(4*n-30,4*n+31),np.arange(2*n,2*n+9)])/4.0
	p = p+0.013
	if order > 0: p = np.concatenate([p, np.arange(-n,2*n+1)])
	return p
def dtol(dt): return 1e-11 if dt == np.float64 else 3e-5

def unit_1d(ctx, items):
	for n, mode, order, border, dt in items:
		pts = ptlist(n, mode, order).astype(dt); tol = dtol(dt)*(30 if order > 3 else 1)
		A  = matrix(pts.astype(float), n, mode, order, border)
		E  = np.eye(n, dtype=dt)
		with ctx.case("map_coordinates", n=n, mode=mode, order=order, border=border, dtype=np.dtype(dt).name):
			got = interpol.map_coordinates(E, pts[None], mode=mode, order=order, border=border, prefilter=False)
			ctx.check(got.shape == (n,len(pts)) and got.dtype == dt, "shape and type")
			ctx.close(got, A.T, 0, tol, "kernel weights")
			full = interpol.map_coordinates(E, pts[None], mode=mode, order=order, border=border)
			P = np.eye(n)
			if mode == "spline" and order > 1:
				P = interpol.spline_filter(E, order=order, border=border, ndim=1)
				if border in ("cyclic","mirror","reflect"):
					S = matrix(np.arange(n,dtype=float), n, mode, order, border)
					ctx.close(S.dot(P.T.astype(float)), np.eye(n), 0, tol*10, "the filtered array reproduces the samples")
				elif n >= 40:
					S = matrix(np.arange(n,dtype=float), n, mode, order, border); R = S.dot(P.T.astype(float))
					ctx.close(R[n//2-1:n//2+2], np.eye(n)[n//2-1:n//2+2], 0, max(tol*10,1e-6), "samples far from the borders")
			ctx.close(full, P.astype(float).dot(A.T), 0, tol*10, "with filtering")
			# data is not touched, buffers are used, leading axes broadcast
			rng = np.cos(np.arange(6*n)).reshape(2,3,n).astype(dt); keep = rng.copy()
			o = np.full((2,3,len(pts)), 99, dt); r = interpol.map_coordinates(rng, pts[None], odata=o, mode=mode, order=order, border=border)
			ctx.check(r is o, "buffer returned"); ctx.close(o, np.einsum("abn,np->abp",rng,full), 0, tol*10, "leading axes"); ctx.eq(rng, keep, "input untouched")
			r = interpol.map_coordinates(rng[0,0], pts.reshape(1,1,-1), mode=mode, order=order, border=border); ctx.check(r.shape == (1,len(pts)), "shape of points")
			# transpose
			for pre in (True, False):
				F = full if pre else got
				I = np.full((len(pts),n), 77, dt)
				interpol.map_coordinates(I, pts[None], odata=np.eye(len(pts),dtype=dt), mode=mode, order=order, border=border, trans=True, prefilter=pre)
				ctx.close(I, F.T, 0, tol*10, "transpose prefilter=%s" % pre)
		if order == 0: continue
		with ctx.case("derivative", n=n, mode=mode, order=order, border=border, dtype=np.dtype(dt).name):
			D = matrix(pts.astype(float), n, mode, order, border, True)
			use = np.ones(len(pts),bool)
			if order == 1 and mode != "lanczos": use = np.abs(pts-np.round(pts)) > 1e-3
			if mode == "lanczos": use = np.abs(pts-np.round(pts)) > 1e-3    # kink at the edge of the support
			got = interpol.map_coordinates(E, pts[None], mode=mode, order=order, border=border, prefilter=False, deriv=True)
			ctx.check(got.shape == (1,n,len(pts)), "shape"); ctx.close(got[0][:,use], D.T[:,use], 0, tol*10, "derivative weights")
			I = np.full((len(pts),n), 77, dt)
			interpol.map_coordinates(I, pts[None], odata=np.ascontiguousarray(np.eye(len(pts),dtype=dt)[None]), mode=mode, order=order, border=border, prefilter=False, trans=True, deriv=True)
			ctx.close(I.T[:,use], D.T[:,use], 0, tol*10, "transposed derivative")
			if mode == "spline":
				full = interpol.map_coordinates(E, pts[None], mode=mode, order=order, border=border, deriv=True)[0]
				P = interpol.spline_filter(E, order=order, border=border, ndim=1)
				ctx.close(full[:,use], P.astype(float).dot(D.T)[:,use], 0, tol*30, "with filtering")
				interpol.map_coordinates(I, pts[None], odata=np.ascontiguousarray(np.eye(len(pts),dtype=dt)[None]), mode=mode, order=order, border=border, trans=True, deriv=True)
				ctx.close(I.T[:,use], full[:,use], 0, tol*30, "transposed, with filtering")

def unit_nd(ctx, items):
	"""separability: the n-dimensional operator is the product of the one-dimensional ones"""
	for dims, mode, order, border, npre in items:
		with ctx.case("many dimensions", dims=dims, mode=mode, order=order, border=border, pre=npre):
			nd = len(dims); pre = (2,3)[:npre]
			ax = [np.concatenate([np.arange(-2,n+2)+0.3,[-0.6,1.0,0.0]]) for n in dims]
			if order == 0: ax = [a+0.01 for a in ax]
			k = 12 if nd == 3 else 25
			idx = [(7*np.arange(k)+3*i)%len(a) for i,a in enumerate(ax)]
			pts = np.array([a[i] for a,i in zip(ax,idx)])
			data = np.cos(np.arange(int(np.prod(pre+dims)))*1.7).reshape(pre+dims)
			def op(derivs):
				r = np.ones((k,)+(1,)*nd)
				M = []
				for i in range(nd):
					A = matrix(pts[i], dims[i], mode, order, border, derivs[i])
					if mode == "spline" and order > 1: A = A.dot(interpol.spline_filter(np.eye(dims[i]), order=order, border=border, ndim=1).T)
					M.append(A)
				return np.einsum("ka,kb->kab",*M) if nd == 2 else np.einsum("ka,kb,kc->kabc",*M)
			lets = "abc"[:nd]
			O = op([False]*nd)
			want = np.einsum("k%s,...%s->...k" % (lets,lets), O, data)
			got = interpol.map_coordinates(data, pts, mode=mode, order=order, border=border)
			ctx.close(got, want, 1e-10, 1e-10, "values")
			src = np.sin(np.arange(int(np.prod(pre+(k,))))*0.9).reshape(pre+(k,)); I = np.zeros(pre+dims)+5
			interpol.map_coordinates(I, pts, odata=src, mode=mode, order=order, border=border, trans=True)
			ctx.close(I, np.einsum("k%s,...k->...%s" % (lets,lets), O, src), 1e-10, 1e-10, "transpose")
			if order > 1 and mode != "lanczos":
				got = interpol.map_coordinates(data, pts, mode=mode, order=order, border=border, deriv=True)
				ctx.check(got.shape == (nd,)+pre+(k,), "derivative shape")
				Os = [op([i==j for j in range(nd)]) for i in range(nd)]
				for i in range(nd): ctx.close(got[i], np.einsum("k%s,...%s->...k" % (lets,lets), Os[i], data), 1e-9, 1e-9, "derivative along %d" % i)
				src = np.sin(np.arange(int(np.prod((nd,)+pre+(k,))))*0.9).reshape((nd,)+pre+(k,)); I = np.zeros(pre+dims)+5
				interpol.map_coordinates(I, pts, odata=src, mode=mode, order=order, border=border, trans=True, deriv=True)
				ctx.close(I, sum(np.einsum("k%s,...k->...%s" % (lets,lets), Os[i], src[i]) for i in range(nd)), 1e-9, 1e-9, "transposed derivative")

UB = {"nearest":"nearest","wrap":"cyclic","mirror":"mirror","constant":"zero"}
def refinterp(arr, inds, order, border, cval):
	"""orders 0 and 1, trailing len(inds) axes"""
	nd = len(inds); dims = arr.shape[-nd:]; pts = inds.reshape(nd,-1)
	out = np.zeros(arr.shape[:-nd]+(pts.shape[1],))
	for k in range(pts.shape[1]):
		p = pts[:,k]
		if border == "constant" and any(p[i] < -1e-9 or p[i] > dims[i]-1+1e-9 for i in range(nd)) :
			out[...,k] = cval; continue
		acc = 0
		for c in itertools.product(*[[(int(np.floor(x+0.5)),1.0)] if order == 0 else [(int(np.floor(x)),1-(x-np.floor(x))),(int(np.floor(x))+1,x-np.floor(x))] for x in p]):
			w = np.prod([b for a,b in c])
			if w == 0: continue
			ii = [bmap(a, dims[i], UB[border]) for i,(a,b) in enumerate(c)]
			acc = acc + w*(cval if any(j is None for j in ii) else arr[(Ellipsis,)+tuple(ii)])
		out[...,k] = acc
	return out.reshape(arr.shape[:-nd]+inds.shape[1:])

def unit_utils(ctx, items):
	for dims, npre, order, border in items:
		nd = len(dims); pre = (2,3)[:npre]
		data = np.cos(np.arange(int(np.prod(pre+dims)))*1.7).reshape(pre+dims)+0.3
		keep = data.copy()
		grid = np.array(np.meshgrid(*[np.arange(n,dtype=float) for n in dims], indexing="ij"))
		with ctx.case("utils.interpol", dims=dims, pre=pre, order=order, border=border):
			if not (order > 3 and border == "nearest"):
				ctx.close(utils.interpol(data, grid, order=order, border=border), data, 1e-9, 1e-9, "samples")
			far = [np.concatenate([np.arange(n)+0.21,[-0.3,-1.4,n-0.7,n+0.8]]) for n in dims]
			pts = np.array(np.meshgrid(*far, indexing="ij"))
			got = utils.interpol(data, pts, order=order, border=border, cval=7.5)
			ctx.check(got.shape == pre+pts.shape[1:], "shape")
			if order <= 1: ctx.close(got, refinterp(data, pts, order, border, 7.5), 1e-9, 1e-9, "values")
			if border == "wrap":
				for i in range(nd):
					sh = pts.copy(); sh[i] += dims[i]; ctx.close(utils.interpol(data, sh, order=order, border=border), got, 1e-9, 1e-9, "periodic along %d" % i)
			if border == "mirror":
				for i in range(nd):
					sh = pts.copy(); sh[i] = 2*(dims[i]-1)-sh[i]; ctx.close(utils.interpol(data, sh, order=order, border=border), got, 1e-9, 1e-9, "mirrored along %d" % i)
			if border == "constant":
				o = np.any([(p < -1)|(p > n) for p,n in zip(pts,dims)],0); ctx.check(np.all(got[...,o] == 7.5), "constant outside")
			if order == 0: names = ("nn","nearest")
			elif order == 1: names = ("lin","linear")
			elif order == 3: names = ("cub","cubic")
			else: names = ()
			for nm in names: ctx.eq(utils.interpol(data, pts, mode=nm, border=border, cval=7.5), got, "mode name %s" % nm)
			ip = utils.interpolator(data, npre, order=order, border=border, cval=7.5)
			ctx.eq(ip(pts), got, "interpolator object"); ctx.eq(utils.interpol(data, pts, ip=ip), got, "given interpolator")
			buf = np.zeros(got.shape); r = utils.interpol(data, pts, out=buf, order=order, border=border, cval=7.5); ctx.eq(buf, got, "out")
			ctx.eq(data, keep, "input untouched")
			# linearity and separability through impulses
			two = utils.interpol(data*2, pts, order=order, border=border, cval=15.0); ctx.close(two, got*2, 1e-9, 1e-9, "linear")
	for n in (4,5,8,9):
		for nd in (1,2):
			with ctx.case("fourier interpolation", n=n, nd=nd):
				dims = (n,)*nd if nd == 1 else (n,n+1)
				data = np.cos(np.arange(2*int(np.prod(dims)))*1.7).reshape((2,)+dims)
				grid = np.array(np.meshgrid(*[np.arange(k,dtype=float) for k in dims], indexing="ij"))
				ctx.close(utils.interpol(data, grid, mode="fourier", epsilon=1e-10), data, 1e-8, 1e-8, "samples")
				# band-limited functions are exact
				ks = [1]*nd; f = lambda p: 2+np.cos(2*np.pi*sum(k*x/m for k,x,m in zip(ks,p,dims)))
				pts = grid+0.37
				ctx.close(utils.interpol(f(grid)[None].repeat(2,0), pts, mode="fourier", epsilon=1e-10), f(pts)[None].repeat(2,0), 1e-8, 1e-8, "band-limited")
				want = utils.interpol(data, pts, mode="fourier", epsilon=1e-10); keep = data.copy()
				for nm in ("fft","nufft"): ctx.close(utils.interpol(data, pts, mode=nm, epsilon=1e-10), want, 1e-8, 1e-8, "mode name %s" % nm)
				for pc in ("plan","fft","none"):
					for d, w in ((data,want),)+(((data+1j*data[::-1],want+1j*want[::-1]),) if all(x % 2 for x in dims) else ()):  # the Nyquist mode is split differently for complex data
						ip = utils.FourierInterpolator(d, 1, epsilon=1e-10, precompute=pc)
						ctx.close(ip(pts), w, 1e-8, 1e-8, "precompute %s" % pc); ctx.close(utils.interpol(d, pts, ip=ip), w, 1e-8, 1e-8, "given interpolator")
						ctx.close(ip(pts[:,::-1]), w[:,::-1], 1e-8, 1e-8, "used again")
						buf = np.zeros(w.shape, w.dtype); r = ip(pts, out=buf); ctx.close(buf, w, 1e-8, 1e-8, "out"); ctx.close(r, w, 1e-8, 1e-8, "returns out")
				ctx.raises(lambda: utils.FourierInterpolator(data, 1, precompute="foo"), ValueError, "unknown precompute"); ctx.raises(lambda: utils.interpol(data, pts, mode="foo"), ValueError, "unknown mode")
				ctx.eq(data, keep, "input untouched")

def unit_poly(ctx, items):
	"""polynomials up to the order, in the interior of a long array"""
	for order, border in items:
		with ctx.case("polynomials", order=order, border=border):
			n = 60; x = np.arange(n,dtype=float); p = np.linspace(28,32,33)
			for k in range(order+1):
				d = ((x-30)/10)**k; w = ((p-30)/10)**k
				ctx.close(utils.interpol(d, p[None], order=order, border=border), w, 0, 1e-6 if order > 3 else 1e-9, "utils degree %d" % k)
				b = {"nearest":"nearest","wrap":"cyclic","mirror":"mirror","constant":"zero"}[border]
				ctx.close(interpol.map_coordinates(d, p[None], order=order, border=b), w, 0, 1e-5 if order > 3 else 1e-8, "interpol degree %d" % k)

def unit_maps(ctx, items):
	for name, npre in items:
		shape, wcs = G.alphabet()[name]; pre = (2,3)[:npre]
		m = enmap.enmap(np.cos(np.arange(int(np.prod(pre+shape)))*1.3).reshape(pre+shape)+2, wcs); keep = np.array(m)
		pix = G.pixgrid(shape); pos = G.ref_pix2sky(wcs, pix)
		ok = np.all(np.isfinite(pos),0)
		for order in (0,1,3):
			for border in ("constant","nearest","wrap","mirror"):
				with ctx.case("at", geometry=name, pre=pre, order=order, border=border):
					for unit in ("coord","pix"):
						got = np.asarray(enmap.at(m, pos if unit == "coord" else pix, order=order, border=border, unit=unit, cval=3))
						use = ok & ~(np.abs(np.abs(pos[0])-np.pi/2) < 1e-9) if unit == "coord" else ok    # the longitude of a pole is arbitrary
						use = use & np.all((pix > 0)&(pix.T < np.array(shape)-1).T,0) if unit == "coord" else use  # rounding may push edge pixels outside
						ctx.close(got[...,use], np.asarray(m)[...,use], 1e-7, 1e-7, "samples, unit %s" % unit)
						q = np.array([[0.3,1.6,-1.7,shape[0]+0.9,1.2],[1.4,0.7,1.1,2.2,shape[1]+1.3]])
						got = np.asarray(enmap.at(m, q, order=order, border=border, unit="pix", cval=3)); want = utils.interpol(np.asarray(m), q, order=order, border=border, cval=3)
						ctx.close(got, want, 1e-9, 1e-9, "like interpol"); ctx.close(np.asarray(m.at(q, order=order, border=border, unit="pix", cval=3)), want, 1e-9, 1e-9, "method")
						if order < 2: ctx.close(got, refinterp(np.asarray(m), q, order, border, 3), 1e-9, 1e-9, "values")
					sky = G.ref_pix2sky(wcs, np.array([[1.2,2.7],[1.3,3.6]]))
					if np.all(np.isfinite(sky)): ctx.close(np.asarray(m.at(sky, order=order, border=border)), np.asarray(m.at(np.array([[1.2,2.7],[1.3,3.6]]), unit="pix", order=order, border=border)), 1e-6, 1e-6, "sky positions")
					ctx.eq(np.asarray(m), keep, "map untouched")
		with ctx.case("project", geometry=name, pre=pre):
			ctx.eq(np.asarray(enmap.project(m, shape, wcs)), keep, "same geometry"); r = enmap.project(m, shape, wcs); r[:] = 0; ctx.eq(np.asarray(m), keep, "independent copy")
			for order in (0,1,3):
				r = enmap.project(m, shape, wcs, order=order, force=True, border="nearest")
				use = ok & ~(np.abs(np.abs(pos[0])-np.pi/2) < 1e-9)
				ctx.close(np.asarray(r)[...,use], keep[...,use], 1e-6, 1e-6, "forced, order %d" % order)
			for oshape in ((shape[0]-1,shape[1]),(shape[0]+2,shape[1]+1),(2,3)):
				r = enmap.project(m, oshape, wcs, cval=5); ctx.check(r.shape == pre+oshape, "same wcs, other shape %s: got %s" % (oshape, r.shape), oshape)
				h, w = min(oshape[0],shape[0]), min(oshape[1],shape[1])
				ctx.eq(np.asarray(r)[...,:h,:w], keep[...,:h,:w], "shared pixels")
			if name.startswith("car") and "full" not in name and "fej" not in name:
				w2 = wcs.deepcopy(); w2.wcs.crpix += [2,1]; oshape = (shape[0]+3,shape[1]+4)
				r = np.asarray(enmap.project(m, oshape, w2, cval=5)); want = np.full(pre+oshape, 5.0); want[...,1:1+shape[0],2:2+shape[1]] = keep
				ctx.close(r, want, 1e-9, 1e-9, "compatible")
				for order in (0,1,3):
					r = np.asarray(enmap.project(m, oshape, w2, cval=5, order=order, force=True))
					i = (Ellipsis,slice(2,shape[0]),slice(3,1+shape[1])); ctx.close(r[i], want[i], 1e-6, 1e-6, "shared centres, order %d" % order)
					out = np.ones(oshape,bool); out[0:2+shape[0],1:3+shape[1]] = False
					ctx.close(r[...,out], want[...,out], 1e-6, 1e-6, "outside, order %d" % order)
				# half-pixel grid, against bilinear
				w3 = wcs.deepcopy(); w3.wcs.crpix += [1.3,1.6]; oshape = (shape[0]+3,shape[1]+3)
				oq = G.pixgrid(oshape)-np.array([1.6,1.3])[:,None,None]
				for border in ("nearest","constant","mirror"):
					for bs in (1000,2,1):
						r = np.asarray(enmap.project(m, oshape, w3, order=1, border=border, cval=4, bsize=bs)); want = refinterp(keep, oq, 1, border, 4)
						inn = np.all((oq > 0)&(oq.T < np.array(shape).T-1).T,0)
						ctx.close(r[...,inn], want[...,inn], 1e-6, 1e-6, "bilinear inside, border %s bsize %d" % (border,bs))
						if border == "constant": inn = np.any((oq < -1)|(oq.T > np.array(shape).T).T,0)
						else: inn = ~inn
						ctx.close(r[...,inn], want[...,inn], 1e-6, 1e-6, "bilinear outside, border %s bsize %d" % (border,bs))
						for mo, od in (("nearest",0),("linear",1),("nn",0),("lin",1),("spline",0)):
							r = np.asarray(enmap.project(m, oshape, w3, mode=mo, order=od if mo == "spline" else 3, border=border, cval=4, bsize=bs)); want = refinterp(keep, oq, od, border, 4)
							ctx.close(r[...,np.all((oq > 0)&(oq.T < np.array(shape).T-1).T,0)], want[...,np.all((oq > 0)&(oq.T < np.array(shape).T-1).T,0)], 1e-6, 1e-6, "mode %s inside" % mo)
							ctx.close(r[...,inn], want[...,inn], 1e-6, 1e-6, "mode %s outside" % mo)
					big = enmap.project(m, oshape, w3, order=3, border=border, cval=4); inn = np.all((oq > 0)&(oq.T < np.array(shape).T-1).T,0)
					for mo in ("cubic","cub"): ctx.close(np.asarray(enmap.project(m, oshape, w3, mode=mo, border=border, cval=4)), np.asarray(big), 1e-9, 1e-9, "mode %s" % mo)
					for safe in (True,False): ctx.close(np.asarray(enmap.project(m, oshape, w3, order=3, border=border, cval=4, safe=safe)), np.asarray(big), 1e-9, 1e-9, "safe=%s" % safe)
					for bs, con in ((2,50),(1,50),(3,12),(1000,12)): ctx.close(np.asarray(enmap.project(m, oshape, w3, order=3, border=border, cval=4, bsize=bs, context=con))[...,inn], np.asarray(big)[...,inn], 0, 0.01 if con == 50 else 0.1, "cubic in blocks of %d rows with %d rows of context" % (bs,con))
					if border != "constant":
						ip = utils.interpolator(m, len(pre), order=3, border=border, cval=4)
						for bs in (1000,2): ctx.close(np.asarray(enmap.project(m, oshape, w3, ip=ip, bsize=bs)), np.asarray(big), 1e-9, 1e-9, "given interpolator")
						ctx.close(np.asarray(m.at(enmap.posmap(oshape, w3), ip=ip)), np.asarray(big), 1e-9, 1e-9, "at with a given interpolator")
				fp = utils.FourierInterpolator(np.array(m), len(pre), epsilon=1e-10); fu = utils.FourierInterpolator(np.array(m), len(pre), epsilon=1e-10, precompute="none")
				for ip in (fp, fu):
					for bs in (1000,2): ctx.close(np.asarray(enmap.project(m, oshape, w3, ip=ip, bsize=bs)), np.asarray(fp(oq)), 1e-6, 1e-6, "given Fourier interpolator")
				w4 = wcs.deepcopy(); w4.wcs.cdelt = wcs.wcs.cdelt/2; w4.wcs.crpix = wcs.wcs.crpix*2-1; oshape = (2*shape[0]-1,2*shape[1]-1)
				for order in (1,3): ctx.close(np.asarray(enmap.project(m, oshape, w4, order=order, border="nearest"))[...,::2,::2], keep, 1e-6, 1e-6, "every second pixel, order %d" % order)
				ctx.eq(np.asarray(m), keep, "map untouched")

def unit_misc(ctx, items):
	for kind, k in items:
		if kind == "equi":
			for n in (4,7,12):
				with ctx.case("make_equispaced", n=n, k=k):
					t = np.arange(n)*0.5+3; t[n//2] += 0.1*k
					if k == 2: t = t[::1]
					d = np.array([2*t+1, 5-t]); o, tt = resample.make_equispaced(d, t, order=1)
					ctx.check(o.shape == (2,len(tt)), "shape"); ctx.close(tt[[0,-1]], t[[0,-1]], 1e-12, 0, "ends"); ctx.close(np.diff(tt), np.full(len(tt)-1,tt[1]-tt[0]), 1e-9, 0, "equispaced")
					ctx.close(o, np.array([2*tt+1,5-tt]), 1e-9, 1e-9, "linear data")
					if k == 0:
						o, tt = resample.make_equispaced(np.cos(d), t); ctx.close(tt, t, 1e-9, 1e-9, "already equispaced"); ctx.close(o, np.cos(d), 1e-9, 1e-9, "already equispaced")
		elif kind == "build":
			for cls in (interpol.ip_linear, interpol.ip_grad, interpol.ip_ndimage):
				for nin in (1,2):
					for nout in (1,2,4):
						with ctx.case("build", cls=cls.__name__, nin=nin, nout=nout, k=k):
							box = np.array([[0.5,-1.0],[2.0,3.0]])[:,:nin]
							f = lambda x: np.array([0.1*(i+1)*x[0]**2+(0 if nin == 1 else 0.3*i*x[1]-0.05*x[1]**2) for i in range(nout)]) if k else np.array([(i+1)*x[0]+(0 if nin == 1 else 0.3*i*x[1]) for i in range(nout)])
							kw = {"order":1} if cls is interpol.ip_ndimage else {}
							lim = [0.01]*nout
							ip, obox = interpol.build(f, cls, box, lim, return_obox=True, **kw)
							x = utils.grid(box, [23,17][:nin]); got = ip(x)
							ctx.check(got.shape == (nout,)+x.shape[1:], "shape")
							ctx.close(got, f(x), 0, (1e-9 if k == 0 else 0.04), "accuracy")
							v = f(x).reshape(nout,-1); ctx.close(obox[0], v.min(1), 0, 1e-9 if k == 0 else 0.05, "smallest output"); ctx.close(obox[1], v.max(1), 0, 1e-9 if k == 0 else 0.05, "largest output")
		elif kind == "linear":
			for dims in ((3,),(4,3),(2,3,4)):
				for npre in (1,2):
					with ctx.case("ip_linear", dims=dims, npre=npre):
						nd = len(dims); y = np.cos(np.arange(int(np.prod((2,3)[:npre]+dims)))*1.1).reshape((2,3)[:npre]+dims)
						box = np.array([[0.5,-1,2],[2.0,3,7]],float)[:,:nd]
						g = utils.grid(box, dims)
						ip = interpol.ip_linear(box, y); ctx.close(ip(g), y, 1e-9, 1e-9, "samples")
						px = np.array([(np.arange(9)*0.37+0.11*i)%(n-1) for i,n in enumerate(dims)])
						x = box[0][:,None]+px*((box[1]-box[0])/(np.array(dims)-1))[:,None]
						ctx.close(ip(x), refinterp(y, px, 1, "nearest", 0), 1e-9, 1e-9, "multilinear")
						ctx.close(interpol.ip_ndimage(box, y, order=1)(x), refinterp(y, px, 1, "nearest", 0), 1e-9, 1e-9, "ip_ndimage") if npre == 1 else None
						gr = interpol.ip_grad(box, y); i0 = np.minimum(np.floor(px).astype(int), np.array(dims)[:,None]-2); f = px-i0
						want = y[(Ellipsis,)+tuple(i0)].copy()
						for a in range(nd):
							i1 = i0.copy(); i1[a] += 1; want += (y[(Ellipsis,)+tuple(i1)]-y[(Ellipsis,)+tuple(i0)])*f[a]
						ctx.close(gr(x), want, 1e-9, 1e-9, "ip_grad")
		elif kind == "interp":
			with ctx.case("utils.interp", k=k):
				xp = np.array([0.,1,2.5,4]); fp = np.cos(np.arange(24.)).reshape(2,3,4); x = np.array([[-1,0,0.3],[2.4,4,9]])
				for kw in ({},{"left":7,"right":8},{"period":5.0}):
					got = utils.interp(x, xp, fp, **kw); ctx.check(got.shape == (2,3,2,3), "shape")
					for i in range(2):
						for j in range(3): ctx.close(got[i,j], np.interp(x,xp,fp[i,j],**kw), 1e-12, 1e-12, "values")

def units(tier):
	q = tier == "quick"
	ns = (1,2,3,4,5,8,40) if q else (1,2,3,4,5,6,7,8,9,20,40)
	u = []
	u += chunked("1d", [(n,m,o,b,dt) for n in ns for m,o in KERN for b in BORDERS for dt in (np.float64,np.float32)], unit_1d, 40)
	u += chunked("nd", [(d,m,o,b,p) for d in (((5,4),(1,3),(3,2,4)) if q else ((5,4),(1,3),(2,1),(6,5),(3,2,4),(2,2,2))) for m,o in KERN for b in BORDERS for p in ((0,1,2) if len(d) == 2 else (1,))], unit_nd, 40)
	u += chunked("utils", [(d,p,o,b) for d in ((1,),(2,),(5,),(4,3),(2,3,4)) for p in (0,1,2) for o in range(6) for b in UB], unit_utils, 40)
	u += chunked("poly", [(o,b) for o in range(6) for b in UB], unit_poly, 24)
	u += chunked("maps", [(n,p) for n in G.alphabet() for p in (0,1,2)], unit_maps, 4)
	u += chunked("misc", [("equi",k) for k in range(3)]+[("build",k) for k in range(2)]+[("linear",0),("interp",0)], unit_misc, 3)
	return u
