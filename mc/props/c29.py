"""C29: masks, apodisation, blank edges, bad values."""
import numpy as np, itertools
from pixell import enmap, utils, fft
from ..core import chunked
from .. import geo as G

RULE   = "every map shape x width pair x profile x fill for edge apodisation, against the taper written out as a function of the distance to each edge; every mask of a small map x width x edge treatment for mask apodisation, against brute-force great-circle distances; every pattern of blank rows, columns and interior holes x component count x blank value for edge detection and cropping; every pattern of bad values and every mask for replacement and inpainting, against nearest neighbours found by exhaustive search"
BOUNDS = "maps up to 6x7 pixels; all 512 masks of 3x3 pixels (plus fixed larger masks), widths 0..6 pixels; blank borders of 0-3 rows and columns on each side, 1-2 components, blank value 0, 1.5, nan; all masks of 2x4 and 3x3 pixels for inpainting"
ASSUME = ["the taper is compared exactly with the distance transform, which has its own property, and with brute-force distances to the accuracy of the default distance method, two thirds of a pixel", "maps are not entirely blank", "the cross-fading fill is only required to leave the interior alone and to mix the two edges with weights adding up to one", "interpolating inpainting methods other than nearest are only required to change nothing but the masked pixels"]
deg = np.pi/180
def same_geo(ctx, r, m): ctx.check(isinstance(r,enmap.ndmap) and r.shape[-2:] == m.shape[-2:] and r.wcs.wcs.compare(m.wcs.wcs), "geometry")
W0 = lambda: G.mkwcs("CAR",(10,0),(-1,1),(2,3))
def data(shape, dt=float): return enmap.enmap((((np.arange(np.prod(shape)).reshape(shape)*7)%19)*0.5-3).astype(dt), W0())

def unit_apod(ctx, items):
	for shape, width, profile, fill, dt in items:
		with ctx.case("edge apodisation", shape=shape, width=width, profile=profile, fill=fill, dtype=dt):
			m = data(shape,dt); k = m.copy(); wy, wx = (np.zeros(2,int)+width); ny, nx = shape[-2:]
			def taper(n, w):
				t = np.ones(n)
				for i in range(n):
					for d in (i,n-1-i):
						if d < w: x = (d+1)/(w+1); t[i] *= x if profile == "lin" else 0.5*(1-np.cos(np.pi*x))
				return t
			T = taper(ny,wy)[:,None]*taper(nx,wx); off = {"zero":lambda a: np.zeros(a.shape[:-2]+(1,1)),"mean":lambda a: np.mean(a,(-2,-1),keepdims=True),"median":lambda a: np.median(a,(-2,-1),keepdims=True)}[fill](np.asarray(m,float))
			want = (np.asarray(m,float)-off)*T+off; tol = 1e-12 if dt == "f8" else 1e-5
			for fun in (lambda: enmap.apod(m,width,profile=profile,fill=fill), lambda: m.apod(width,profile=profile,fill=fill)):
				r = fun(); ctx.eq(m,k,"input"); ctx.close(r, want, tol, tol*10, "apodised"); same_geo(ctx,r,m); ctx.check(r.dtype == m.dtype, "precision")
			c = m.copy(); r = enmap.apod(c,width,profile=profile,fill=fill,inplace=True); ctx.close(c, want, tol, tol*10, "in place"); ctx.check(np.shares_memory(r,c), "in place")
			one = enmap.ones(shape[-2:],m.wcs,float); a = np.asarray(enmap.apod(one,width,profile=profile)); ctx.check(np.all(a > 0) and np.all(a <= 1), "between 0 and 1"); ctx.close(a[wy:ny-wy,wx:nx-wx], np.ones((max(0,ny-2*wy),max(0,nx-2*wx))), 0, 0, "one in the interior")
			if 2*wy <= ny and 2*wx <= nx: ctx.check(np.all(np.diff(a[:ny//2],axis=0) >= -1e-12) and np.all(np.diff(a[:,:nx//2],axis=1) >= -1e-12) and np.all(np.diff(a[ny-ny//2:],axis=0) <= 1e-12), "monotonic")
		if fill == "zero" and dt == "f8" and 2*max(wy,0) <= ny and 2*max(wx,0) <= nx:
			with ctx.case("cross-fading", shape=shape, width=width, profile=profile):
				r = enmap.apod(m,width,profile=profile,fill="crossfade"); ctx.eq(m,k,"input"); ctx.eq(np.asarray(r)[...,wy:ny-wy,wx:nx-wx], np.asarray(m)[...,wy:ny-wy,wx:nx-wx], "interior"); o = enmap.ones(shape,m.wcs); ctx.close(enmap.apod(o,width,profile=profile,fill="crossfade"), np.ones(shape), 1e-12, 0, "weights add up"); ctx.check(np.all(np.asarray(r) <= np.max(m)+1e-12) and np.all(np.asarray(r) >= np.min(m)-1e-12), "mixture")
	with ctx.case("unknown profile"): ctx.raises(lambda: enmap.apod(data((4,4)),1,profile="foo"), ValueError, "unknown profile")
def brute(mask):
	pos = mask.posmap(); v = np.array(utils.ang2rect(np.array([pos[1],pos[0]]))); bad = v[:,~np.asarray(mask,bool)]; r = np.full(mask.shape,np.inf)
	if bad.shape[1]:
		for y in range(mask.shape[0]):
			for x in range(mask.shape[1]): d = bad-v[:,y,x][:,None]; r[y,x] = np.min(2*np.arcsin(np.minimum(1,np.sqrt(np.sum(d**2,0))/2)))
	return r
def unit_mask(ctx, items):
	for shape, bits, proj, dec, width in items:
		wcs = G.mkwcs("CAR",(10,0),(-1,1),(2,1-dec)) if proj == "CAR" else G.mkwcs("TAN",(10,dec),(-1,1),(2,2)); m = np.array([(bits>>i)&1 for i in range(shape[0]*shape[1])],bool).reshape(shape)
		for dt in (bool,np.int32,float):
			mask = enmap.enmap(m.astype(dt),wcs)
			for edge in (True,False):
				for prof, name in ((enmap.apod_profile_cos,"cos"),(enmap.apod_profile_lin,"lin"),(None,"default")):
					if dt != bool and name != "default": continue
					with ctx.case("mask apodisation", shape=shape, mask=m.astype(int).tolist(), proj=proj, dec=dec, width=width, edge=edge, profile=name, dtype=np.dtype(dt).name):
						k = mask.copy(); kw = {} if prof is None else {"profile":prof}; r = enmap.apod_mask(mask,width=width*deg,edge=edge,**kw); ctx.eq(mask,k,"input"); b = enmap.enmap(m.copy(),wcs)
						if edge: b[0] = b[-1] = False; b[:,0] = b[:,-1] = False
						x = np.minimum(1,brute(b)/(width*deg)); want = x if name == "lin" else 0.5*(1-np.cos(np.pi*x)); pf = (lambda x: x) if name == "lin" else (lambda x: 0.5*(1-np.cos(np.pi*x))); hi = pf(np.minimum(1,x+(0.65/width)*(x > 0)))
						ctx.check(np.all(np.asarray(r) >= want-1e-6) and np.all(np.asarray(r) <= hi+1e-6), "taper: got %s, expected %s" % (np.asarray(r).tolist(),want.tolist())); same_geo(ctx,r,mask); ctx.close(r, pf(np.asarray(b.distance_transform(rmax=width*deg))/(width*deg)), 1e-9, 1e-9, "function of the distance transform"); ctx.check(np.all(np.asarray(r)[~np.asarray(b)] == 0), "zero in bad regions")
						if edge and name == "default": ctx.close(enmap.apod_mask(mask,width=width*deg), r, 0, 0, "edge is the default")
def mkblank(inner, b, val, ncomp):
	"""Content of given shape surrounded by blank rows and columns"""
	(y1,y2),(x1,x2) = b; ny, nx = inner.shape[-2:]; full = np.zeros((ncomp,ny+y1+y2,nx+x1+x2)); full[:] = np.asarray(val).reshape(-1,1,1) if np.ndim(val) else val; full[:,y1:y1+ny,x1:x1+nx] = inner; return full
def unit_blank(ctx, items):
	for b, val, ncomp, hole, ish in items:
		with ctx.case("blank edges", blank=b, value=val, ncomp=ncomp, hole=hole, inner=ish):
			inner = (np.arange(ncomp*ish[0]*ish[1]).reshape((ncomp,)+tuple(ish))*3+7.0)
			if hole: inner[:,ish[0]//2,1:-1] = np.asarray(val).reshape(-1,1) if np.ndim(val) else val
			full = mkblank(inner,b,val,ncomp); m = enmap.enmap(full if ncomp > 1 else full[0], W0()); k = m.copy(); want = np.array(b).T
			def same(): return ctx.check(np.array_equal(np.asarray(m),np.asarray(k),equal_nan=True), "input")
			ctx.eq(enmap.find_blank_edges(m,value=val if not np.ndim(val) else np.array(val)), want, "explicit value"); same(); ctx.eq(enmap.find_blank_edges(m,value="none"), np.zeros((2,2),int), "none")
			ny, nx = m.shape[-2:]
			# auto: edges which are all one value have that value as their median
			lines = [full[:,:,0],full[:,:,-1],full[:,0],full[:,-1]]
			if sum(map(sum,b)) and not any(False for l in lines): ctx.eq(enmap.find_blank_edges(m), want, "automatic value"); same()
			for margin in (0,1,2):
				r, info = enmap.autocrop(m,value=val if not np.ndim(val) else np.array(val),margin=margin,return_info=True); same(); s = tuple(ish[i]+margin for i in range(2)); ctx.check(r.shape[-2:] == s, "size %s, expected %s" % (r.shape,s)); check_crop(ctx, r, m, b, ish, val if not np.ndim(val) else None); o = enmap.padcrop(m,info); ctx.check(np.array_equal(np.asarray(o),np.asarray(r),equal_nan=True) and o.wcs.wcs.compare(r.wcs.wcs), "padcrop repeats it")
				for factors in (None,[2],[3],[2,7]):
					r = enmap.autocrop(m,method="fft",value=val if not np.ndim(val) else np.array(val),margin=margin,factors=factors); fs = factors or [2,3,5,7,11,13]
					def good(n):
						for f in fs:
							while n%f == 0: n //= f
						return n == 1
					s = []
					for i in range(2):
						n = ish[i]+margin
						while not good(n): n += 1
						s.append(n)
					ctx.check(r.shape[-2:] == tuple(s), "transform friendly size %s, expected %s" % (r.shape,s)); check_crop(ctx, r, m, b, ish, None)
			r = enmap.autocrop(m,value="none"); ctx.check(np.array_equal(np.asarray(r),np.asarray(k),equal_nan=True), "nothing to crop")
	with ctx.case("unknown method"): ctx.raises(lambda: enmap.autocrop(data((4,4)),method="foo"), ValueError, "unknown method")
def check_crop(ctx, r, m, b, ish, val):
	"""The non-blank part is there, at the same place on the sky"""
	off = np.round(enmap.sky2pix(r.shape,r.wcs,enmap.pix2sky(m.shape,m.wcs,[b[0][0],b[1][0]]))).astype(int); ctx.check(np.all(off >= 0) and off[0]+ish[0] <= r.shape[-2] and off[1]+ish[1] <= r.shape[-1], "non-blank pixels were cut")
	a = np.asarray(r)[...,off[0]:off[0]+ish[0],off[1]:off[1]+ish[1]]; c = np.asarray(m)[...,b[0][0]:b[0][0]+ish[0],b[1][0]:b[1][0]+ish[1]]; ctx.check(np.array_equal(a,c,equal_nan=True), "content moved")
	ctx.close(enmap.sky2pix(r.shape,r.wcs,enmap.pix2sky(m.shape,m.wcs,[b[0][0],b[1][0]])), off, 0, 1e-8, "pixel grid kept")
BADS = (0.0,1.5,np.nan,np.inf,-np.inf)
def unit_bad(ctx, items):
	for vals, val, dt, cut in items:
		with ctx.case("fillbad", values=vals, val=val, dtype=dt, slice=cut):
			a = np.array(vals,dt).reshape(2,2)
			if cut: big = enmap.zeros((2,4),W0(),dt); big[:,::2] = a; m = big[:,::2]
			else: m = enmap.enmap(a.copy(),W0())
			ok = np.isfinite(a); want = np.where(ok,a,val).astype(dt); k = a.copy(); r = enmap.fillbad(m,val); ctx.check(np.array_equal(np.asarray(m),k,equal_nan=True), "input"); ctx.eq(np.asarray(r),want,"filled"); same_geo(ctx,r,m); ctx.check(r.dtype == m.dtype and not np.shares_memory(r,m), "copy")
			r = m.fillbad(val); ctx.check(r is not None, "the method returns the result"); ctx.eq(np.asarray(r),want,"method"); ctx.check(np.array_equal(np.asarray(m),k,equal_nan=True), "input of method")
			if val == 0: ctx.eq(np.asarray(enmap.fillbad(m)),want,"default value")
			c = m; r = enmap.fillbad(c,val,inplace=True); ctx.eq(np.asarray(c),want,"in place"); ctx.check(r is None or np.shares_memory(r,c), "in place")
			if cut: ctx.eq(np.asarray(big[:,1::2]), np.zeros((2,2)), "the rest of the array")
def unit_inpaint(ctx, items):
	for shape, bits, pre in items:
		m2 = np.array([(bits>>i)&1 for i in range(shape[0]*shape[1])],bool).reshape(shape)
		with ctx.case("inpaint", shape=shape, mask=m2.astype(int).tolist(), pre=pre):
			m = data(pre+shape); m[...,m2] = np.nan; k = m.copy(); mask = enmap.enmap(m2,m.wcs); r = enmap.inpaint(m,mask)
			ctx.check(np.array_equal(np.asarray(m),np.asarray(k),equal_nan=True), "input"); ctx.eq(np.asarray(mask),m2,"mask"); same_geo(ctx,r,m)
			if m2.all(): continue
			R, M = np.asarray(r), np.asarray(m); ctx.eq(R[...,~m2],M[...,~m2],"good pixels are kept"); gy, gx = np.where(~m2)
			for y, x in zip(*np.where(m2)):
				d = (gy-y)**2+(gx-x)**2; c = np.where(d == d.min())[0]
				# ties are broken alike in all components, but either neighbour is fine
				ctx.check(any(np.array_equal(R[...,y,x],M[...,gy[i],gx[i]]) for i in c) or all(any(R[I+(y,x)] == M[I+(gy[i],gx[i])] for i in c) for I in np.ndindex(*pre)), "pixel %d,%d is not filled by its nearest neighbour" % (y,x))
			if m2.any() and m2.sum() <= 2 and min(shape) > 2 and pre == ():
				r = enmap.inpaint(m,mask,method="linear") if not on_line(m2) else None
				if r is not None: ctx.eq(np.asarray(r)[~m2],M[~m2],"good pixels are kept")
def on_line(m2):
	from scipy import ndimage
	b = ndimage.distance_transform_edt(~m2) == 1; y, x = np.where(b); return len(y) < 4 or np.linalg.matrix_rank(np.array([y-y[0],x-x[0]])) < 2
def units(tier):
	q = tier == "quick"
	us = chunked("apod", [(pre+(ny,nx),w,p,f,d) for pre in ((),(2,),(2,1)) for ny, nx in ((1,1),(2,3),(5,4),(6,7)) for w in [0,1,2,3,6]+[(a,b) for a in (0,1,2,3) for b in (0,1,2,4)] for p in ("cos","lin") for f in ("zero","mean","median") for d in ("f8","f4") if max((np.zeros(2,int)+w)-np.array((ny,nx))) <= 0], unit_apod, 4)
	mk = [((3,3),b,"CAR",dec,w) for b in range(512) for dec, w in ((0,1.5),(60,1.5),(0,2.5))]+[((5,6),b,p,dec,w) for b in (2**30-1,2**30-1-(1<<14),2**30-1-(1<<7)-(1<<22),(1<<14)|(1<<15),0x15a5a5a5,0x2aaaaaaa,0x3ffbffef) for p, dec in (("CAR",0),("CAR",70),("TAN",40)) for w in (0.5,1.5,2,3,10)]
	mk += [((5,5),((2**25-1)^sum(1<<(5*y+x) for y,x in c)),"CAR",30,w) for L in (1,2) for c in itertools.combinations(itertools.product(range(5),repeat=2),L) for w in ((1.6,) if q else (0.8,1.6,2.9,4))]
	us += chunked("mask", mk, unit_mask, 16)
	bl = [(((a,b),(c,d)),v,n,h,s) for a in (0,1,3) for b in (0,2) for c in (0,1,2) for d in (0,3) for v, n in ((0.0,1),(1.5,1),(np.nan,1),(0.0,2),((2.5,-1.0),2),((np.nan,0.0),2)) for h in (False,True) for s in ((3,4),(5,7))]
	us += chunked("blank", bl, unit_blank, 16)
	us += chunked("bad", [(v,x,d,c) for v in itertools.product(BADS,repeat=4) for x in (0,-7.5) for d in ("f8","f4") for c in (False,True)], unit_bad, 8)
	us += chunked("inpaint", [(s,b,p) for s in ((2,4),(3,3)) for b in range(2**(s[0]*s[1])) for p in ((),(2,))]+[((4,5),b,()) for b in ((1<<20)-1-(1<<k) for k in range(20))]+[((1,4),b,()) for b in range(15)], unit_inpaint, 8)
	return us
