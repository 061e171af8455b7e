"""C03: geometry builders deliver the requested patch; areas and shapes are the true ones."""
import numpy as np, itertools
from pixell import enmap, wcsutils, utils
from ..geo import *
from ..core import chunked

RULE   = "every combination of box/centre, resolution, shape, projection, variant and orientation in the alphabet; reference: wcslib positions of pixel corners and exact spherical areas"
BOUNDS = "9 projections, box sizes to the full sky, map sides <= 60; full-sky shapes with 1..9 rows x 2..12 columns in each variant; all bands of those"
ASSUME = ["wcslib (astropy) defines the FITS projection", "solid angle of non-cylindrical pixels is compared at the accuracy of the documented approximation (2 %)"]

def pixcoord(wcs, dec_ra):
	"""rad -> 0-based (y,x) from wcslib with bounds check off"""
	w = wcs.deepcopy(); w.wcs.bounds_check(False,False)
	p = np.asarray(dec_ra,float)/deg if str(wcs.wcs.ctype[0]) else np.asarray(dec_ra,float)/deg
	return w.wcs_world2pix(p[...,::-1].reshape(-1,2),0)[:,::-1].reshape(p.shape)

def nob(w):
	w = w.deepcopy(); w.wcs.bounds_check(False,False); return w

CYL = ["car","cea","mer"]
AZI = ["arc","zea","tan","sin"]

# --- geometry() --------------------------------------------------------
def boxes():
	out = []
	for dec, ra, h, w in itertools.product((0,33.3,-50), (0,10.25,-120,179), (4,7.3), (5,11.7)):
		for sy, sx in ((1,-1),(1,1),(-1,-1)):
			out.append(np.array([[dec-sy*h/2,ra-sx*w/2],[dec+sy*h/2,ra+sx*w/2]])*deg)
	return out

def unit_box(ctx, items):
	for proj, bi in items:
		b = boxes()[bi]
		for res in (1.0, 0.7, (0.5,1.0)):
			rr = np.zeros(2)+res
			with ctx.case("geometry box+res", proj=proj, box=b/deg, res=res):
				for force in (False, True):
					shape, wcs = enmap.geometry(pos=b, res=np.array(res)*deg if not np.isscalar(res) else res*deg, proj=proj, force=force)
					sgn = np.sign(b[1]-b[0])
					ctx.close(np.abs(wcs.wcs.cdelt[::-1]), rr, msg="resolution")
					if proj in CYL: ctx.eq(np.sign(wcs.wcs.cdelt[::-1]), sgn, "orientation follows the box")
					# pixel coordinates of the requested corners
					e = pixcoord(wcs, b)
					if proj in CYL:
						ctx.check(np.all(np.abs(e[0]+0.5) <= 0.5+1e-6), "first corner within half a pixel of the patch: %s" % e[0])
						ctx.check(np.all(np.abs(e[1]+0.5-np.array(shape)) <= 1+1e-6), "last corner within a pixel of the patch: %s %s" % (e[1], shape))
						if force: ctx.close(e[0], [-0.5,-0.5], atol=1e-6, msg="first corner exactly where requested")
						else:
							s = pixcoord(wcs, np.zeros(2)); ctx.close(s, np.round(s), atol=1e-6, msg="standard point on a pixel centre")
					# consistency of deg=True and pre
					s2, w2 = enmap.geometry(pos=b/deg, res=res, proj=proj, force=force, deg=True, pre=(3,))
					ctx.eq(len(s2), 3, "pre-dimensions"); ctx.eq(s2[0], 3, "pre-dimensions")
					# box edges in the middle of a pixel may be rounded either way
					ctx.check(wcsutils.is_compatible(wcs, w2) and np.max(np.abs(np.subtract(s2[1:],shape))) <= 1 and np.max(np.abs(wcs.wcs.crpix-w2.wcs.crpix)) < 1+1e-6, "degrees")
		for shp in ((7,9),(4,5),(1,3)):
			with ctx.case("geometry box+shape", proj=proj, box=b/deg, shape=shp):
				shape, wcs = enmap.geometry(pos=b, shape=shp, proj=proj, force=True)
				ctx.eq(tuple(shape), shp, "shape")
				e = pixcoord(wcs, b)
				if proj in CYL: ctx.close(e, [[-0.5,-0.5],[shp[0]-0.5,shp[1]-0.5]], atol=1e-6, msg="box edges are map edges")
				shape, wcs = enmap.geometry(pos=b, shape=shp, proj=proj)
				ctx.eq(tuple(shape), shp, "shape")
				e = pixcoord(wcs, b) - np.array([[-0.5,-0.5],[shp[0]-0.5,shp[1]-0.5]])
				if proj in CYL:
					ctx.check(np.all(np.abs(e) <= 0.5+1e-6), "box edges are map edges to within half a pixel")
					s = pixcoord(wcs, np.zeros(2)); ctx.close(s, np.round(s), atol=1e-6, msg="standard point on a pixel centre")
		c = np.mean(b,0)
		for shp, res in itertools.product(((7,9),(4,5),(6,3)), (1.0,(0.5,-1.0))):
			with ctx.case("geometry centre+res+shape", proj=proj, centre=c/deg, shape=shp, res=res):
				r = res*deg if np.isscalar(res) else np.array(res)*deg
				shape, wcs = enmap.geometry(pos=c, res=r, shape=shp, proj=proj, force=True)
				ctx.eq(tuple(shape), shp, "shape")
				ctx.close(wcs.wcs.cdelt[::-1], (1,-1) if np.isscalar(res) else res, msg="resolution and default orientation")
				e = pixcoord(wcs, c)
				tol = 1e-6 if proj in CYL else 0.5+1e-6
				ctx.check(np.all(np.abs(e-(np.array(shp)-1)/2) <= tol), "centred on the requested point: %s" % e)
				shape, wcs = enmap.geometry(pos=c, res=r, shape=shp, proj=proj)
				e = pixcoord(wcs, c)
				ctx.check(np.all(np.abs(e-(np.array(shp)-1)/2) <= 0.5+1e-6), "centred to within half a pixel: %s" % e)
				if proj in AZI:
					ctx.close(e, np.round(e), atol=1e-6, msg="reference point of an azimuthal patch on a pixel centre")
					ctx.close(wcs.wcs.crval[::-1]*deg, c, msg="projection centre")
				# explicit reference point
				if proj in CYL:
					ref = np.array([0,7.3])*deg
					shape, wcs = enmap.geometry(pos=c, res=r, shape=shp, proj=proj, ref=ref)
					s = pixcoord(wcs, ref); ctx.close(s, np.round(s), atol=1e-6, msg="requested point on a pixel centre")
					e = pixcoord(wcs, c)
					ctx.check(np.all(np.abs(e-(np.array(shp)-1)/2) <= 0.5+1e-6), "centred to within half a pixel: %s" % e)
		with ctx.case("geometry plain", box=b/deg):
			shape, wcs = enmap.geometry(pos=b, res=0.7*deg, proj="plain", force=True)
			e = pixcoord(wcs, b)
			ctx.close(e[0], [-0.5,-0.5], atol=1e-6, msg="corner"); ctx.check(np.all(np.abs(e[1]+0.5-np.array(shape)) <= 1+1e-6), "far corner")
			shape, wcs = enmap.geometry(pos=b, shape=(5,6), proj="plain", force=True)
			ctx.close(pixcoord(wcs, b), [[-0.5,-0.5],[4.5,5.5]], atol=1e-6, msg="corners")
			ctx.eq(bool(wcsutils.is_plain(wcs)), True, "plain")

# --- full sky and bands -------------------------------------------------
def rows(shape, wcs): return (np.arange(shape[-2])+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]+wcs.wcs.crval[1]
def cols(shape, wcs): return (np.arange(shape[-1])+1-wcs.wcs.crpix[0])*wcs.wcs.cdelt[0]+wcs.wcs.crval[0]

def check_fullsky(ctx, shape, wcs, yvar, msg=""):
	ny, nx = shape[-2:]
	dec, ra = rows(shape, wcs), cols(shape, wcs)
	dd = abs(wcs.wcs.cdelt[1])
	lo, hi = min(dec[0],dec[-1]), max(dec[0],dec[-1])
	off = {"0":0, "h":0.5}[yvar]*dd
	ctx.close([lo,hi], [-90+off,90-off], atol=1e-7, msg=msg+"rows relative to the poles")
	ctx.close(abs(wcs.wcs.cdelt[0])*nx, 360, atol=1e-7, msg=msg+"columns go once around")
	A = enmap.pixsizemap(shape, wcs)
	ctx.close(np.sum(np.asarray(A)), 4*np.pi, rtol=1e-9, msg=msg+"pixel areas sum to the sphere")
	ctx.close(enmap.area(shape, wcs), 4*np.pi, rtol=1e-9, msg=msg+"area is that of the sphere")

def unit_fullsky(ctx, items):
	for ny, nx in items:
		for variant, yo in (("fejer1",0),("cc",1),("FEJER1",0),("CC",1)):
			if ny-yo < 1: continue
			with ctx.case("fullsky shape", shape=(ny,nx), variant=variant):
				shape, wcs = enmap.fullsky_geometry(shape=(ny,nx), variant=variant, dims=(2,))
				ctx.eq(tuple(shape), (2,ny,nx), "shape")
				check_fullsky(ctx, shape, wcs, "0" if yo else "h")
				ra = cols(shape, wcs); ctx.check(np.max(np.abs(ra)) <= 180+360/nx/2+1e-6, "columns near the prime meridian")
				ctx.check(wcs.wcs.cdelt[0] < 0 and wcs.wcs.cdelt[1] > 0, "standard orientation")
				if variant.islower():
					s2, w2 = enmap.fullsky_geometry(res=np.array([180/(ny-yo),360/nx])*deg, variant=variant)
					ctx.eq(tuple(s2), (ny,nx), "same from the resolution"); ctx.check(wcsutils.equal(wcs,w2,tol=1e-9), "same coordinates from the resolution")
			if not variant.islower(): continue
			with ctx.case("geometry2 fullsky", shape=(ny,nx), variant=variant):
				s2, w2 = enmap.geometry2(res=np.array([180/(ny-yo),-360/nx])*deg, variant=variant)
				if ny-yo > 0 and ny > 1:
					ctx.eq(tuple(s2), (ny,nx), "shape"); check_fullsky(ctx, s2, w2, "0" if yo else "h", "geometry2: ")
					if nx%2 == 0: ctx.check(wcsutils.is_compatible(w2, wcs), "compatible with the standard full-sky geometry")
			with ctx.case("geometry2 from shape", shape=(ny,nx), variant=variant):
				if ny > 1:
					for f in (enmap.geometry2, enmap.fullsky_geometry2):
						s2, w2 = f(shape=(ny,nx), variant=variant)
						ctx.eq(tuple(s2), (ny,nx), "shape"); check_fullsky(ctx, s2, w2, "0" if yo else "h")
					s2, w2 = enmap.fullsky_geometry2(res=np.array([180/(ny-yo),-360/nx])*deg, variant=variant, dims=(3,))
					ctx.eq(tuple(s2), (3,ny,nx), "shape"); check_fullsky(ctx, s2, w2, "0" if yo else "h")
			# declination bands: every pair of requested limits on a third-of-a-row grid
			lims = np.linspace(-90,90,3*(ny-yo)+1)
			for i, j in itertools.combinations(range(len(lims)),2):
				d1, d2 = lims[i], lims[j]; dd = 180/(ny-yo)
				if d2-d1 < dd*1.01: continue
				with ctx.case("band", shape=(ny,nx), variant=variant, band=(d1,d2)):
					s, w = enmap.band_geometry((d1*deg,d2*deg), shape=(ny,nx), variant=variant, dims=(2,))
					dec = rows(s, w)
					ctx.eq(tuple(s[:1]), (2,), "pre-dimensions"); ctx.eq(s[-1], nx, "all the way around")
					ctx.check(s[-2] > 0 and abs(dec[0]-dd/2-d1) <= dd*(1+1e-6) and abs(dec[-1]+dd/2-d2) <= dd*(1+1e-6), "covers the band to within a pixel: %s" % dec)
					full = rows((ny,nx), wcs)
					ctx.check(all(np.min(np.abs(full-d)) < 1e-7 for d in dec), "rows are rows of the full sky")
					ctx.close(np.diff(dec), np.full(len(dec)-1,dd), msg="consecutive rows")
					ctx.close(cols(s,w), cols((ny,nx),wcs), atol=1e-9, msg="columns of the full sky")
				if d1 == -d2:
					with ctx.case("band symmetric", shape=(ny,nx), variant=variant, cut=d2):
						s2, w2 = enmap.band_geometry(d2*deg, shape=(ny,nx), variant=variant, dims=(2,))
						ctx.eq(tuple(s2), tuple(s), "shape"); ctx.check(wcsutils.equal(w,w2), "single number means symmetric")

def unit_geo2(ctx, items):
	for proj, variant, bi in items:
		b = boxes()[bi]
		with ctx.case("geometry2 box", proj=proj, variant=variant, box=b/deg):
			if (b[1,0]-b[0,0]) < 0: continue
			shape, wcs = enmap.geometry2(pos=b, res=0.5*deg, proj=proj, variant=variant)
			e = pixcoord(wcs, b); per = 720
			e[:,1] -= np.round((np.mean(e[:,1])-shape[-1]/2)/per)*per if proj in CYL else 0
			ctx.close(np.abs(wcs.wcs.cdelt), [0.5,0.5], rtol=1e-6, msg="resolution")
			ctx.check(np.all(np.abs(e[0]+0.5) <= 1+1e-6) and np.all(np.abs(e[1]+0.5-np.array(shape)) <= 1+1e-6), "box covered to within a pixel: %s %s" % (e, shape))
			s0, w0 = enmap.geometry2(res=0.5*deg*np.array([1,np.sign(b[1,1]-b[0,1])]), proj=proj, variant=variant)
			ctx.check(wcsutils.is_compatible(wcs, w0), "a cut-out of the full sky")
			c = np.mean(b,0)
			for shp in ((5,6),(4,3)):
				shape, wcs = enmap.geometry2(pos=c, res=0.5*deg, shape=shp, proj=proj, variant=variant, pre=(2,))
				ctx.eq(tuple(shape), (2,)+shp, "shape")
				e = pixcoord(wcs, c); e[1] -= np.round((e[1]-shp[1]/2)/per)*per if proj in CYL else 0
				ctx.check(np.all(np.abs(e-(np.array(shp)-1)/2) <= 1+1e-6), "centred to within a pixel: %s" % e)
		if proj == "car":
			with ctx.case("band_geometry2", variant=variant, box=b/deg):
				if b[1,0] < b[0,0]: continue
				s, w = enmap.band_geometry2(b[:,0], res=0.5*deg, variant=variant)
				dec = rows(s,w)
				ctx.eq(s[-1], 720, "all the way around")
				ctx.check(abs(dec[0]-0.25-b[0,0]/deg) <= 0.5+1e-6 and abs(dec[-1]+0.25-b[1,0]/deg) <= 0.5+1e-6, "covers the band to within a pixel")

def unit_geo2opts(ctx, _):
	"""Pixel placement rules at the edges of the sky, units, leading dimensions and reference points of the full-sky based builders"""
	RULES = {"safe":("hh","hh"), "fejer1":("00","hh"), "cc":("00","00"), "hh,hh":("hh","hh"), "00,hh":("00","hh"), "hh,00":("hh","00"), "00,h0":("00","h0"), "hh,0h":("hh","0h"), "any":("**","**")}
	def placement(s, w, rule, msg):
		ny, nx = s[-2:]; dec, ra = rows(s,w), cols(s,w); dd, dr = w.wcs.cdelt[1], w.wcs.cdelt[0]
		if "*" in rule[1]: ctx.check(np.all(np.abs(dec) <= 90+abs(dd)/2+1e-6), msg+": rows on the sky"); return
		off = [{"0":0,"h":0.5}[c]*abs(dd) for c in rule[1]]; lo, hi = (dec[0],dec[-1]) if dd > 0 else (dec[-1],dec[0])
		bt = off if dd > 0 else off[::-1] # the rule's first entry is the first row's side
		ctx.check(np.allclose([lo,hi], [-90+off[0],90-off[1]], atol=1e-7) or np.allclose([lo,hi], [-90+off[1],90-off[0]], atol=1e-7) and dd < 0, msg+": rows relative to the poles: %s" % dec, state=dec.tolist())
		f = ((180-ra[0])/abs(dr)) % 1; want = {"0":0,"h":0.5}[rule[0][0]]
		ctx.close((f-want+0.25)%0.5-0.25 if rule[0][0] == "x" else (f-want+0.5)%1-0.5, 0, atol=1e-6, msg=msg+": columns relative to the edge of the sky")
		ctx.close(abs(dr)*nx, 360, atol=1e-7, msg=msg+": once around")
	for variant, rule in RULES.items():
		for ny, nx in ((7,12),(6,8),(13,24),(5,9)):
			n = ny-{"h":0,"0":0.5,"*":0}[rule[1][0]]-{"h":0,"0":0.5,"*":0}[rule[1][1]]
			res = np.array([180/n,-360/nx])
			for proj, var in (("car",variant),("car:"+variant,None),("CAR",variant)):
				with ctx.case("geometry2 variant", variant=variant, shape=(ny,nx), proj=proj):
					cands = [enmap.geometry2(shape=(ny,nx), proj=proj, variant=var), enmap.fullsky_geometry2(shape=(ny,nx), proj=proj, variant=var), enmap.geometry2(res=res*deg, proj=proj, variant=var), enmap.geometry2(res=res, proj=proj, variant=var, deg=True), enmap.fullsky_geometry2(res=res, deg=True, proj=proj, variant=var), enmap.fullsky_geometry2(res=res*deg, proj=proj, variant=var)]
					for i, (s, w) in enumerate(cands):
						if "*" in rule[1] and i > 1: continue
						ctx.eq(tuple(s), (ny,nx), "shape %d" % i); placement(s, w, rule, "builder %d" % i)
						if "*" not in rule[1]: ctx.close(w.wcs.cdelt[::-1] if i > 1 else np.abs(w.wcs.cdelt[::-1]), res if i > 1 else np.abs(res), msg="resolution %d" % i)
						ctx.check(wcsutils.equal(w, cands[0 if i < 2 else 2][1], tol=1e-9), "all builders agree")
					for pre in ((2,),(3,1)):
						for s, w in (enmap.geometry2(shape=(ny,nx), proj=proj, variant=var, pre=pre), enmap.fullsky_geometry2(shape=(ny,nx), proj=proj, variant=var, pre=pre), enmap.fullsky_geometry2(shape=(ny,nx), proj=proj, variant=var, dims=pre)):
							ctx.eq(tuple(s), pre+(ny,nx), "leading dimensions"); ctx.check(wcsutils.equal(w, cands[0][1], tol=1e-9), "same coordinates")
				with ctx.case("band_geometry2 options", variant=variant, shape=(ny,nx), proj=proj):
					if "*" in rule[1]: continue
					full = rows((ny,nx), cands[0][1]); dd = res[0]
					for d1, d2 in ((-90,90),(-dd*1.2,dd*2.1),(-60,0),(0,60),(dd*0.3,75)):
						if d2-d1 < dd*1.5: continue
						outs = [enmap.band_geometry2((d1*deg,d2*deg), res=np.array(res)*deg, proj=proj, variant=var), enmap.band_geometry2((d1,d2), res=res, proj=proj, variant=var, deg=True),
							enmap.band_geometry2((d1,d2), res=res, proj=proj, variant=var, deg=True, pre=(2,)), enmap.band_geometry2((d1,d2), res=res, proj=proj, variant=var, deg=True, dims=(2,))]
						if d1 == -d2: outs.append(enmap.band_geometry2(d2, res=res, proj=proj, variant=var, deg=True))
						for i, (s, w) in enumerate(outs):
							dec = rows(s, w); ctx.eq(tuple(s[:-2]), (2,) if i in (2,3) else (), "leading dimensions"); ctx.eq(s[-1], nx, "all the way around")
							ctx.check(s[-2] > 0 and all(np.min(np.abs(full-d)) < 1e-6 for d in dec), "rows of the full sky")
							ctx.check(abs(dec[0]-dd/2-max(d1,full[0]-dd/2)) <= dd*(1+1e-6) and abs(dec[-1]+dd/2-min(d2,full[-1]+dd/2)) <= dd*(1+1e-6), "covers the band to within a pixel: %s" % dec)
							ctx.eq(dec.tolist() if i else 0, rows(*outs[0]).tolist() if i else 0, "same rows for every way of asking")
	for proj in ("tan","arc","zea","sin","car","cea"):
		for ref in ((0.0,40.0),(50.0,-70.0),(-30.0,170.0)):
			with ctx.case("geometry2 ref", proj=proj, ref=ref):
				if proj in CYL and ref[0]: continue
				pos = np.array(ref)+[3.0,-4.0]; box = np.array([pos-[2.5,-3.5],pos+[2.5,-3.5]])
				for d, u in ((False,deg),(True,1.0)):
					s, w = enmap.geometry2(pos=pos*u, shape=(7,9), res=0.5*u, proj=proj, ref=np.array(ref)*u, deg=d)
					ctx.eq(tuple(s), (7,9), "shape")
					e = pixcoord(w, pos*deg); e[1] -= np.round((e[1]-4)/720)*720 if proj in CYL else 0
					ctx.check(np.all(np.abs(e-[3,4]) <= 1+1e-6), "centred to within a pixel: %s" % e)
					if proj in AZI: ctx.close(w.wcs.crval, ref[::-1], atol=1e-9, msg="reference point of the projection"); e = pixcoord(w, np.array(ref)*deg); ctx.close(e*2, np.round(e*2), atol=1e-6, msg="reference on a pixel centre or edge")
					s, w = enmap.geometry2(pos=pos*u, shape=(7,9), res=0.5*u, proj=proj, ref="mid", deg=d)
					if proj in AZI: ctx.close(w.wcs.crval, pos[::-1], atol=1e-9, msg="'mid' uses the requested position")
					if proj in AZI:
						s, w = enmap.geometry2(pos=box*u, res=0.5*u, proj=proj, ref="mid", deg=d); ctx.close(w.wcs.crval, pos[::-1], atol=1e-9, msg="'mid' uses the middle of the box")
						ctx.close(enmap.geometry2(shape=(6,6), proj=proj, ref="mid")[1].wcs.crval, [0,90], msg="'mid' without a position is the default")

# --- thumbnails ---------------------------------------------------------
def unit_thumb(ctx, items):
	for proj, res, r, shp in items:
		with ctx.case("thumbnail", proj=proj, res=res, r=r, shape=shp):
			centre = lambda s: (np.array(s[-2:])-1)//2
			if proj == "plain": sg = np.array([1,1])
			else: sg = np.array([1,-1])
			def common(s, w):
				ctx.check(s[-1]%2 == 1 and s[-2]%2 == 1, "odd sides")
				ctx.close(pixcoord(w,[0,0]), centre(s), atol=1e-9, msg="origin is the central pixel")
				ctx.eq(np.sign(w.wcs.cdelt[::-1]), sg, "orientation")
			s, w = enmap.thumbnail_geometry(res=np.array(res)*deg, shape=shp, proj=proj, dims=(4,))
			ctx.eq(tuple(s), (4,shp[0]//2*2+1,shp[1]//2*2+1), "shape"); common(s,w)
			ctx.close(np.abs(w.wcs.cdelt[::-1]), np.zeros(2)+np.abs(res), msg="resolution")
			if np.size(res) == 1:
				s, w = enmap.thumbnail_geometry(r=r*deg, res=res*deg, proj=proj); common(s,w)
				ctx.close(np.abs(w.wcs.cdelt[::-1]), np.zeros(2)+np.abs(res), msg="resolution")
				e = np.abs(pixcoord(w,[r*deg,r*deg])-centre(s))
				ctx.check(np.all(np.abs(e-(np.array(s)-1)/2) <= 0.5+1e-6), "radius reached to within half a pixel: %s %s" % (e,s))
				s, w = enmap.thumbnail_geometry(r=r*deg, shape=shp, proj=proj); common(s,w)
				ctx.eq(tuple(s), (shp[0]//2*2+1,shp[1]//2*2+1), "shape")
				if min(s) > 1:
					e = np.abs(pixcoord(w,[r*deg,r*deg])-centre(s))
					ctx.close(e, (np.array(s)-1)/2, rtol=1e-6, msg="radius reached by the outermost pixel centre")

# --- sizes --------------------------------------------------------------
def true_areas(shape, wcs, n=40):
	"""Solid angle of each pixel from the contour of its outline (n segments per side), oriented 'cylindrical equal area' integral"""
	ny, nx = shape[-2:]
	t = (np.arange(n)/n)-0.5
	py = np.concatenate([t*0-0.5, t, t*0+0.5, -t]); px = np.concatenate([t, t*0+0.5, -t, t*0-0.5])
	P = pixgrid(shape)[:,:,:,None]+np.array([py,px])[:,None,None,:]
	v = unitvec(ref_pix2sky(wcs, P))                     # [3,ny,nx,4n]
	c = unitvec(ref_pix2sky(wcs, pixgrid(shape)))[...,None]
	w = np.roll(v,-1,-1)
	num = np.abs(np.sum(c*np.cross(v,w,axis=0),0)); den = 1+np.sum(c*v,0)+np.sum(v*w,0)+np.sum(w*c,0)
	return np.sum(2*np.arctan2(num,den),-1)

def cyl_areas(shape, wcs):
	ny, nx = shape[-2:]; p = str(wcs.wcs.ctype[0])[-3:]
	e = (np.arange(ny+1)+0.5-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]
	if p == "CAR": d = np.clip(e*deg,-np.pi/2,np.pi/2)
	elif p == "CEA":
		lam = dict(((i,m),v) for i,m,v in wcs.wcs.get_pv()).get((2,1),1.0)
		d = np.arcsin(np.clip(e*deg*lam,-1,1))
	else: d = 2*np.arctan(np.exp(e*deg))-np.pi/2
	A = np.abs(np.diff(np.sin(d)))*abs(wcs.wcs.cdelt[0])*deg
	return np.repeat(A[:,None],nx,1), d

def unit_size_cyl(ctx, items):
	for name, shape, dy, dx, fy, fx in items:
		w0 = alphabet("cyl")[name][1]
		wcs = w0.deepcopy(); wcs.wcs.crpix[1] += dy; wcs.wcs.crpix[0] += dx
		if fy: wcs.wcs.cdelt[1] *= -1
		if fx: wcs.wcs.cdelt[0] *= -1
		wcs.wcs.set()
		A, d = cyl_areas(shape, wcs)
		if np.min(A) <= 0: continue   # rows entirely beyond the pole
		if str(wcs.wcs.ctype[0])[-3:] == "CEA" and np.max(np.abs(d)) > np.pi/2-1e-9: continue
		with ctx.case("sizes", geo=name, shape=shape, off=(dy,dx), flip=(fy,fx)):
			H = np.repeat(np.abs(np.diff(d))[:,None],shape[1],1)
			got = enmap.pixsizemap(shape, wcs)
			ctx.check(isinstance(got, enmap.ndmap), "a map"); ctx.eq(wcs_key(got.wcs), wcs_key(wcs), "coordinates")
			ctx.close(np.asarray(got), A, rtol=1e-8, msg="pixel areas")
			ctx.close(np.asarray(enmap.pixsizemap((3,)+shape, wcs)), A, rtol=1e-8, msg="leading dimensions do not matter")
			bc = enmap.pixsizemap(shape, wcs, broadcastable=True)
			ctx.close(np.broadcast_to(np.asarray(bc),shape), A, rtol=1e-8, msg="broadcastable")
			ctx.close(enmap.area(shape, wcs), np.sum(A), rtol=1e-8, msg="area")
			ctx.close(enmap.pixsize(shape, wcs), np.mean(A), rtol=1e-8, msg="mean pixel area")
			ps = enmap.pixshapemap(shape, wcs)
			ctx.close(np.asarray(ps[0]), H, rtol=1e-8, msg="heights"); ctx.close(np.asarray(ps[0]*ps[1]), A, rtol=1e-8, msg="height x width")
			pss = np.asarray(enmap.pixshapemap(shape, wcs, signed=True))
			ctx.close(np.abs(pss), np.asarray(ps), msg="signed magnitude")
			ctx.eq(np.sign(pss[:,0,0]), np.sign(wcs.wcs.cdelt[::-1]), "signs of pixel shape")
			if np.max(np.abs(d)) < 80*deg:
				for bs in (1,2,1000):
					P = np.asarray(enmap.pixshapemap(shape, wcs, separable=False, bsize=bs, signed=True)); ctx.close(P[0], pss[0], rtol=1e-8, msg="heights, general method"); ctx.close(P[1], pss[1], rtol=0.01+np.max(H)**2, msg="widths, general method")
					ctx.close(np.asarray(enmap.pixsizemap(shape, wcs, separable=False, bsize=bs)), A, rtol=0.01+np.max(H)**2, msg="areas, general method")
			rowwise = enmap.pixshapes_cyl(shape, wcs); ctx.close(rowwise, np.asarray(ps[:,:,0]), msg="per-row shapes")
			bnd = enmap.pixshapebounds(shape, wcs)
			ctx.close(bnd, np.array([np.min(rowwise,1),np.max(rowwise,1)]), msg="bounds")
			for sg in (False, True):
				e = enmap.extent(shape, wcs, signed=sg)
				ctx.close(abs(e[0]), np.sum(H[:,0]), rtol=1e-8, msg="vertical extent"); ctx.close(abs(e[0]*e[1]), np.sum(A), rtol=1e-8, msg="extent product is area")
				ctx.eq(np.sign(e), np.sign(wcs.wcs.cdelt[::-1]) if sg else np.ones(2), "signs")
				ctx.close(enmap.pixshape(shape, wcs, signed=sg), e/np.array(shape), msg="mean pixel shape")
			m = enmap.ndmap(np.zeros((2,)+shape), wcs)
			ctx.close(np.asarray(m.pixsizemap()), A, rtol=1e-8, msg="method"); ctx.close(m.area(), np.sum(A), rtol=1e-8, msg="method")
			ctx.close(m.pixsize(), np.mean(A), rtol=1e-8, msg="method"); ctx.close(np.asarray(m.pixshapemap()), np.asarray(ps), msg="method")
			ctx.close(m.extent(), enmap.extent(shape,wcs), msg="method"); ctx.close(m.pixshape(), enmap.pixshape(shape,wcs), msg="method")

def unit_size_azi(ctx, items):
	for proj, crval, cdelt, shape in items:
		wcs = mkwcs(proj, crval, cdelt, [(shape[1]+1)/2+0.2,(shape[0]+1)/2-0.1])
		with ctx.case("sizes azimuthal", proj=proj, crval=crval, cdelt=cdelt, shape=shape):
			A = true_areas(shape, wcs)
			ctx.close(np.asarray(enmap.pixsizemap(shape, wcs)), A, rtol=0.02, msg="pixel areas")
			ctx.close(np.asarray(enmap.pixsizemap(shape, wcs)), np.asarray(enmap.pixsizemap(shape, wcs, bsize=2)), rtol=1e-9, msg="independent of block size")
			for sg in (False,True):
				P = np.asarray(enmap.pixshapemap(shape, wcs, signed=sg))
				for bs in (1,2,3,shape[0]): ctx.close(np.asarray(enmap.pixshapemap(shape, wcs, bsize=bs, signed=sg)), P, rtol=1e-9, msg="pixel shapes independent of block size")
			ctx.close(enmap.area(shape, wcs), np.sum(A), rtol=0.005, msg="area")
			ctx.close(enmap.pixsize(shape, wcs), np.mean(A), rtol=0.005, msg="mean pixel area")
			for sg in (False,True):
				e = enmap.extent(shape, wcs, signed=sg)
				ctx.close(abs(e[0]*e[1]), np.sum(A), rtol=0.005, msg="extent product is area")
				ctx.close(np.abs(e), np.abs(np.array(cdelt[::-1])*shape*deg), rtol=0.1, msg="extent")
				ctx.eq(np.sign(e), np.sign(cdelt[::-1]) if sg else np.ones(2), "signs")
		with ctx.case("sizes plain", cdelt=cdelt, shape=shape):
			w = mkwcs("plain", [3,4], cdelt, [2,3])
			h, l = np.abs(np.array(cdelt[::-1]))*deg
			ctx.close(np.asarray(enmap.pixsizemap(shape, w)), np.full(shape,h*l), msg="areas"); ctx.close(enmap.area(shape,w), h*l*shape[0]*shape[1], msg="area")
			ctx.close(enmap.extent(shape,w), [h*shape[0],l*shape[1]], msg="extent"); ctx.close(enmap.extent(shape,w,signed=True), np.array(cdelt[::-1])*deg*shape, msg="signed extent")
			ctx.close(np.asarray(enmap.pixshapemap(shape,w))[:,0,0], [h,l], msg="pixel shape")

# --- whole-geometry operations -------------------------------------------
def unit_ops(ctx, items):
	for name in items:
		shape, wcs = alphabet()[name]
		key = wcs_key(wcs)
		with ctx.case("union", geo=name):
			for offs in itertools.product((-3,0,2),(-2,0,4),(-1,3),(0,5)):
				gs = []
				for (dy,dx),s in zip(((0,0),offs[:2],offs[2:]),((4,5),(2,3),(1,7))):
					w = wcs.deepcopy(); w.wcs.crpix[0] -= dx; w.wcs.crpix[1] -= dy; gs.append((s,w))
				oshape, owcs = enmap.union_geometry(gs)
				lo = np.min([[0,0],offs[:2],offs[2:]],0); hi = np.max([np.add(o,s) for o,s in zip(((0,0),offs[:2],offs[2:]),((4,5),(2,3),(1,7)))],0)
				ctx.eq(tuple(int(v) for v in oshape), tuple(int(v) for v in hi-lo), "union shape")
				ctx.close(owcs.wcs.crpix, wcs.wcs.crpix - lo[::-1], msg="union position")
			ctx.eq(wcs_key(wcs), key, "input unchanged")
		with ctx.case("Geometry", geo=name):
			g = enmap.Geometry((3,)+shape, wcs)
			ctx.eq((g.shape, g.npix, len(g)), ((3,)+shape, shape[0]*shape[1], 2), "basics")
			s, w = g; ctx.eq(tuple(s), (3,)+shape, "unpacks")
			for src in (g, enmap.ndmap(np.zeros((3,)+shape), wcs)):
				g2 = enmap.Geometry(src); ctx.eq(g2.shape, (3,)+shape, "from another geometry or map"); ctx.eq(wcs_key(g2.wcs), key, "coordinates")
			ctx.raises(lambda: enmap.Geometry(shape), msg="shape alone is not a geometry")
			ctx.eq(g.nopre.shape, shape, "nopre"); ctx.eq(g.with_pre((2,4)).shape, (2,4)+shape, "with_pre")
			c = g.copy(); c.wcs.wcs.crpix[0] += 1; ctx.eq(wcs_key(g.wcs), key, "copy is independent")
			ctx.close(g.pix2sky([1,2]), enmap.pix2sky(shape,wcs,[1,2]), msg="pix2sky"); ctx.close(g.sky2pix(g.pix2sky([1,2])), enmap.sky2pix(shape,wcs,g.pix2sky([1,2])), msg="sky2pix")
			d = g.downgrade(2); s2, w2 = enmap.downgrade_geometry(g.shape, wcs, 2)
			ctx.eq(tuple(d.shape), tuple(s2), "downgrade"); ctx.eq(wcs_key(d.wcs), wcs_key(w2), "downgrade")
			sub = g[...,1:3,2:]; s3, w3 = enmap.slice_geometry(g.shape, wcs, np.s_[...,1:3,2:])
			ctx.eq(tuple(sub.shape), tuple(s3), "slice"); ctx.eq(wcs_key(sub.wcs), wcs_key(w3), "slice")
		with ctx.case("scale", geo=name):
			for sc, rm, co in itertools.product((2,0.5,(2,3)),(False,True),(True,False)):
				w2 = wcsutils.scale(wcs, sc, rowmajor=rm, corner=co)
				f = np.zeros(2)+sc; f = f if rm else f[::-1]      # y,x
				p = pixgrid(shape)
				q = (p+0.5)*f[:,None,None]-0.5 if co else p*f[:,None,None]
				a, b = ref_pix2sky(wcs,p), ref_pix2sky(w2,q)
				ctx.check(np.all(same_sky(a,b,1e-8)), "rescaled pixels point at the same sky", a)
				ctx.eq(wcs_key(wcs), key, "input unchanged")
			for sc in (2,(2,3)):
				s2, w2 = enmap.scale_geometry((4,)+shape, wcs, sc); f = np.zeros(2,int)+sc
				ctx.eq(tuple(int(v) for v in s2), (4,shape[0]*f[0],shape[1]*f[1]), "scaled shape")
				q = (pixgrid(shape)+0.5)*f[:,None,None]-0.5
				ctx.check(np.all(same_sky(ref_pix2sky(wcs,pixgrid(shape)),ref_pix2sky(w2,q),1e-8)), "scaled geometry covers the same sky")
		with ctx.case("compatible", geo=name):
			for other in alphabet():
				s2, w2 = alphabet()[other]
				same = (str(w2.wcs.ctype[0]) == str(wcs.wcs.ctype[0])) and np.allclose(w2.wcs.cdelt, wcs.wcs.cdelt)
				if other == name or not same: ctx.eq(bool(wcsutils.is_compatible(wcs, w2)), other == name, "compatible with %s" % other)
			for dy, dx in itertools.product((0,1,-7,0.5,0.01),(0,3,-2,0.25)):
				w2 = wcs.deepcopy(); w2.wcs.crpix[0] += dx; w2.wcs.crpix[1] += dy
				ctx.eq(bool(wcsutils.is_compatible(wcs, w2)), dy == int(dy) and dx == int(dx), "compatible iff shifted by whole pixels (%g,%g)" % (dy,dx))
			w2 = wcs.deepcopy(); w2.wcs.cdelt[0] *= -1; ctx.eq(bool(wcsutils.is_compatible(wcs,w2)), False, "opposite direction")
			w2 = wcs.deepcopy(); w2.wcs.cdelt[1] *= 1.01; ctx.eq(bool(wcsutils.is_compatible(wcs,w2)), False, "different resolution")
		if wcsutils.is_separable(wcs):
			with ctx.case("recenter", geo=name):
				p = pixgrid(shape); a = ref_pix2sky(wcs,p)
				for x in (1,3.5,-20,40): 
					w2 = wcsutils.recenter_cyl_x(wcs, x)
					ctx.close(w2.wcs.crpix[0], x, msg="reference moved"); ctx.check(np.all(same_sky(a,ref_pix2sky(nob(w2),p),1e-8)), "same sky", a)
				for ra in wcs.wcs.crval[0]+np.array([0,45,-60]):
					w2 = wcsutils.recenter_cyl_ra(wcs, ra)
					ctx.close(w2.wcs.crval[0], ra, msg="reference moved"); ctx.check(np.all(same_sky(a,ref_pix2sky(nob(w2),p),1e-8)), "same sky", a)
				s2, w2 = enmap.recenter_cyl(shape, wcs); ctx.check(np.all(same_sky(a,ref_pix2sky(nob(w2),p),1e-8)), "same sky", a)
				for mode in ("auto",True,False):
					s2, w2 = enmap.recenter_geo(shape, wcs, mode); ctx.eq(tuple(s2), shape, "shape"); ctx.check(np.all(same_sky(a,ref_pix2sky(nob(w2),p),1e-8)), "same sky", a)
				w3 = wcs.deepcopy(); w3.wcs.crpix[0] += 300; w3.wcs.crval[0] += 300*wcs.wcs.cdelt[0]
				for wx in (wcs, w3):
					w2 = wcsutils.fix_wcs(wx); ctx.check(np.all(same_sky(a,ref_pix2sky(nob(w2),p),1e-7)), "fix_wcs keeps the sky", a)
				ctx.eq(wcs_key(wcs), key, "input unchanged")
		with ctx.case("crop_geometry", geo=name):
			for y1,y2,x1,x2 in itertools.product((0,2,-3),(4,7),(0,3,-2),(5,9)):
				s2, w2 = enmap.crop_geometry((2,)+shape, wcs, pixbox=[[y1,x1],[y2,x2]])
				ctx.eq(tuple(int(v) for v in s2), (2,y2-y1,x2-x1), "shape"); ctx.close(w2.wcs.crpix, wcs.wcs.crpix-[x1,y1], msg="position")

def units(tier):
	q = tier == "quick"
	nb = len(boxes()); bs = range(0,nb,4 if q else 1)
	items = [(p,i) for p in CYL+AZI for i in bs]
	out  = chunked("box", items, unit_box, 16)
	out += chunked("fullsky", [(ny,nx) for ny in range(1,8 if q else 10) for nx in ((2,3,4,7,8) if q else range(2,13))], unit_fullsky, 16)
	out += chunked("geo2", [(p,v,i) for p,v in (("car","fejer1"),("car","cc"),("car","safe"),("car","any"),("cea","any"),("car",None)) for i in bs], unit_geo2, 8)
	out += chunked("thumb", [(p,res,r,s) for p in ("tan","car","cea","zea","arc","sin","plain") for res in (0.1,0.5,(0.5,-0.2) if p != "plain" else (0.5,0.2)) for r in (1,1.3,2.5) for s in ((5,5),(6,9),(11,4),(1,1))], unit_thumb, 4)
	sz = [(n,s,dy,dx,fy,fx) for n in alphabet("cyl") for s in ((5,7),(6,5),(1,3),(4,1),(6,12),(7,12),(8,12)) for dy in (0,0.5,-0.3,1) for dx in (0,0.3) for fy in (0,1) for fx in (0,1)]
	out += chunked("size", sz, unit_size_cyl, 16)
	az = [(p,cv,cd,s) for p in ("TAN","ZEA","ARC","SIN","STG") for cv in ([0,0],[50,30],[180,-60]) for cd in ([-0.5,0.5],[0.5,0.25],[-1,-1]) for s in ((5,7),(6,4),(3,3))]
	out += chunked("azi", az, unit_size_azi, 8)
	out += chunked("ops", list(alphabet()), unit_ops, 14)
	out += [("geo2opts", unit_geo2opts, None)]
	return out
