"""C02: pixel <-> sky conversions agree with the FITS coordinate system."""
import numpy as np, itertools
from pixell import enmap, wcsutils, utils
from ..geo import *
from ..core import chunked

RULE   = "every pixel (and half-pixel, and pixels one map width outside) of every geometry in the alphabet, for every option combination; oracle wcslib via astropy plus unit-vector comparison"
BOUNDS = "alphabet of 14 base geometries x crval shifts x flips x sub-pixel crpix shifts, map sides <= 12, offsets to one map width outside"
ASSUME = ["wcslib (astropy) defines the FITS projection", "positions where the projection itself is undefined are excluded"]

def variants(tier):
	"""Geometries derived from the alphabet"""
	out = {}
	for name, (shape, w) in alphabet().items():
		for dra in ((0, 170, -123.4) if tier == "quick" else (0, 90, 170, 180, -90, -123.4, 359)):
			for flip in ("", "y", "x", "xy"):
				for dcrpix in ((0,0),(0.3,-0.25)):
					w2 = w.deepcopy()
					w2.wcs.crval[0] += dra
					if "y" in flip: w2.wcs.cdelt[1] *= -1
					if "x" in flip: w2.wcs.cdelt[0] *= -1
					w2.wcs.crpix[0] += dcrpix[0]; w2.wcs.crpix[1] += dcrpix[1]
					w2.wcs.set()
					out["%s%+g%s%s" % (name, dra, flip, "o" if dcrpix[0] else "")] = (shape, w2)
	return out

def ok_close(ctx, got, want, msg, tol=1e-8):
	ctx.see(want)
	# positions the projection does not define (beyond the poles) are not compared
	good = same_sky(got, want, tol) | ~np.all(np.isfinite(want),0)
	if not np.all(good): ctx.check(False, "%s: got %s want %s deg" % (msg, (got[:,~good].T[0]/deg), (want[:,~good].T[0]/deg)))

def unit(ctx, items):
	geos = variants(ctx.tier)
	for name in items:
		shape, wcs = geos[name]
		ny, nx = shape
		pix   = pixgrid(shape)
		want  = ref_pix2sky(wcs, pix)
		fin   = np.all(np.isfinite(want),0)
		period= abs(360/wcs.wcs.cdelt[0])
		cyl   = wcsutils.is_cyl(wcs)
		with ctx.case("pix2sky", geo=name):
			for safe in (True, False):
				got = enmap.pix2sky(shape, wcs, pix, safe=safe)
				ok_close(ctx, got, want, "pix2sky safe=%s" % safe)
				if not safe: ctx.close(got[:,fin], want[:,fin], atol=1e-9, msg="unprotected result is the raw FITS one")
			# shapes: scalar, list of points, with leading dims
			ok_close(ctx, enmap.pix2sky((3,)+shape, wcs, [1,2])[:,None], want[:,1,2][:,None], "single point")
			ok_close(ctx, enmap.pix2sky(shape, wcs, pix.reshape(2,-1)), want.reshape(2,-1), "flat list")
			ip = pix.astype(int)
			ok_close(ctx, enmap.pix2sky(shape, wcs, ip), want, "integer pixels")
			ctx.eq(ip, pix.astype(int), "input unchanged")
			ok_close(ctx, enmap.pix2sky(shape, wcs, ip+1, corner=True), ref_pix2sky(wcs, pix+0.5), "corner convention")
			ok_close(ctx, enmap.pix2sky(shape, wcs, pix, corner=True), ref_pix2sky(wcs, pix-0.5), "corner convention")
		with ctx.case("sky2pix", geo=name):
			for safe in (0, 1, 2):
				got = enmap.sky2pix(shape, wcs, want[:,fin], safe=safe)
				d   = got - pix[:,fin]
				d[1] -= np.round(d[1]/period)*period if cyl else 0
				# at a pole of a cylindrical map the ra is undefined but returned by ref, so round trip still holds
				ctx.close(d, np.zeros_like(d), atol=1e-6, msg="round trip safe=%s" % safe)
				if safe == 1 and cyl:
					ctx.check(np.all(np.abs(got[1]-nx/2) <= period/2+1e-6), "on the copy of the sky nearest the map", got)
			if cyl and nx <= period:
				# inside the map the protected conversion gives the pixel itself
				got = enmap.sky2pix(shape, wcs, want[:,fin])
				edge= np.abs(np.abs(pix[1][fin]-nx/2)-period/2) < 1e-6
				ctx.close(got[:,~edge], pix[:,fin][:,~edge], atol=1e-6, msg="protected pixels inside the map")
				# any representation of ra gives the same pixel
				for turn in (-2,-1,1,3):
					w2 = want[:,fin].copy(); w2[1] += 2*np.pi*turn
					g2 = enmap.sky2pix(shape, wcs, w2)
					dd = g2-got; dd[1] -= np.round(dd[1]/period)*period
					ctx.close(dd, np.zeros_like(dd), atol=1e-6, msg="turns of ra do not matter")
					ctx.close(g2[:,~edge], got[:,~edge], atol=1e-6, msg="turns of ra do not matter (protected)")
			gc = enmap.sky2pix(shape, wcs, want[:,fin], corner=True)
			d  = gc - 0.5 - pix[:,fin]
			if cyl: d[1] -= np.round(d[1]/period)*period
			ctx.close(d, np.zeros_like(d), atol=1e-6, msg="corner convention")
		with ctx.case("outside", geo=name):
			# half-pixels and pixels outside the map
			yy, xx = np.meshgrid(np.arange(-1.5,ny+1,0.5), np.arange(-nx,2*nx+1,0.5), indexing="ij")
			p2 = np.array([yy,xx]); s2 = ref_pix2sky(wcs, p2)
			f2 = np.all(np.isfinite(s2),0)
			if cyl:
				f2 &= np.abs(s2[0]) < np.pi/2 - 1e-6
				# rows beyond the poles do not exist
				# (cylindrical projections: native latitude is monotonic within the sphere)
				lat_pix = (p2[0]+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]
				lim = {"CAR":90,"CEA":np.degrees(1),"MER":1e9}[str(wcs.wcs.ctype[0])[-3:]]
				f2 &= np.abs(lat_pix) <= lim - 1e-6
				if np.any(f2):
					got = enmap.pix2sky(shape, wcs, p2[:,f2])
					ok_close(ctx, got, s2[:,f2], "pixels outside the map")
					back = enmap.sky2pix(shape, wcs, s2[:,f2]) - p2[:,f2]
					back[1] -= np.round(back[1]/period)*period
					ctx.close(back, np.zeros_like(back), atol=1e-6, msg="round trip outside")
		with ctx.case("posmap", geo=name):
			m = enmap.ndmap(np.zeros((2,)+shape), wcs)
			for safe, corner in itertools.product((True,False),(True,False)):
				w = ref_pix2sky(wcs, pix-0.5) if corner else want
				pm = enmap.posmap(shape, wcs, safe=safe, corner=corner)
				ok_close(ctx, np.asarray(pm), w, "posmap")
				ctx.check(isinstance(pm, enmap.ndmap) and pm.shape == (2,)+shape, "posmap is a map")
				ok_close(ctx, np.asarray(enmap.posmap(shape, wcs, safe=safe, corner=corner, separable=False)), w, "posmap non-separable")
				for bsize in (1, nx, 2*nx+1):
					ok_close(ctx, np.asarray(enmap.posmap(shape, wcs, safe=False, corner=corner, separable=False, bsize=bsize)), w, "posmap in blocks")
				ok_close(ctx, np.asarray(m.posmap(safe=safe, corner=corner)), w, "method")
				ok_close(ctx, np.asarray(enmap.posmap(shape, wcs, dtype=np.float32)).astype(float), want, "float32", tol=1e-6)
				if cyl:
					dec, ra = enmap.posaxes(shape, wcs, safe=safe, corner=corner)
					ok_close(ctx, np.array([np.broadcast_to(dec[:,None],shape), np.broadcast_to(ra[None],shape)]), w, "posaxes")
			if cyl:
				dec, ra = enmap.posaxes(shape, wcs)
				jumps = np.abs(np.diff(ra))
				ctx.check(np.all(jumps < np.pi+1e-9), "protected positions have no jump", ra)
				ctx.close(np.diff(ra), np.zeros(nx-1)+wcs.wcs.cdelt[0]*deg, atol=1e-9, msg="equi-spaced columns")
			ctx.eq(np.asarray(enmap.pixmap(shape, wcs)), pix, "pixmap")
			ctx.eq(np.asarray(m.pixmap()), pix, "pixmap method")
			ctx.eq(np.asarray(enmap.pixmap((3,)+shape)), pix, "pixmap without coordinates")
			for safe, corner, bcheck in itertools.product((False,True),(False,True),(False,True)):
				off = 0.5 if corner else 0.0
				w2 = ref_pix2sky(wcs, np.array(pix)-off); g2 = np.isfinite(w2[0])&np.isfinite(w2[1])
				if wcsutils.is_cyl(wcs): g2 &= np.abs((np.array(pix)[0]-off+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]) <= 90 # beyond the pole there is no sky
				if bcheck and not np.all(g2): continue
				for dt, tol in ((np.float64,1e-8),(np.float32,1e-5)):
					g = enmap.posmap((3,)+shape, wcs, safe=safe, corner=corner, dtype=dt, bcheck=bcheck); ctx.eq(str(g.dtype), str(np.dtype(dt)), "requested precision")
					ctx.check(np.all(same_sky(np.asarray(g,dtype=float)[:,g2], w2[:,g2], tol)), "posmap safe=%s corner=%s bcheck=%s" % (safe,corner,bcheck), state=w2)
					if wcsutils.is_separable(wcs):
						d, r = enmap.posaxes((3,)+shape, wcs, safe=safe, corner=corner, dtype=dt, bcheck=bcheck); ctx.eq([str(d.dtype),str(r.dtype)], [str(np.dtype(dt))]*2, "requested precision of axes")
						g = np.array([np.broadcast_to(d[:,None],shape), np.broadcast_to(r[None],shape)]).astype(float)
						ctx.check(np.all(same_sky(g[:,g2], w2[:,g2], tol)), "posaxes safe=%s corner=%s bcheck=%s" % (safe,corner,bcheck), state=w2)
			lm = np.asarray(enmap.lmap(shape, wcs)); pl = enmap.pix2l(shape, wcs, pix)
			ctx.close(pl, lm, atol=1e-9*np.max(np.abs(lm)), msg="pix2l gives each Fourier pixel's multipole")
			ctx.close(enmap.l2pix(shape, wcs, lm), np.asarray(pix,dtype=float), atol=1e-9, msg="l2pix gives it back")
			ctx.close(enmap.pix2l((2,)+shape, wcs, [1,2]), lm[:,1,2], atol=1e-9*np.max(np.abs(lm)), msg="one pixel"); ctx.close(enmap.l2pix((2,)+shape, wcs, lm[:,1,2]), [1.0,2.0], msg="one multipole")
		with ctx.case("separable", geo=name):
			sep = np.allclose(unitvec(want), unitvec([np.broadcast_to(want[0][:,:1],shape), np.broadcast_to(want[1][:1],shape)]), atol=1e-9) if np.all(fin) else False
			if np.all(fin) and wcsutils.is_separable(wcs): ctx.check(sep, "a geometry treated as separable is separable")
			ctx.eq(bool(wcsutils.is_cyl(wcs)), str(wcs.wcs.ctype[0])[-3:] in ("CAR","CEA","MER"), "cylindrical")
			ctx.eq(bool(wcsutils.is_plain(wcs)), False, "plain")
		if cyl:
			with ctx.case("corners", geo=name):
				for corner in (True, False):
					lo, hi = (-0.5, 0.5) if corner else (0, 0)
					ends = np.array([[lo,ny-1+hi],[lo,nx-1+hi]])
					# rows past the poles are undefined
					if np.any(np.abs((ends[0]+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]) > 90 + (0 if "cea" not in name else -32)): continue
					for npoint in (10, 25):
						c = enmap.corners(shape, wcs, npoint=npoint, corner=corner)
						w = ref_pix2sky(wcs, ends)
						ok_close(ctx, c.T, w, "corners")
						span = (nx-1 + (1 if corner else 0))*wcs.wcs.cdelt[0]*deg
						ctx.close(c[1,1]-c[0,1], span, atol=1e-8, msg="ra span of the box is that of the map")
						ctx.eq(np.asarray(enmap.box(shape, wcs, npoint=npoint, corner=corner)), c, "box alias")
			with ctx.case("skybox", geo=name):
				# pixel box -> sky box -> pixel box
				for y1,y2,x1,x2 in itertools.product((0,1),(ny-2,ny-1),(0,2),(nx-2,nx-1)):
					if y1 == y2 or x1 == x2: continue
					if not (fin[y1,x1] and fin[y2,x2]) or (abs(x2-x1)*abs(wcs.wcs.cdelt[0]) >= 180): continue
					pb = np.array([[y1,x1],[y2,x2]],float)
					sb = enmap.pixbox2skybox(shape, wcs, pb)
					ok_close(ctx, sb.T, ref_pix2sky(wcs, pb.T), "pixbox2skybox")
					back = enmap.skybox2pixbox(shape, wcs, sb)
					d = back-pb; d[:,1] -= np.round(d[:,1]/period)*period
					ctx.close(d, np.zeros((2,2)), atol=1e-6, msg="skybox2pixbox")
					for npt, cor in ((2,False),(5,False),(10,True),(37,True)):
						b2 = enmap.skybox2pixbox(shape, wcs, sb, npoint=npt, corner=cor); d = b2-pb-(0.5 if cor else 0); d[:,1] -= np.round(d[:,1]/period)*period
						ctx.close(d, np.zeros((2,2)), atol=1e-6, msg="skybox2pixbox with %d points, corner=%s" % (npt, cor))
					ctx.close(back[1]-back[0], pb[1]-pb[0], atol=1e-6, msg="box size")
					b3 = enmap.skybox2pixbox(shape, wcs, sb, include_direction=True)
					ctx.eq(np.asarray(b3[2]), np.sign(pb[1]-pb[0]), "direction")
					b3 = enmap.skybox2pixbox(shape, wcs, sb[::-1], include_direction=True)
					ctx.eq(np.asarray(b3[2]), -np.sign(pb[1]-pb[0]), "direction of a reversed box")
		with ctx.case("positions", geo=name):
			cpix = np.array([(ny-1)/2,(nx-1)/2])
			cref = ref_pix2sky(wcs, cpix)
			c = enmap.center(shape, wcs)
			ctx.check(same_sky(np.array(c)[:,None], cref[:,None], 1e-8)[0], "centre position", cref)
			# extreme value positions, for every pixel being the extreme one
			for y, x in itertools.product(range(ny), range(nx)):
				if not fin[y,x]: continue
				m = enmap.ndmap(np.zeros((2,)+shape), wcs); m[0,y,x] = 1; m[1,ny-1-y,x] = 1
				am = enmap.argmax(m, unit="pix")
				ctx.eq(np.asarray(am).astype(int).tolist(), [[y,x],[ny-1-y,x]], "argmax pixel")
				an = enmap.argmin(-m[0], unit="pix")
				ctx.eq(np.asarray(an).astype(int).tolist(), [y,x], "argmin pixel")
				ac = m[0].argmax()
				ok_close(ctx, np.asarray(ac)[:,None], want[:,y,x][:,None], "argmax position")
				if not fin[ny-1-y,x]: continue
				for ac in (enmap.argmax(m), enmap.argmin(-m), enmap.argmax(m, unit="coord"), m.argmax(unit="coord")):
					ctx.eq(np.asarray(ac).shape, (2,2), "one position per component")
					ok_close(ctx, np.asarray(ac).T, np.array([want[:,y,x],want[:,ny-1-y,x]]).T, "extreme value position per component")
				m4 = enmap.ndmap(np.zeros((2,3)+shape), wcs)
				for i in range(2):
					for j in range(3): m4[i,j,(y+i)%ny,(x+j)%nx] = -1
				ctx.eq(np.asarray(enmap.argmin(m4, unit="pix")).astype(int).tolist(), [[[(y+i)%ny,(x+j)%nx] for j in range(3)] for i in range(2)], "argmin with two leading axes")
				if np.all(fin):
					ac = np.asarray(enmap.argmin(m4)); ctx.eq(ac.shape, (2,3,2), "argmin positions with two leading axes")
					for i in range(2):
						for j in range(3): ok_close(ctx, ac[i,j][:,None], want[:,(y+i)%ny,(x+j)%nx][:,None], "argmin position with two leading axes")
			# distance from a reference point
			for ref in ("center", np.array(want[:,0,0]), np.array(want[:,ny//2,nx-1])):
				if not np.all(np.isfinite(want)): break
				r = np.asarray(enmap.modrmap(shape, wcs, ref=ref))
				rp = np.array(enmap.center(shape, wcs)) if isinstance(ref,str) else ref
				dv = np.sqrt(np.sum((unitvec(want)-unitvec(rp)[:,None,None])**2,0))
				ctx.close(r, 2*np.arcsin(np.clip(dv/2,0,1)), atol=2e-7, msg="distance map")
			# containment: all pixel centres are inside, points well outside are not
			if np.all(fin): ctx.check(bool(np.all(enmap.contains(shape, wcs, want[:,1:,1:]))), "interior pixel centres are contained")
			ctx.eq(np.asarray(enmap.contains(shape, wcs, np.array([[-3,1,ny+2,1],[1,-3,1,nx+2]],float), unit="pix")).tolist(), [False]*4, "outside")

def unit_wcs(ctx, items):
	"""equality, copies and reporting of coordinate systems"""
	geos = variants("quick")
	names = list(geos)
	keys  = [wcs_key(geos[n][1]) for n in names]
	for i in items:
		n1 = names[i]; w1 = geos[n1][1]
		with ctx.case("wcs-equal", geo=n1):
			c = w1.deepcopy()
			ctx.check(wcsutils.equal(w1, c), "equal to its copy")
			ctx.check(wcsutils.is_compatible(w1, c), "compatible with its copy")
			for d in ((1,0),(0,-3),(5,2)):
				s = w1.deepcopy(); s.wcs.crpix += d
				ctx.check(wcsutils.is_compatible(w1, s), "compatible with whole-pixel shift")
				ctx.check(not wcsutils.equal(w1, s), "not equal to a shifted one")
			for d in ((0.5,0),(0,0.25)):
				s = w1.deepcopy(); s.wcs.crpix += d
				ctx.check(not wcsutils.is_compatible(w1, s), "not compatible with a fractional shift")
			s = w1.deepcopy(); s.wcs.cdelt *= 2
			ctx.check(not wcsutils.is_compatible(w1, s), "not compatible with another resolution")
			ctx.check(not wcsutils.equal(w1, s), "not equal with another resolution")
			if wcsutils.is_cyl(w1):
				s = w1.deepcopy(); k = 3; s.wcs.crval[0] += k*s.wcs.cdelt[0]; s.wcs.crpix[0] += k
				ctx.check(wcsutils.is_compatible(w1, s), "compatible when the reference moves by whole pixels along a cylinder")
		with ctx.case("wcs-equal-pairs", geo=n1):
			for n2 in names[::7]:
				w2 = geos[n2][1]
				same = wcs_key(w1) == wcs_key(w2)
				ctx.eq(bool(wcsutils.equal(w1, w2)), same, "equality with "+n2)
		with ctx.case("wcs-io", geo=n1):
			# header round trip keeps the coordinates
			from astropy.wcs import WCS
			hdr = w1.to_header(relax=True)
			back = wcsutils.WCS(hdr)
			shape = geos[n1][0]
			a, b = ref_pix2sky(w1, pixgrid(shape)), ref_pix2sky(back, pixgrid(shape))
			ctx.see(a); ctx.check(np.all(same_sky(a,b,1e-9)), "header round trip")
			ctx.check(isinstance(wcsutils.describe(w1), str), "describe")
			sc = wcsutils.scale(w1, [2,3], rowmajor=True)
			pg = pixgrid((5,7))
			# pixel edges are preserved: position y in old <-> (y+0.5)*2-0.5 in new
			newp = np.array([(pg[0]+0.5)*2-0.5, (pg[1]+0.5)*3-0.5])
			a, b = ref_pix2sky(w1, pg), ref_pix2sky(sc, newp)
			ctx.see(b); ctx.check(np.all(same_sky(a,b,1e-8)), "scaling keeps pixel edges")
			ex = wcsutils.expand(w1, 2, rowmajor=True) if hasattr(wcsutils,"expand") else None

def unit_plain(ctx, items):
	"""plain (non-spherical) coordinate systems: linear, no wrapping"""
	for cdelt in ((1,1),(-0.5,2),(100,300)):
		for crpix in ((1,1),(3,-2.5)):
			w = mkwcs("plain",[5,-7],cdelt,crpix)
			for shape in ((3,4),(1,6)):
				with ctx.case("plain", cdelt=cdelt, crpix=crpix, shape=shape):
					pix = pixgrid(shape)
					want = np.array([(pix[0]+1-crpix[1])*cdelt[1]-7, (pix[1]+1-crpix[0])*cdelt[0]+5])*deg
					ctx.check(wcsutils.is_plain(w), "plain")
					ctx.close(enmap.pix2sky(shape,w,pix), want, msg="pix2sky")
					ctx.close(enmap.sky2pix(shape,w,want), pix, atol=1e-8, msg="sky2pix")
					ctx.close(np.asarray(enmap.posmap(shape,w)), want, msg="posmap")
					c = enmap.corners(shape, w, corner=False)
					ctx.close(c, want[:,[0,-1],[0,-1]].T, msg="corners")

def units(tier):
	names = list(variants(tier))
	out  = chunked("geo", names, unit, 24)
	out += chunked("wcs", list(range(0,len(variants("quick")))), unit_wcs, 8)
	out += [("plain", unit_plain, [0])]
	return out
