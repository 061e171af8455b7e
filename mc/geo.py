"""The finite alphabet of pixelisations used by the checks.  Built directly with
astropy, i.e. not with the code under test.  World coordinates of the reference
come from astropy's wcslib transform; angles here are radians, ordered (dec,ra)
as in the code under test."""
import numpy as np
from astropy.wcs import WCS
deg = np.pi/180

def mkwcs(proj, crval, cdelt, crpix, extra=None, axes=("RA","DEC")):
	w = WCS(naxis=2)
	if proj == "plain":
		w.wcs.ctype = ["",""]
	else:
		w.wcs.ctype = ["RA---"+proj, "DEC--"+proj]
	w.wcs.crval = crval
	w.wcs.cdelt = cdelt
	w.wcs.crpix = crpix
	if extra:
		w.wcs.set_pv(extra)
	w.wcs.set()
	return w

def alphabet(which="all"):
	"""name -> (ny,nx), wcs"""
	g = {}
	# cylindrical
	g["car"]       = ((5,7),  mkwcs("CAR", [10,0], [-1,1],   [4,3]))
	g["car_off"]   = ((6,5),  mkwcs("CAR", [-170,0], [-2,1.5], [9,-11]))
	g["car_up"]    = ((4,6),  mkwcs("CAR", [0,0],  [1,1],    [2.5,1.5]))
	g["car_down"]  = ((4,5),  mkwcs("CAR", [30,0], [-1,-1],  [3,2]))
	g["car_full"]  = ((7,12), mkwcs("CAR", [0,0],  [-30,30], [6.5,4]))
	g["car_fej"]   = ((6,12), mkwcs("CAR", [15,0], [-30,30], [6,3.5]))
	g["car_full2"] = ((7,12), mkwcs("CAR", [180,0], [30,-30], [6,4]))
	g["cea"]       = ((6,8),  mkwcs("CEA", [40,0], [-3,3],   [4,3.5], [(2,1,1.0)]))
	g["mer"]       = ((6,8),  mkwcs("MER", [-20,0], [-4,4],   [4,3.5]))
	# azimuthal
	g["tan"]       = ((6,7),  mkwcs("TAN", [50,30], [-1,1],  [4,3.5]))
	g["zea"]       = ((6,7),  mkwcs("ZEA", [50,-89], [-2,2], [4,3.5]))
	g["arc"]       = ((5,6),  mkwcs("ARC", [0,90], [-2,2],   [3,3]))
	g["sin"]       = ((5,6),  mkwcs("SIN", [120,45], [-2,2],   [3,3]))
	g["stg"]       = ((5,6),  mkwcs("STG", [350,-45], [2,2],   [3,3]))
	if which == "cyl": return {k:v for k,v in g.items() if k in ("car","car_off","car_up","car_down","car_full","car_fej","car_full2","cea","mer")}
	if which == "noncyl": return {k:v for k,v in g.items() if k in ("tan","zea","arc","sin","stg")}
	return g

def ref_pix2sky(wcs, pix):
	"""pix [{y,x},...] 0-based -> [{dec,ra},...] radians, from wcslib"""
	pix = np.asarray(pix, float)
	flat = pix.reshape(2,-1)
	if flat.shape[1] == 0: return np.zeros(pix.shape)
	w = wcs.wcs_pix2world(flat[::-1].T, 0)
	return (w.T[::-1]*deg).reshape(pix.shape)

def unitvec(dr):
	dec, ra = np.asarray(dr[0],float), np.asarray(dr[1],float)
	return np.array([np.cos(dec)*np.cos(ra), np.cos(dec)*np.sin(ra), np.sin(dec)])

def same_sky(a, b, tol=1e-9):
	"""Elementwise: do the two [{dec,ra},...] arrays point at the same place?"""
	d = np.sqrt(np.sum((unitvec(a)-unitvec(b))**2,0))
	na, nb = ~np.isfinite(np.sum(a,0)), ~np.isfinite(np.sum(b,0))
	return (d < tol) | (na & nb)

def pixgrid(shape):
	ny, nx = shape[-2:]
	return np.array(np.meshgrid(np.arange(ny,dtype=float), np.arange(nx,dtype=float), indexing="ij")).reshape(2,ny,nx)

def ramp(shape, dtype=np.float64, start=1):
	"""Data where every element is distinct and non-zero"""
	n = int(np.prod(shape))
	return (np.arange(n)+start).reshape(shape).astype(dtype)

def wcs_key(wcs):
	w = wcs.wcs
	return (list(w.ctype), np.round(w.crval,9).tolist(), np.round(w.cdelt,9).tolist(), np.round(w.crpix,9).tolist())
