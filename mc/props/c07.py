"""C07: maps survive storage; partial and lazy reads equal reading then cutting."""
import numpy as np, itertools, os, warnings, io
import astropy.io.fits, h5py
from pixell import enmap, wcsutils, utils
from ..geo import *
from ..core import chunked

RULE   = "every format x data type x shape x geometry round trip; every selection of the alphabet through every read path (whole image, section reads, lazy, address, HDU, name suffix) with and without a recorded sign convention; every sequence of up to 3 accesses to a lazily loaded map; oracle: numpy indexing / the in-memory operation on the array that was written"
BOUNDS = "maps to 3x2x6x9 pixels; 13 geometries; 5 storage paths; 23 index expressions; access sequences of length 3 over 6 selections (216 histories) per storage path"
ASSUME = ["astropy.io.fits and h5py store arrays faithfully", "list indices into large compressed images are outside the claim (astropy does not support them)", "in-memory cutting operations are those checked by C01/C04"]

DT = [np.float64, np.float32, np.int16, np.int32, np.int64, np.uint8]
def fitsname(ctx, name): return os.path.join(ctx.wdir, name)

def same_wcs(ctx, a, b, msg="coordinate system"):
	ctx.eq([str(v) for v in a.wcs.ctype], [str(v) for v in b.wcs.ctype], msg+": projection")
	ctx.close(a.wcs.crval, b.wcs.crval, rtol=1e-10, msg=msg+": crval"); ctx.close(a.wcs.cdelt, b.wcs.cdelt, rtol=1e-10, msg=msg+": cdelt"); ctx.close(a.wcs.crpix, b.wcs.crpix, rtol=1e-10, msg=msg+": crpix")

def same_map(ctx, got, want, msg=""):
	ctx.eq(np.asarray(got), np.asarray(want), msg+" values")
	ctx.eq(str(np.asarray(got).dtype), str(np.asarray(want).dtype), msg+" data type")
	if isinstance(want, enmap.ndmap):
		ctx.check(isinstance(got, enmap.ndmap), msg+" is a map")
		same_wcs(ctx, got.wcs, want.wcs, msg)

def unit_roundtrip(ctx, items):
	for name, pre in items:
		w0 = alphabet()[name][1] if name != "plain" else mkwcs("plain",[3,4],[0.5,-0.25],[2,3.5])
		shape = (4,5)
		for ext, dt in itertools.product((".fits",".fits.gz",".hdf"), DT+[np.int8,np.uint16,np.complex128]):
			if dt == np.complex128 and ext != ".hdf": continue
			with ctx.case("round trip", geo=name, shape=pre+shape, fmt=ext, dtype=np.dtype(dt).name):
				data = (ramp(pre+shape) % 120).astype(dt)
				if np.dtype(dt).kind in "fc": data[...,1,1] = np.nan; data[...,2,3] = -1e-30; data /= 3
				m = enmap.ndmap(data.copy(), w0); key = wcs_key(m.wcs)
				f = fitsname(ctx, "a"+ext)
				enmap.write_map(f, m, extra={"FOO":17})
				ctx.eq(np.asarray(m), data, "map in memory unchanged"); ctx.eq(str(m.dtype), str(data.dtype), "map in memory unchanged"); ctx.eq(wcs_key(m.wcs), key, "map in memory unchanged")
				with warnings.catch_warnings():
					warnings.simplefilter("ignore")
					r = enmap.read_map(f)
					same_map(ctx, r, m, "read back")
					ctx.check(r.flags["WRITEABLE"] and r.flags["OWNDATA"] or r.base is not None, "usable")
					r += 1
					same_map(ctx, enmap.read_map(f), m, "file unaffected by changing what was read")
					s, w = enmap.read_map_geometry(f)
					ctx.eq(tuple(s), pre+shape, "stored shape"); same_wcs(ctx, w, w0, "stored coordinates")
					ctx.eq(np.dtype(enmap.read_map_dtype(f)), np.dtype(dt), "stored data type")
				if ext == ".fits":
					ctx.eq(astropy.io.fits.getheader(f)["FOO"], 17, "extra header")
					# explicit format, other name, overwriting
					f2 = fitsname(ctx, "weird.name"); enmap.write_map(f2, m+1, fmt="fits"); enmap.write_map(f2, m, fmt="fits")
					same_map(ctx, enmap.read_map(f2, fmt="fits"), m, "explicit format"); same_map(ctx, enmap.read_map(f2), m, "default format")
					big = enmap.ndmap(data.astype(np.dtype(dt).newbyteorder(">")), w0)
					enmap.write_map(f2, big); ctx.eq(np.asarray(enmap.read_map(f2)), data, "big-endian map"); ctx.eq(np.asarray(big), data, "big-endian map unchanged")
					buf = io.BytesIO(); enmap.write_fits(buf, m); buf.seek(0); same_map(ctx, enmap.read_fits(buf), m, "file object")
					# a view with a non-trivial layout
					v = enmap.ndmap(np.ascontiguousarray(np.swapaxes(data,-1,-2)), w0); v = enmap.ndmap(np.swapaxes(v,-1,-2), w0)
					enmap.write_map(f2, v); same_map(ctx, enmap.read_map(f2), m, "transposed layout")
				if ext == ".hdf":
					f2 = fitsname(ctx, "b.hdf")
					if os.path.exists(f2): os.unlink(f2)
					enmap.write_map(f2, m, address="one/x"); enmap.write_map(f2, m*0, address="two"); enmap.write_map(f2, m[...,1:,:], address="two")
					same_map(ctx, enmap.read_map(f2, address="one/x"), m, "addressed"); same_map(ctx, enmap.read_map(f2, address="two"), m[...,1:,:], "replaced")
					s, w = enmap.read_map_geometry(f2, address="two"); ctx.eq(tuple(s), m[...,1:,:].shape, "addressed shape"); same_wcs(ctx, w, m[...,1:,:].wcs)
					ctx.eq(np.dtype(enmap.read_map_dtype(f2, address="one/x")), np.dtype(dt), "addressed data type")
					with h5py.File(f2,"r") as h: same_map(ctx, enmap.read_hdf(h, address="one/x"), m, "open file"); same_map(ctx, enmap.read_hdf(h["two"]), m[...,1:,:], "open group")
		with ctx.case("geometry file", geo=name, shape=pre+shape):
			f = fitsname(ctx, "g.fits"); enmap.write_map_geometry(f, pre+shape, w0)
			s, w = enmap.read_map_geometry(f); ctx.eq(tuple(s), pre+shape, "shape"); same_wcs(ctx, w, w0)
		with ctx.case("long header", geo=name, shape=pre+shape):
			# a file whose coordinate cards do not come first
			m = enmap.ndmap(ramp(pre+shape), w0); f = fitsname(ctx, "long.fits")
			h = astropy.io.fits.Header()
			for i in range(45): h["KEY%d"%i] = i
			h.update(w0.to_header(relax=True))
			astropy.io.fits.PrimaryHDU(np.asarray(m), h).writeto(f, overwrite=True)
			same_map(ctx, enmap.read_map(f), m, "foreign file")
			s, w = enmap.read_map_geometry(f); ctx.eq(tuple(s), pre+shape, "shape"); same_wcs(ctx, w, w0)
			ctx.eq(np.dtype(enmap.read_map_dtype(f)), np.dtype(np.float64), "data type")
			s, w = enmap.read_fits_geometry(open(f,"rb")); ctx.eq(tuple(s), pre+shape, "shape from file object"); same_wcs(ctx, w, w0)

def unit_opts(ctx, items):
	"""Explicit formats, extensions, coordinate overrides and plain array files"""
	warnings.simplefilter("ignore")
	for name, pre in items:
		w0 = alphabet()[name][1]; shape = (4,6); data = ramp(pre+shape).astype(np.float32); m = enmap.ndmap(data.copy(), w0)
		w1 = mkwcs("CAR",[7,0],[-2,2],[1,2])
		for ext, fmt in itertools.product((".fits",".fits.gz",".hdf",".dat",""), (None,"fits","hdf")):
			real = fmt or ("hdf" if ext == ".hdf" else "fits")
			if real == "fits" and ext == ".hdf" : pass
			with ctx.case("explicit format", geo=name, pre=pre, ext=ext, fmt=fmt):
				f = fitsname(ctx, "sub_%s/x%s" % (real, ext))
				m.write(f, fmt=fmt) if fmt else m.write(f)
				ctx.eq(open(f,"rb").read(4) == b"\x89HDF", real == "hdf", "format of the file")
				same_map(ctx, enmap.read_map(f, fmt=real), m, "read back"); s, w = enmap.read_map_geometry(f, fmt=real if ext != ".fits.gz" or real == "hdf" else None)
				ctx.eq(tuple(s), m.shape, "shape"); same_wcs(ctx, w, w0); ctx.eq(np.dtype(enmap.read_map_dtype(f, fmt=real if ext != ".fits.gz" or real == "hdf" else None)), m.dtype, "data type")
				r = enmap.read_map(f, fmt=real, wcs=w1); ctx.eq(np.asarray(r), data, "values with other coordinates"); same_wcs(ctx, r.wcs, w1, "replaced coordinates")
				r = enmap.read_map(f, fmt=real, wcs=w1, sel=S[...,1:3,::2]); same_map(ctx, r, enmap.ndmap(data, w1)[...,1:3,::2], "selection with replaced coordinates")
				r = enmap.read_map(f, fmt=real, wcs=w1, pixbox=[[1,2],[3,5]]); same_map(ctx, r, enmap.ndmap(data, w1)[...,1:3,2:5], "pixel box with replaced coordinates")
				r = enmap.read_map(f+":[...,1:3,2:5]", fmt=real); same_map(ctx, r, m[...,1:3,2:5], "selection in the name")
				p = enmap.read_map(f, fmt=real, delayed=True); ctx.eq(tuple(p.shape), m.shape, "lazy shape"); ctx.eq(np.dtype(p.dtype).newbyteorder("="), m.dtype, "lazy type"); ctx.eq(p.ndim, m.ndim, "lazy ndim"); ctx.eq(tuple(p.geometry[0]), m.shape, "lazy geometry"); ctx.eq(int(p.npix), 24, "lazy npix")
				same_map(ctx, p[...], m, "lazy map"); st, _ = p.stamps([[0,1],[2,3]], (2,2), aslist=True), None
				for a, (y,x) in zip(st, ((0,1),(2,3))): ctx.eq(np.asarray(a), data[...,y:y+2,x:x+2], "lazy stamps")
				ctx.raises(lambda: enmap.read_map(f, fmt="foo"), ValueError, "unknown format"); ctx.raises(lambda: enmap.write_map(f+"2", m, fmt="foo"), ValueError, "unknown format")
				ctx.raises(lambda: enmap.read_map_geometry(f, fmt="foo"), ValueError, "unknown format"); ctx.raises(lambda: enmap.read_map_dtype(f, fmt="foo"), ValueError, "unknown format")
		with ctx.case("hdus", geo=name, pre=pre):
			f = fitsname(ctx, "multi.fits"); m2 = enmap.ndmap((data*2).astype(np.int16), w0)[...,1:,:4]
			H = astropy.io.fits; H.HDUList([H.PrimaryHDU(data, w0.to_header(relax=True)), H.ImageHDU(np.asarray(m2), m2.wcs.to_header(relax=True), name="SECOND")]).writeto(f, overwrite=True)
			for hdu, want in ((None,m),(0,m),(1,m2),("SECOND",m2)):
				same_map(ctx, enmap.read_map(f, hdu=hdu), want, "hdu"); same_map(ctx, enmap.read_map(f, hdu=hdu, sel=S[...,1:,2:], sel_threshold=0), want[...,1:,2:], "hdu selection"); same_map(ctx, enmap.read_map(f, hdu=hdu, verbose=True), want, "verbose")
				s, w = enmap.read_map_geometry(f, hdu=hdu); ctx.eq(tuple(s), want.shape, "hdu shape"); same_wcs(ctx, w, want.wcs, "hdu coordinates"); ctx.eq(np.dtype(enmap.read_map_dtype(f, hdu=hdu)), want.dtype, "hdu data type")
		with ctx.case("npy", geo=name, pre=pre):
			f = fitsname(ctx, "a.npy"); np.save(f, data)
			for kw in ({},{"fmt":"npy"}):
				r = enmap.read_map(f, **kw); ctx.eq(np.asarray(r), data, "values"); ctx.check(isinstance(r, enmap.ndmap), "a map")
				same_map(ctx, enmap.read_map(f, wcs=w0, **kw), m, "with coordinates")
				same_map(ctx, enmap.read_map(f, wcs=w0, sel=S[...,1:3,::2], **kw), m[...,1:3,::2], "selection")
				same_map(ctx, enmap.read_map(f, wcs=w0, pixbox=[[1,2],[3,5]], **kw), m[...,1:3,2:5], "pixel box")
				same_map(ctx, enmap.read_map(f, wcs=w0, geometry=m[...,1:3,2:5].geometry, **kw), m[...,1:3,2:5], "geometry")
			same_map(ctx, enmap.read_map(f+":[...,1:3,2:5]", wcs=w0), m[...,1:3,2:5], "selection in the name")

# --- selections ---------------------------------------------------------
GEOS = {"car": ((6,9), mkwcs("CAR",[10,0],[-1,1],[4,3])), "full": ((5,12), mkwcs("CAR",[0,0],[-30,30],[6.5,3])), "tan": ((6,9), mkwcs("TAN",[50,30],[-1,1],[4,3.5]))}
S = np.s_
PIXSEL = ["...", "...,1:4,2:7", "...,::2,::3", "...,::-1,:", "...,:,::-1", "...,4:1:-1,7:2:-2", "...,-3:,-4:-1", "...,2:2,:", "...,:50,-50:", "...,1:3", "...,2,:", "...,3", "...,2,3", "...,-1,::2"]
PRESEL = {0: [""], 1: ["", "0", "2", "-1", "1:", "::-1", "[2,0]", "::2"], 2: ["", "1", "1,2", ":,2", ":,1:", "0,::-1", "::-1,::-1", "-1,[0,2]", ":,-1"], 3: ["", "1", ":,2", "0,1:,1", ":,::-1", "-1,[0,2]", ":,:,1"]}

def selections(npre):
	out = []
	for p in PRESEL[npre]:
		for q in PIXSEL:
			out.append((p+"," if p else "")+q)
		if p: out.append(p)
	return [(s, eval("S["+s+"]", {"S": S})) for s in out]

def stores(ctx, data, w0, flip):
	"""Write data in each storage path; yields (name, read function, truth)"""
	npre = data.ndim-2
	extra, truth = {}, data.copy()
	if flip:
		# last leading axis is a Stokes axis; convention in the file says U has the other sign
		ax = {"iau_first":0, "iau_mid":1}.get(flip, npre-1)
		crv, crp, cd = {"iau_off":(2,2,1), "iau_rev":(3,1,-1)}.get(flip,(1,1,1))
		k = npre+2-ax
		extra = {"CTYPE%d"%k:"STOKES","CRPIX%d"%k:crp,"CRVAL%d"%k:crv,"CDELT%d"%k:cd}
		if flip != "iau_nokey": extra["POLCONV" if flip == "iau_oldkey" else "POLCCONV"] = "COSMO" if flip == "cosmo" else "IAU"
		if flip != "cosmo":
			u = int(round((3-crv)/cd+crp))-1
			if 0 <= u < data.shape[ax]: truth[(slice(None),)*ax+(u,)] *= -1
	m = enmap.ndmap(data, w0)
	f = fitsname(ctx, "s.fits"); enmap.write_map(f, m, extra=extra)
	out = [("fits", lambda **k: enmap.read_map(f, **k), truth), ("fits-section", lambda **k: enmap.read_map(f, sel_threshold=0, **k), truth)]
	g = fitsname(ctx, "h.fits")
	h = w0.to_header(relax=True)
	for k,v in extra.items(): h[k] = v
	hl = [astropy.io.fits.PrimaryHDU(), astropy.io.fits.ImageHDU(data, h)]
	if data.dtype.kind == "i": hl.append(astropy.io.fits.CompImageHDU(data, h, compression_type="GZIP_1"))
	with warnings.catch_warnings():
		warnings.simplefilter("ignore"); astropy.io.fits.HDUList(hl).writeto(g, overwrite=True)
	out.append(("fits-hdu", lambda **k: enmap.read_map(g, hdu=1, **k), truth))
	if data.dtype.kind == "i":
		out.append(("fits-compressed", lambda **k: enmap.read_map(g, hdu=2, **k), truth))
		out.append(("fits-compressed0", lambda **k: enmap.read_map(g, hdu=2, sel_threshold=0, **k), truth))
	if not flip:
		b = fitsname(ctx, "s.hdf"); enmap.write_map(b, m)
		out += [("hdf", lambda **k: enmap.read_map(b, **k), data), ("hdf-big", lambda **k: enmap.read_map(b, sel_threshold=0, **k), data)]
	return out

def unit_select(ctx, items):
	warnings.simplefilter("ignore")
	for name, pre, dt, flip in items:
		shape, w0 = GEOS[name]
		data = (ramp(pre+shape)).astype(dt)
		for sname, read, truth in stores(ctx, data, w0, flip):
			T = enmap.ndmap(truth, w0)
			for txt, sel in selections(len(pre)):
				if sname == "fits-compressed0" and "[" in txt: continue
				try: np.asarray(T)[sel]
				except IndexError: continue   # selection does not exist for this shape
				with ctx.case("selection", geo=name, shape=pre+shape, dtype=np.dtype(dt).name, flip=flip, store=sname, sel=txt):
					want = T[sel]
					got  = read(sel=sel)
					same_map(ctx, got, want, "read with selection")
			with ctx.case("lazy attributes", geo=name, shape=pre+shape, flip=flip, store=sname):
				p = read(delayed=True)
				ctx.eq(tuple(p.shape), pre+shape, "shape"); ctx.eq(p.ndim, len(pre)+2, "ndim"); ctx.eq(p.npix, shape[0]*shape[1], "npix"); same_wcs(ctx, p.wcs, w0)
				ctx.eq(np.dtype(p.dtype), np.dtype(dt), "dtype"); ctx.eq(tuple(p.geometry[0]), pre+shape, "geometry")
				same_map(ctx, p[:], T, "materialised"); ctx.close(np.asarray(p.posmap()), np.asarray(T.posmap()), msg="posmap"); ctx.close(p.area(), T.area(), msg="area")
				ctx.close(p.sky2pix([0.1,0.2]), T.sky2pix([0.1,0.2]), msg="sky2pix")

LAZY = ["...,1:4,2:7", "...", "...,::-1,::-1", "...,2,:", "...,1:3", "...,3:,3:"]
def unit_history(ctx, items):
	warnings.simplefilter("ignore")
	for name, pre, dt, flip in items:
		shape, w0 = GEOS[name]
		data = ramp(pre+shape).astype(dt)
		ops = [(s, eval("S["+s+"]", {"S":S})) for s in LAZY]
		for sname, read, truth in stores(ctx, data, w0, flip):
			T = enmap.ndmap(truth, w0)
			for seq in itertools.product(range(len(ops)), repeat=2 if ctx.quick else 3):
				with ctx.case("lazy history", geo=name, shape=pre+shape, dtype=np.dtype(dt).name, flip=flip, store=sname, accesses=[ops[i][0] for i in seq]):
					p = read(delayed=True)
					prev = []
					for i in seq:
						got = p[ops[i][1]]
						same_map(ctx, got, T[ops[i][1]], "access %s" % ops[i][0])
						for a, b in prev: ctx.eq(np.asarray(a), b, "earlier results unchanged")
						prev.append((got, np.array(got)))
					# changing what was handed out does not change the map
					g = p[:]; g[:] = 0
					same_map(ctx, p[:], T, "map after writing to a result")

def unit_boxes(ctx, items):
	warnings.simplefilter("ignore")
	for name, pre, flip in items:
		shape, w0 = GEOS[name]
		ny, nx = shape
		data = ramp(pre+shape)
		for sname, read, truth in stores(ctx, data, w0, flip):
			T = enmap.ndmap(truth, w0)
			pbs = [[[1,2],[4,7]],[[0,0],[ny,nx]],[[-2,-3],[3,4]],[[2,5],[ny+3,nx+6]],[[3,nx+1],[5,nx+4]],[[4,6],[1,2]],[[4,6],[1,2],[-1,-2]]]
			if name == "full": pbs += [[[0,-14],[3,-2]],[[1,20],[3,26]]]
			for pb in pbs:
				for wrap in ("auto",0):
					with ctx.case("pixbox", geo=name, shape=pre+shape, flip=flip, store=sname, pixbox=pb, wrap=wrap):
						same_map(ctx, read(pixbox=np.array(pb), wrap=wrap), enmap.extract_pixbox(T, np.array(pb), wrap=wrap), "pixel box")
						same_map(ctx, read(delayed=True).extract_pixbox(np.array(pb), wrap=wrap), enmap.extract_pixbox(T, np.array(pb), wrap=wrap), "lazy pixel box")
						same_map(ctx, read(pixbox=np.array(pb), wrap=wrap, sel=np.s_[...,1:3,::-2]), enmap.extract_pixbox(T, np.array(pb), wrap=wrap)[...,1:3,::-2], "pixel box then selection")
			if name != "tan":
				for mode in (None,"round","floor","ceil","inclusive","exclusive"):
					for (y1,x1),(y2,x2) in (((0.3,1.2),(3.4,5.1)),((-1.4,2.6),(3.0,nx+2.3)),((1.2,6.7),(4.4,1.1)),((4.2,2.3),(1.1,5.2))):
						c = enmap.pix2sky(shape, w0, np.array([[y1,y2],[x1,x2]]))
						box = c.T
						with ctx.case("skybox", geo=name, shape=pre+shape, flip=flip, store=sname, corners=((y1,x1),(y2,x2)), mode=mode):
							same_map(ctx, read(box=box, mode=mode), enmap.submap(T, box, mode=mode), "sky box")
							same_map(ctx, read(delayed=True).submap(box, mode=mode), enmap.submap(T, box, mode=mode), "lazy sky box")
							if mode in (None,"inclusive"): same_map(ctx, read(box=box, mode=mode, sel=np.s_[...,1:,::-2]), enmap.submap(T, box, mode=mode)[...,1:,::-2], "sky box then selection")
							if mode is None and name == "car": same_map(ctx, read(box=box, recenter=True), enmap.submap(T, box, recenter=True), "recentred")
			for dy, dx, s in ((0,0,(ny,nx)),(1,2,(3,4)),(-2,-1,(4,6)),(3,7,(6,5)),(20,0,(2,3))):
				w2 = w0.deepcopy(); w2.wcs.crpix[0] -= dx; w2.wcs.crpix[1] -= dy
				with ctx.case("geometry", geo=name, shape=pre+shape, flip=flip, store=sname, off=(dy,dx), size=s):
					want = enmap.extract(T, s, w2)
					same_map(ctx, read(geometry=(s,w2)), want, "target geometry")
					same_map(ctx, read(delayed=True).extract(s, w2), want, "lazy extract")
					if pre: same_map(ctx, read(geometry=(s,w2), sel=np.s_[0]), want[0], "geometry then selection")
			with ctx.case("stamps", geo=name, shape=pre+shape, flip=flip, store=sname):
				pos = np.array([enmap.pix2sky(shape,w0,[2,3]),enmap.pix2sky(shape,w0,[4,6])])
				a, b = read(delayed=True).stamps(pos, (3,3)), enmap.stamps(T, pos, (3,3))
				ctx.eq(np.asarray(a), np.asarray(b), "stamps")

def unit_suffix(ctx, items):
	for name, pre in items:
		shape, w0 = GEOS[name]
		m = enmap.ndmap(ramp(pre+shape), w0)
		for ext in (".fits",".hdf"):
			f = fitsname(ctx, "x"+ext); enmap.write_map(f, m)
			sels = ["[...,1:4,2:7]","[...,::2,::-1]","[...,:3]"] + (["[1:4,2:7]","[1:3]"] if not pre else ["[0]","[1:,2:4]","[0,1:3,2:5]","[:,1:3]","[0][1:3,2:5]"])
			for s in sels:
				with ctx.case("name suffix", geo=name, shape=pre+shape, fmt=ext, sel=s):
					want = eval("m"+s)
					same_map(ctx, enmap.read_map(f+":"+s), want, "map")
				with ctx.case("name suffix geometry", geo=name, shape=pre+shape, fmt=ext, sel=s):
					shp, w = enmap.read_map_geometry(f+":"+s)
					ctx.eq(tuple(shp), want.shape, "shape"); same_wcs(ctx, w, want.wcs)
				with ctx.case("name suffix dtype", geo=name, fmt=ext, sel=s):
					ctx.eq(np.dtype(enmap.read_map_dtype(f+":"+s)), np.dtype(np.float64), "dtype")

def units(tier):
	q = tier == "quick"
	geos = [g for g in alphabet()]+["plain"]
	if q: geos = ["car","car_off","car_down","car_fej","cea","mer","tan","zea","plain"]
	out = chunked("roundtrip", [(g,p) for g in geos for p in ((),(3,),(2,3))], unit_roundtrip, 24)
	flips = [None,"iau","iau_off","iau_rev","iau_nokey","cosmo"]
	it = [(g,p,dt,f) for g in (("car",) if q else ("car","tan","full")) for p in ((),(3,),(2,3)) for dt in ((np.float64,np.int32) if q else (np.float64,np.float32,np.int32)) for f in flips if f is None or p]
	it = [x for x in it if not (q and x[2] == np.int32 and x[3] in ("iau_off","iau_rev","cosmo"))]
	it += [("car",p,dt,f) for p, f in (((3,2),"iau_first"),((2,3,2),"iau_mid"),((4,),"iau_oldkey"),((2,),"iau"),((3,3),"iau_first")) for dt in (np.float64,np.int32)]
	out += chunked("select", it, unit_select, 24)
	it = [("car",p,dt,f) for p in ((),(3,),(2,3)) for dt in (np.float64,np.int32,np.float32) for f in (None,"iau","cosmo") if f is None or p]
	out += chunked("history", it, unit_history, 24)
	out += chunked("boxes", [(g,p,f) for g in GEOS for p in ((),(3,),(2,3)) for f in (None,"iau") if f is None or p], unit_boxes, 15)
	out += chunked("suffix", [(g,p) for g in GEOS for p in ((),(3,))], unit_suffix, 6)
	out += chunked("options", [(n,p) for n in ("car","car_off","tan","cea") for p in ((),(2,),(1,3))], unit_opts, 4)
	return out
