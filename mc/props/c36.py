"""C36: source catalogue files."""
import numpy as np, itertools, os, tempfile, shutil, warnings
from pixell import pointsrcs, utils
from astropy.io import fits
from ..core import chunked

RULE   = "every catalogue format x number of sources x number of components and bands x file type x way of asking for the format, with values that are different in every entry and include signs, zeros, wrapped longitudes and poles; files are written by an independent writer (or by the library for round trips) and every entry that is read is compared; every column layout for generic tables"
BOUNDS = "0-4 sources, 1 or 3 components, 1-4 bands, 6 formats, 3 text styles; scratch directory only"
ASSUME = ["the text version of the sauron format keeps the number of decimals it prints", "catalogues in a text format have at least one source", "text sauron catalogues have the case and contamination columns", "angles in nemo and generic tables are kept in the units of the file"]
deg = np.pi/180
POS = [(0.0,0.0),(10.5,-20.25),(359.75,89.5),(-170.125,-90.0),(180.0,45.0)]
def rows(n): return [(POS[i%5][0],POS[i%5][1],3.5+i*(-1)**i*1.25,0.5+0.125*i) for i in range(n)]
def text(lines, style):
	if style == "plain": return "\n".join(lines)+"\n"
	if style == "comments": return "# header\n"+"\n".join("  "+l+"   " for l in lines)+"\n# end\n"
	return "\n\n".join("\t".join(l.split()) for l in lines)
def wr(fn, s): open(fn,"w").write(s); return fn
def scratch(f):
	def g(ctx, items):
		d = tempfile.mkdtemp(prefix="c36.")
		try:
			with warnings.catch_warnings(): warnings.simplefilter("ignore"); f(ctx,items,d)
		finally: shutil.rmtree(d)
	g.__name__ = f.__name__; return g
@scratch
def unit_text(ctx, items, d):
	for kind, n, style, how in items:
		with ctx.case("text catalogue", kind=kind, n=n, style=style, format=how):
			r = rows(n); fn = os.path.join(d,"c.txt"); fmt = {"simple3":"simple","simple4":"simple","simple5":"simple","dory":"dory_txt","nemo":"nemo","nemo old":"nemo"}[kind]
			if kind.startswith("simple"): nc = int(kind[-1]); wr(fn,text([" ".join("%.10g" % v for v in (q+(7.0,))[:nc]) for q in r],style)); want = {"ra":[q[0]*deg for q in r],"dec":[q[1]*deg for q in r],"I":[q[2] for q in r]}; want.update({"dI":[q[3] for q in r]} if nc > 3 else {})
			elif kind == "dory": wr(fn,text(["%.10g %.10g 5.5 %.10g 0.1 %.10g 0.2 %.10g 0.3" % (q[0],q[1],q[2],q[3],q[2]-q[3]) for q in r],style)); want = {"ra":[q[0]*deg for q in r],"dec":[q[1]*deg for q in r],"I":[q[2]*1e3 for q in r],"Q":[q[3]*1e3 for q in r],"U":[(q[2]-q[3])*1e3 for q in r]}
			else:
				wr(fn,text(["ACT-S J%04d %.10g %.10g %.10g %d %stmpl%d %.10g %.10g %.10g" % (i,q[0],q[1],4.5+i,12+i,"0.875 " if kind == "nemo" else "",i,30.5+i,q[2],q[3]) for i,q in enumerate(r)],style)); want = {"ra":[q[0] for q in r],"dec":[q[1] for q in r],"snr":[4.5+i for i in range(n)],"I":[q[2] for q in r],"dI":[q[3] for q in r],"npix":[12+i for i in range(n)],"glat":[30.5+i for i in range(n)]}
			c = pointsrcs.read(fn,*(() if how == "default" else ("auto",) if how == "auto" else (fmt,))); ctx.eq(c.shape,(n,),"number of sources",); ctx.check(isinstance(c,np.recarray),"record array",state=(kind,n,style,how))
			for k, v in want.items(): ctx.close(np.asarray(c[k],float),v,1e-12,1e-12,k); ctx.close(np.asarray(getattr(c,k),float),v,1e-12,1e-12,k)
			if fmt == "nemo": ctx.eq([q.decode() for q in c.name],["ACT-SJ%04d" % i for i in range(n)],"names"); ctx.eq([q.decode() for q in c.template],["tmpl%d" % i for i in range(n)],"templates")
			if kind == "simple3": ctx.check("dI" not in c.dtype.names, "no invented columns")
@scratch
def unit_fits(ctx, items, d):
	for kind, n, how in items:
		with ctx.case("fits catalogue", kind=kind, n=n, format=how):
			r = rows(n); fn = os.path.join(d,"c.fits"); ctx.check(True,"",state=(kind,n,how))
			if kind == "dory":
				a = np.zeros(n,[("ra","d"),("dec","d"),("amp","d",3)]); a["ra"] = [q[0] for q in r]; a["dec"] = [q[1] for q in r]; a["amp"] = np.array([[q[2],q[3],q[2]-q[3]] for q in r]).reshape(n,3); fits.BinTableHDU(a).writeto(fn,overwrite=True); c = pointsrcs.read(fn,*(() if how == "default" else ("auto",) if how == "auto" else ("dory_fits",)))
				ctx.eq(len(c),n,"number"); ctx.close(c.ra,a["ra"]*deg,1e-12,1e-15,"ra"); ctx.close(c.dec,a["dec"]*deg,1e-12,1e-15,"dec")
				for i, k in enumerate("IQU"): ctx.close(c[k],a["amp"][:,i]*1e3,1e-12,1e-12,k)
			else:
				names = {"generic":["name","RADeg","decDeg","deltaT_c","err_deltaT_c","other"],"renamed":["ra","dec","I"],"vector":["RADeg","decDeg","vec","deltaT_c"]}[kind]; a = np.zeros(n,[(k,"S8" if k == "name" else "f4" if k == "other" else "d")+((3,) if k == "vec" else ()) for k in names])
				for i, k in enumerate(names): a[k] = [("s%d" % j).encode() for j in range(n)] if k == "name" else (np.arange(a[k].size)*1.5-i).reshape(a[k].shape)
				fits.BinTableHDU(a).writeto(fn,overwrite=True); c = pointsrcs.read(fn,*(() if how == "default" else ("auto",) if how == "auto" else ("fits",))); tr = {"RADeg":"ra","decDeg":"dec","deltaT_c":"I","err_deltaT_c":"dI"}; ctx.eq(list(c.dtype.names),[tr.get(k,k) for k in names],"columns")
				for k in names: ctx.check(np.array_equal(np.asarray(c[tr.get(k,k)]),a[k]), "column %s" % k)
				raw = pointsrcs.read_fits(fn,fix=False); ctx.eq(list(raw.dtype.names),names,"unchanged names"); ctx.check(all(np.array_equal(np.asarray(raw[k]),a[k]) for k in names), "unchanged columns")
				fits.HDUList([fits.PrimaryHDU(),fits.BinTableHDU(a[:0]),fits.BinTableHDU(a)]).writeto(fn,overwrite=True); ctx.eq(len(pointsrcs.read_fits(fn,hdu=2)),n,"chosen table")
@scratch
def unit_sauron(ctx, items, d):
	for ext, n, nc, nf, dt in items:
		with ctx.case("sauron catalogue", ext=ext, n=n, ncomp=nc, nband=nf, dtype=dt):
			c = np.zeros(n,[("ra",dt),("dec",dt),("snr",dt,(nc,)),("flux_tot",dt,(nc,)),("dflux_tot",dt,(nc,)),("flux",dt,(nf,nc)),("dflux",dt,(nf,nc)),("case","i"),("contam",dt,(nf,))]).view(np.recarray)
			for i, k in enumerate(c.dtype.names[2:]): c[k] = (np.arange(c[k].size)*(3 if k == "case" else 1.25)*(-1)**i+i+0.5*(k != "case")).reshape(c[k].shape)
			for i in range(n): c.ra[i] = POS[i%5][0]*deg; c.dec[i] = POS[i%5][1]*deg
			keep = c.copy(); fn = os.path.join(d,"c"+ext); pointsrcs.write_sauron(fn,c); ctx.check(np.array_equal(c,keep), "catalogue untouched by writing"); pointsrcs.write_sauron(fn,c)
			g = pointsrcs.read_sauron(fn) if nc == 3 or ext == ".fits" else pointsrcs.read_sauron_txt(fn,ncomp=nc); ctx.eq(g.shape,(n,),"number",); ctx.check(g.dtype.names == c.dtype.names, "columns", state=(ext,n,nc,nf,dt))
			for k in c.dtype.names: ctx.eq(g[k].shape,c[k].shape,"shape of "+k); ctx.close(np.asarray(g[k],float),np.asarray(c[k],float),1e-6 if dt == "f" else 1e-12,(1e-4*deg if k in ("ra","dec") else 0.006) if ext != ".fits" else 1e-6 if dt == "f" else 1e-12,k); ctx.close(np.asarray(getattr(g,k),float),np.asarray(g[k],float),0,0,k)
			if ext != ".fits": ctx.eq(len(open(fn).read().splitlines()),n+1,"header and one line per source"); ctx.eq(len(open(fn).readline().lstrip("#").split()),len(open(fn).readlines()[1].split()) if n else 0,"header names every column")
@scratch
def unit_other(ctx, items, d):
	for names in items:
		with ctx.case("source parameters and failures", columns=names):
			s = np.zeros(3,[(k,"d") for k in names]).view(np.recarray)
			for i, k in enumerate(names): s[k] = np.arange(3)*1.5-i
			p = pointsrcs.src2param(s); ctx.eq(p.shape,(3,8),"shape"); ctx.close(p[:,0],s.dec*deg,1e-12,1e-15,"dec"); ctx.close(p[:,1],s.ra*deg,1e-12,1e-15,"ra"); ctx.close(p[:,2],s.I,0,0,"I",); ctx.close(p[:,3],s.Q if "Q" in names else np.zeros(3),0,0,"Q"); ctx.close(p[:,4],s.U if "U" in names else np.zeros(3),0,0,"U"); ctx.close(p[:,5:],np.array([[1,1,0]]*3),0,0,"shape parameters"); ctx.check(True,"",state=names)
			ctx.raises(lambda: pointsrcs.read(os.path.join(d,"nosuch.txt")), IOError, "missing file"); ctx.raises(lambda: pointsrcs.read(wr(os.path.join(d,"bad.txt"),"a b\nc d e\n")), IOError, "not a catalogue"); ctx.raises(lambda: pointsrcs.read(wr(os.path.join(d,"ok.txt"),"1 2 3\n"),"nosuch"), (IOError,ValueError), "unknown format"); ctx.raises(lambda: pointsrcs.read(os.path.join(d,"ok.txt"),"nemo"), IOError, "wrong format")
def units(tier):
	T = tier == "thorough"; N = (1,2,3,4) if not T else tuple(range(1,9))
	us  = chunked("text", [(k,n,s,h) for k in ("simple3","simple4","simple5","dory","nemo","nemo old") for n in N for s in ("plain","comments","tabs") for h in ("default","auto","named")], unit_text, 3)
	us += chunked("fits", [(k,n,h) for k in ("dory","generic","renamed","vector") for n in (0,)+N for h in ("default","auto","named")], unit_fits, 2)
	us += chunked("sauron", [(e,n,c,f,dt) for e in (".fits",".txt") for n in ((0,) if e == ".fits" else ())+N for c in (1,3) for f in (1,2,3,4) for dt in ("d","f")], unit_sauron, 3)
	us += chunked("other", [("ra","dec","I"),("ra","dec","I","Q","U"),("I","dec","ra","Q"),("ra","dec","I","U")], unit_other, 1)
	return us
