"""C34: plots show the map: colours, orientation, ranges, tiling, coordinate grid."""
import numpy as np, itertools, os, tempfile, shutil, ctypes, fractions
from pixell import enmap, enplot, colorize, cgrid, utils, wcsutils
from ..core import chunked
try: GOMP = ctypes.CDLL("libgomp.so.1")
except OSError: GOMP = None

RULE   = "every combination of colour scheme, value, driver, number type and array shape for the colour mapping; every combination of map orientation, component layout and plot option (colour range, reversal, scaling, slicing, masking, operations, tiling, rgb, symmetric, layers, stamps, contours, annotations, both argument styles) within the bound for the plotting; every image pixel is compared with the colour the scheme assigns to the map pixel at that position on the sky; every point of every grid line is compared with the coordinate the line stands for; oracle: exact piecewise linear interpolation of the colour table in rational numbers, and independent indexing of the map"
BOUNDS = "all 19+ named schemes and 14 written ones with values at, between, halfway between and outside every colour point; maps of up to 9x11 pixels, up to 6 components, 4 orientations, 5 projections; threads 1-8 on 20000 pixels"
ASSUME = ["a component is rounded to one of the two nearest integers, and the two drivers may round halves differently", "for colours given twice at the same value either may be used at exactly that value", "in direct mode 1.0 is full intensity and 256 steps are used", "tuples with only some components undefined are not claimed for direct mode", "the matplotlib driver and interactive display are not claimed", "text and grid line rendering belongs to PIL"]

F = fractions.Fraction
def table(desc):
	"""Independent parser. Returns a list of (value, (r,g,b,a))"""
	toks = desc.split(",")
	if len(toks) == 1: toks = ["0:"+toks[0],"1:"+toks[0]]
	res = []
	for t in toks:
		v, c = t.split(":"); col = [0,0,0,255]
		for i in range(len(c)//2): col[i] = int(c[2*i:2*i+2],16)
		res.append((float(v),tuple(col)))
	return [t for i,t in sorted(enumerate(res),key=lambda e: (e[1][0],e[0]))]
def lookup(tab, v):
	"""Exact colours (as fractions); list of allowed ones"""
	if v != v: return [(0,0,0,0)]
	if v <= tab[0][0]: return [tab[0][1]] if v < tab[0][0] else [c for x,c in tab if x == v]
	if v >= tab[-1][0]: return [tab[-1][1]] if v > tab[-1][0] else [c for x,c in tab if x == v]
	on = [c for x,c in tab if x == v]
	if on: return on
	i = max(j for j in range(len(tab)) if tab[j][0] < v); a, b = tab[i], tab[i+1]; f = (F(v)-F(a[0]))/(F(b[0])-F(a[0]))
	return [tuple(F(p)+(F(q)-F(p))*f for p,q in zip(a[1],b[1]))]
def agree(got, want, tol=F(1,2)+F(1,1000)): return any(all(abs(F(int(g))-w) <= tol for g,w in zip(got,w_)) for w_ in want)
WRITTEN = ["0:000000,1:ffffff","ff8000","12345678","0:102030,1:f0e0d0","1:ffffff,0:000000","0.5:00ff00,0:ff0000,1:0000ff","0:00000000,1:ffffffff","0:ff000080,0.25:00ff0040,0.75:0000ffc0,1:ffffff","-1:00ff00,2:ff00ff","0:0a,1:f0","0:0a0b,0.3:f0f1,1:000000","0:000000,0.5:ffffff,0.5:ff0000,1:0000ff","-1e3:000000,1e3:ffffff","0:000000,0.1:400000,0.2:408000,0.7:ff80c0,0.8:ff80c040,1:00000000"]

def unit_scheme(ctx, items):
	for d in items:
		with ctx.case("colour scheme", desc=d[:60]):
			named = d in colorize.schemes
			c = colorize.Colorscheme(d); tab = table(c.desc) if named else table(d); ctx.check(True,"",state=d)
			ctx.check(np.all(np.diff(c.vals) >= 0), "sorted values"); ctx.eq(list(c.vals), [v for v,_ in tab], "values")
			if len(set(c.vals)) == len(c.vals): ctx.eq([tuple(int(q) for q in r) for r in c.cols], [t[1] for t in tab], "colours")
			e = colorize.Colorscheme(c); ctx.check(np.all(e.vals == c.vals) and np.all(e.cols == c.cols), "scheme of a scheme")
			keep = (c.vals.copy(),c.cols.copy()); r = c.reverse(); ctx.close(r.vals, 1-c.vals[::-1], 0, 1e-12, "reversed values"); ctx.check(np.all(r.cols == c.cols[::-1]), "reversed colours"); ctx.check(np.all(c.vals == keep[0]) and np.all(c.cols == keep[1]), "reversing leaves the scheme alone"); rr = r.reverse(); ctx.close(rr.vals, c.vals, 0, 1e-12, "reversing twice"); ctx.check(np.all(rr.cols == c.cols), "reversing twice")
			if named: ctx.eq((c.vals[0],c.vals[-1]), (0.0,1.0), "named schemes cover 0 to 1")
def samples(tab, fine):
	xs = sorted(set(v for v,_ in tab)); w = xs[-1]-xs[0]
	vals = [float("nan"),float("inf"),-float("inf"),xs[0]-w,xs[-1]+w,xs[0]-1e-9*w,xs[-1]+1e-9*w,1e300,-1e300,0.0,-0.0]+xs
	for a, b in zip(xs[:-1],xs[1:]): vals += [a+(b-a)*f for f in ((0.5,0.1,0.999) if len(xs) > 12 and not fine else (0.5,0.25,0.1,1/3.,0.9,0.999,1e-6,0.0077))]
	return np.array(vals)
def unit_scalar(ctx, items):
	for d, drv, fine in items:
		with ctx.case("scalar colours", desc=d[:60], driver=drv):
			c = colorize.Colorscheme(d); tab = table(c.desc); v = samples(tab,fine); res = colorize.colorize(v,desc=d,driver=drv); ctx.eq((res.shape,res.dtype), (v.shape+(4,),np.dtype(np.uint8)), "shape and type")
			for x, g in zip(v,res): ctx.check(agree(g,lookup(tab,float(x))), "colour of %r: %s should be %s" % (float(x),list(g),[[float(q) for q in w] for w in lookup(tab,float(x))]), state=(d[:20],drv))
			ctx.check(np.all(colorize.colorize(v,desc=c,driver=drv) == res), "scheme object")
			for shp in ((1,),(2,3),(2,1,3),(0,),(3,2,1)):
				n = int(np.prod(shp)); a = v[3:3+n].reshape(shp); ctx.check(np.all(colorize.colorize(a,desc=d,driver=drv) == res[3:3+n].reshape(shp+(4,))), "shape %s" % (shp,))
			for a in (v[::2],v[::-1],np.array([v,v]).T[:,0]): ctx.check(np.all(colorize.colorize(a,desc=d,driver=drv) == (res[::2] if len(a) < len(v) else res[::-1] if a[-1] != a[-1] else res)), "strides")
			f4 = np.clip(v,-1e30,1e30).astype(np.float32); r4 = colorize.colorize(f4,desc=d,driver=drv)
			for x, g in zip(f4,r4): ctx.check(agree(g,lookup(tab,float(x)),F(11,10)), "single precision")
			iv = np.array([-3,0,1,2,5]); ri = colorize.colorize(iv,desc=d,driver=drv)
			for x, g in zip(iv,ri): ctx.check(agree(g,lookup(tab,float(x))), "integers")
			v0 = v.copy(); colorize.colorize(v0,desc=d,driver=drv); ctx.check(np.array_equal(v0,v,equal_nan=True), "input untouched")
def unit_default(ctx, items):
	for n in items:
		with ctx.case("colour defaults", n=n):
			v = np.linspace(-0.2,1.2,n); ctx.check(np.all(colorize.colorize(v) == colorize.colorize(v,desc="planck",mode="scalar",driver="fortran")), "default scheme", state=n); ctx.raises(lambda: colorize.colorize(v,driver="nosuch"), ValueError, "unknown driver")
			a = np.array([v,v*0.5,v*0.1]); ctx.check(np.all(colorize.colorize(a,mode="direct") == colorize.colorize(a,mode="direct",driver="fortran")), "default driver")
DV = [-1e12,-5.0,-0.01,0.0,1e-4,0.002,0.25,0.5,1/3.,0.77,0.9999,1.0,1.01,2.0,300.0,1e5,9e6,1e8,1e12,1e200]
def unit_direct(ctx, items):
	for nc, drv, mode in items:
		with ctx.case("direct colours", ncomp=nc, driver=drv, mode=mode):
			vals = list(itertools.product(DV,repeat=3)) if mode == "direct" else [p for p in itertools.product([0.0,1e-4,0.1,0.25,0.5,0.9,1.0,1.5,40.0,1e9],repeat=3)]
			vals = np.array(vals).T; vals = np.concatenate([vals,np.full((3,1),np.nan)],1)
			if nc == 4: vals = np.concatenate([vals,np.resize(np.array([0.0,0.5,1.0,7.0,1e9,-2.0]),(1,vals.shape[1]))])
			res = colorize.colorize(vals,mode=mode,driver=drv); ctx.eq((res.shape,res.dtype),((vals.shape[1],4),np.dtype(np.uint8)),"shape and type")
			ok = np.isfinite(vals[0]); w = vals[:3,ok].copy()
			if mode != "direct": amp = np.sqrt(np.sum(w**2,0)); w = np.where(amp > 0, w/np.maximum(amp,1e-300)*np.minimum(amp,1), 0)
			want = np.clip(w*256,0,255).T; bad = np.where(np.any(np.abs(res[ok][:,:3]-want) > 0.5+1e-6,1))[0]; ctx.check(len(bad) == 0, "colours: %s" % [(list(vals[:,i]),list(res[i])) for i in bad[:3]], state=(nc,drv,mode))
			ctx.check(np.all(res[~ok] == 0), "undefined is transparent")
			if nc == 4: ctx.check(np.all(np.abs(res[ok][:,3]-np.clip(vals[3,ok]*256,0,255)) <= 0.5), "given opacity")
			else: ctx.check(np.all(res[ok][:,3] == 255), "opaque")
			n = vals.shape[1]//6*6; r2 = colorize.colorize(vals[:,:n].reshape(nc,2,-1,3),mode=mode,driver=drv); ctx.check(np.all(r2 == res[:n].reshape(2,-1,3,4)), "shape"); ctx.check(np.all(colorize.colorize(vals[:,::-1],mode=mode,driver=drv) == res[::-1]), "strides")
			ctx.check(np.all(np.abs(colorize.colorize(np.clip(vals,-1e30,1e30).astype(np.float32),mode=mode,driver=drv).astype(int)-res) <= 1), "single precision")
def unit_threads(ctx, items):
	if GOMP is None: return
	for mode, nt, n in items:
		with ctx.case("threads", mode=mode, nthread=nt, n=n):
			i = np.arange(3*n).reshape(3,n); a = (i*0.6180339887)%1*1.5; a[:,::997] = np.nan; f = lambda: colorize.colorize(a if mode != "scalar" else a[0],mode=mode,driver="fortran"); GOMP.omp_set_num_threads(1); ref = f()
			try:
				GOMP.omp_set_num_threads(nt)
				for k in range(4): r = f(); ctx.check(np.all(r == ref), "%d pixels differ with %d threads" % (np.sum(np.any(r != ref,-1)),nt), state=(mode,nt))
			finally: GOMP.omp_set_num_threads(1)

# ---- plots ----
def geom(ori, ny=5, nx=6, proj="car"):
	sy, sx = [(1,-1),(1,1),(-1,-1),(-1,1)][ori]
	if proj == "plain":
		shape, wcs = enmap.geometry(np.array([[0,0],[ny,nx]]),shape=(ny,nx),proj="plain"); 
		w = wcs.deepcopy(); w.wcs.cdelt = [abs(w.wcs.cdelt[0])*sx,abs(w.wcs.cdelt[1])*sy]; return (ny,nx), w
	shape, wcs = enmap.geometry(np.array([[-2,nx/2.],[-2+ny,-nx/2.]])*utils.degree,res=utils.degree,proj=proj,shape=(ny,nx)) if False else (None,None)
	w = wcsutils.WCS(naxis=2); w.wcs.ctype = ["RA---"+proj.upper(),"DEC--"+proj.upper()]; w.wcs.cdelt = [1.0*sx,1.0*sy]; w.wcs.crval = [10.0,0.0] if proj in ("car","cea") else [10.0,3.0]; w.wcs.crpix = [nx/2.+0.5,ny/2.+0.5]
	return (ny,nx), w
def mkmap(pre, ori, ny=5, nx=6, proj="car", dtype=float, scale=1.0):
	shape, wcs = geom(ori,ny,nx,proj); n = int(np.prod(pre+shape)); v = ((np.arange(n)*0.6180339887+0.123)%1*2-1)*scale
	for k, q in enumerate(v.reshape((-1,)+shape)): q *= k+1
	return enmap.ndmap(v.reshape(pre+shape).astype(dtype),wcs)
def view(a, m):
	"""The given [...,ny,nx] array of map values, in image orientation: east left, north up"""
	a = np.asarray(a)
	if m.wcs.wcs.cdelt[1] > 0: a = a[...,::-1,:]
	if m.wcs.wcs.cdelt[0] > 0: a = a[...,:,::-1]
	return a
def rangeof(vals, q=0.01):
	v = np.sort(vals[np.isfinite(vals)]); n = len(v)
	if n == 0: return -1.0, 1.0
	i = min(n-1,int(round(n*q))); a, b = v[i], v[n-1-i]
	return (a-1,b+1) if a == b else (a,b)
def colcheck(ctx, img, vals, rng, desc="planck", msg="", rev=False):
	tab = table(colorize.Colorscheme(desc).desc); px = np.array(img); ctx.eq(px.shape, vals.shape+(4,), msg+" image size")
	if px.shape != vals.shape+(4,): return
	x = (np.asarray(vals,float)-rng[0])/(rng[1]-rng[0]); x = 1-x if rev else x
	for y, xx in np.ndindex(*vals.shape):
		g = px[y,xx]; w = lookup(tab,float(x[y,xx])); ctx.check(agree(g,w,F(51,100)), msg+" image pixel (%d,%d) value %r: %s should be %s" % (y,xx,float(vals[y,xx]),list(g),[[float(q) for q in e] for e in w]))
def nop(pre): return [()] if len(pre) == 0 else list(np.ndindex(*pre))
def unit_plot(ctx, items):
	for ori, pre, dt, opt in items:
		if dt == "int32" and opt not in ("plain","quantile0","gray","upgrade","slice","reverse"): continue
		with ctx.case("plot", orientation=ori, pre=pre, dtype=dt, option=opt):
			m = mkmap(pre,ori,dtype=dt,scale=100.0 if dt == "int32" else 1.0); m0 = m.copy(); kw = dict(grid=False); vals = np.asarray(m,float); rng = None; desc = "planck"; rev = False; src = m
			ncomp = int(np.prod(pre)) if pre else 1
			if   opt == "plain": pass
			elif opt == "range": kw["range"] = "0.7"; rng = [(-0.7,0.7)]*ncomp
			elif opt == "range number": kw["range"] = 0.7; rng = [(-0.7,0.7)]*ncomp
			elif opt == "ranges": kw["range"] = "0.9:0.5:0.3"; rng = [(-r,r) for r in ([0.9,0.5]+[0.3]*ncomp)[:ncomp]]
			elif opt == "ranges list": kw["range"] = "0.9:0.5"; rng = [(-r,r) for r in ([0.9]+[0.5]*ncomp)[:ncomp]]
			elif opt == "minmax": kw["min"] = "-0.2"; kw["max"] = "0.4:0.8"; rng = [(-0.2,r) for r in ([0.4]+[0.8]*ncomp)[:ncomp]]
			elif opt == "range max": kw["range"] = "0.5"; kw["max"] = 2; rng = [(-0.5,2.0)]*ncomp
			elif opt == "min": kw["min"] = "-0.05"; rng = [(-0.05,rangeof(vals)[1])]*ncomp
			elif opt == "quantile": kw["quantile"] = 0.2; rng = [rangeof(vals,0.2)]*ncomp
			elif opt == "quantile0": kw["quantile"] = 0; rng = [(vals.min(),vals.max())]*ncomp
			elif opt == "gray": kw["color"] = desc = "gray"
			elif opt == "custom": kw["color"] = desc = "0:ff0000,0.3:00ff0080,1:0000ff"
			elif opt == "reverse": kw["reverse_color"] = True; rev = True
			elif opt == "python": kw["method"] = "python"
			elif opt == "op": kw["op"] = "m**2-0.5"; vals = vals**2-0.5
			elif opt == "op2": kw["op2"] = "a=m*2;m=np.abs(a)"; vals = np.abs(vals*2)
			elif opt == "downgrade": kw["downgrade"] = "2"; vals = vals[...,:4,:6].reshape(pre+(2,2,3,2)).mean((-3,-1)); 
			elif opt == "downgrade2": kw["downgrade"] = "1,3"; vals = vals.reshape(pre+(5,2,3)).mean(-1)
			elif opt == "downgrade3": kw["downgrade"] = [2,1]; vals = vals[...,:4,:].reshape(pre+(2,2,6)).mean(-2)
			elif opt == "upgrade": kw["upgrade"] = "2"; vals = vals.repeat(2,-2).repeat(2,-1)
			elif opt == "upgrade2": kw["upgrade"] = "3,1"; vals = vals.repeat(3,-2)
			elif opt == "slice": kw["slice"] = "[...,1:4,2:5]"; vals = vals[...,1:4,2:5]
			elif opt == "slice step": kw["slice"] = "[...,::2,1::2]"; vals = vals[...,::2,1::2]
			elif opt == "slice flip y": kw["slice"] = "[...,::-1,:]"; vals = vals[...,::-1,:]
			elif opt == "slice flip x": kw["slice"] = "[...,:,::-1]"; vals = vals[...,:,::-1]
			elif opt == "slice flip": kw["slice"] = "[...,3:0:-1,::-2]"; vals = vals[...,3:0:-1,::-2]
			elif opt == "autocrop each":
				m[...,0,:] = 0; m[...,:,4:] = 0
				for q, I in enumerate(nop(pre)): m[I+(Ellipsis,slice(0,q%4))] = 0
				vals = {I:np.array(m[I],float)[1:,q%4:4] for q,I in enumerate(nop(pre))}; kw["autocrop_each"] = True; rng = [rangeof(np.array(m,float))]*ncomp; m0 = m.copy()
			elif opt == "mask inf": m[...,0,0] = np.inf; m[...,2,1:3] = -np.inf; vals = np.array(m,float); vals[np.isinf(vals)] = np.nan; kw["mask"] = np.inf; m0 = m.copy()
			elif opt == "mask": m[...,1,2] = 0.25; m[...,3,4] = 0.25*(1+1e-10); vals = np.array(m,float); kw["mask"] = 0.25; vals[np.abs(vals-0.25) <= 1e-14] = np.nan; m0 = m.copy()
			elif opt == "mask neg": m[...,1,2] = -0.25; m[...,3,4] = 0.25; vals = np.array(m,float); kw["mask"] = -0.25; vals[vals == -0.25] = np.nan; m0 = m.copy()
			elif opt == "mask tol": m[...,1,2] = 0.25; m[...,3,4] = 0.2501; vals = np.array(m,float); kw["mask"] = 0.25; kw["mask_tol"] = 0.001; vals[np.abs(vals-0.25) <= 0.001] = np.nan; m0 = m.copy()
			elif opt == "nan": m[...,0,0] = np.nan; m[...,2,1:3] = np.nan; vals = np.array(m,float); m0 = m.copy()
			elif opt == "inf": m[...,0,0] = np.inf; m[...,2,1:3] = -np.inf; vals = np.array(m,float); m0 = m.copy()
			elif opt == "constant": m[:] = 3; vals = np.array(m,float); m0 = m.copy()
			elif opt == "allnan": m[:] = np.nan; vals = np.array(m,float); m0 = m.copy()
			elif opt == "autocrop": m[...,0,:] = 0; m[...,:,4:] = 0; vals = np.array(m,float)[...,1:,:4]; kw["autocrop"] = True; m0 = m.copy()
			elif opt == "sub":
				kw["sub"] = "-1.4:1.4,11.4:8.6"; vals = np.asarray(m.submap(np.array([[-1.4,11.4],[1.4,8.6]])*utils.degree),float)
			rng = rng or [rangeof(vals)]*ncomp
			ps = enplot.plot(src,**kw); ctx.eq(len(ps),ncomp,"one plot per component"); ctx.check(np.array_equal(np.asarray(m),np.asarray(m0),equal_nan=dt != "int32"), "the map itself is not changed")
			for k, (I, p) in enumerate(zip(nop(pre),ps)):
				colcheck(ctx,p.img,view(vals[I],m),rng[k],desc,"component %s" % (I,),rev)
				ctx.eq(p.type,"pil","type"); ctx.eq(p.name, ("_"+"_".join("%d" % i for i in I) if pre else "")+".png", "name")
			ctx.check(True,"",state=(ori,pre,dt,opt))
def unit_styles(ctx, items):
	"""Command line style and keyword style are the same, in any mixture; files and maps are the same"""
	opts = [("-r 0.5",dict(range="0.5")),("--min -0.3 --max 0.8:0.4",dict(min="-0.3",max="0.8:0.4")),("-d 2",dict(downgrade="2")),("-u 2,1",dict(upgrade="2,1")),("-q 0.2",dict(quantile=0.2)),("-m 0",dict(mask=0)),("-c gray",dict(color="gray")),("--reverse-color",dict(reverse_color=True)),("--op 'm*2+1'",dict(op="m*2+1")),("--slice '[...,1:,:]'",dict(slice="[...,1:,:]")),("--tile 1",dict(tile="1")),("--rgb",dict(rgb=True)),("-S",dict(symmetric=True)),("--prefix a_ --suffix _b --ext jpg",dict(prefix="a_",suffix="_b",ext="jpg")),("-t 2 --grid-color ff0000",dict(grid=True,ticks="2",grid_color="ff0000")),("--font-size 12 --nstep 100",dict(font_size=12,nstep=100)),("-C 0.5",dict(contours="0.5")),("--nolabels",dict(nolabels=True)),("-L",dict(layers=True))]
	d = tempfile.mkdtemp(prefix="c34.")
	try:
		for i, j in items:
			with ctx.case("argument styles", options=[opts[i][0],opts[j][0]]):
				m = mkmap((3,3),0); m[...,1,1] = 0; s, kw = " ".join(opts[k][0] for k in sorted({i,j})), {k:v for q in {i,j} for k,v in opts[q][1].items()}; g = "" if kw.get("grid") else "-g"; kg = dict(grid=True) if kw.get("grid") else dict(grid=False)
				def sig(ps): return [(p.name,np.array(p.img).tolist()) for p in ps]
				a = sig(enplot.plot(m,g+" "+s)); b = sig(enplot.plot(m,**dict(kg,**kw))); ctx.eq([q[0] for q in a],[q[0] for q in b],"names"); ctx.check(a == b, "string and keyword styles give the same plots", state=(i,j)); ctx.check(sig(enplot.plot(g,m,opts[i][0],**opts[j][1])) == a, "mixed")
				fn = os.path.join(d,"foo.fits"); enmap.write_map(fn,m); c = enplot.plot(fn+" "+g+" "+s); ctx.check([q[1] for q in sig(c)] == [q[1] for q in a], "from file"); e = enplot.plot((m,fn),**dict(kg,**kw)); ctx.check(sig(e) == sig(c), "named map")
				pre, suf, ext = kw.get("prefix",""), kw.get("suffix",""), kw.get("ext","png")
				for p in c: ctx.check(p.name.startswith(d+"/"+pre+"foo"+suf) and p.name.endswith("."+ext), "name %s" % p.name)
		with ctx.case("output names and writing"):
			m = mkmap((12,),0); m2 = mkmap((),1); names = [p.name for p in enplot.plot((m,"x/bar.v2.fits"),grid=False)]; ctx.eq(names, ["x/bar.v2_%02d.png" % i for i in range(12)], "component numbers are padded")
			ctx.eq([p.name for p in enplot.plot((m2,"bar.fits.gz"),grid=False)], ["bar.png"], "compressed name"); ctx.eq([p.name for p in enplot.plot((m2,"q/bar.fits"),grid=False,odir="/zz")], ["/zz/bar.png"], "output directory"); ctx.eq([p.name for p in enplot.plot((m2,"q/bar.fits"),grid=False,oname="{pre}{base}_{fi}_{ci}.{ext}",prefix="h")], ["hbar_0_0.png"], "output format"); ctx.raises(lambda: enplot.plot(m2,nosuch=1), ValueError, "unknown option")
			ps = enplot.plot(m,grid=False); enplot.write(os.path.join(d,"out"),ps)
			import PIL.Image
			for i, p in enumerate(ps): ctx.check(np.array_equal(np.array(PIL.Image.open(os.path.join(d,"out_%02d.png" % i)).convert("RGBA")),np.array(p.img)), "written list")
			enplot.write(os.path.join(d,"one.png"),ps[3]); ctx.check(np.array_equal(np.array(PIL.Image.open(os.path.join(d,"one.png")).convert("RGBA")),np.array(ps[3].img)), "written plot"); enplot.write(os.path.join(d,"two.png"),ps[4].img); ctx.check(np.array_equal(np.array(PIL.Image.open(os.path.join(d,"two.png")).convert("RGBA")),np.array(ps[4].img)), "written image")
			for k in range(3): enmap.write_map(os.path.join(d,"g%d.fits" % k),mkmap((),k)*(k+1))
			gl = enplot.plot(os.path.join(d,"g*.fits"),grid=False); ctx.eq([p.name for p in gl],[os.path.join(d,"g%d.png" % k) for k in range(3)],"file pattern"); w = [enplot.plot(mkmap((),k)*(k+1),grid=False)[0].img for k in range(3)]; ctx.check(all(np.array_equal(np.array(a.img),np.array(b)) for a,b in zip(gl,w)), "file pattern"); fs = enplot.plot(os.path.join(d,"g1.fits")+":[1:,:]",grid=False); ctx.check(np.array_equal(np.array(fs[0].img),np.array(enplot.plot(mkmap((),1)*2,slice="[1:,:]",grid=False)[0].img)), "file slice")
			it = enplot.plot_iterator(m,grid=False); ctx.check(np.array_equal(np.array(next(it).img),np.array(ps[0].img)), "iterator"); class_ = type("C",(),{}); 
			for size in (1,2,3):
				got = {}
				for rank in range(size):
					c = class_(); c.rank, c.size = rank, size
					for p in enplot.plot(*[(mkmap((),k),"t%d.fits" % k) for k in range(4)],grid=False,comm=c): ctx.check(p.name not in got, "each map is plotted by one task"); got[p.name] = np.array(p.img)
				ctx.eq(sorted(got),["t%d.png" % k for k in range(4)],"all maps are plotted"); ctx.check(all(np.array_equal(got["t%d.png" % k],np.array(enplot.plot(mkmap((),k),grid=False)[0].img)) for k in range(4)), "task plots")
			ctx.check(True,"",state="names")
	finally: shutil.rmtree(d)
def unit_rgb(ctx, items):
	for ori, n, mode, drv, rs in items:
		with ctx.case("rgb", orientation=ori, ncomp=n, mode=mode, driver=drv, ranges=rs):
			m = mkmap((n,),ori); kw = dict(grid=False,rgb=True,rgb_mode=mode,method=drv); 
			if rs: kw["min"] = "0"; kw["max"] = ":".join("%g" % (0.5+0.3*i) for i in range(n)); rng = [(0,0.5+0.3*i) for i in range(n)]
			else: rng = [rangeof(np.asarray(m))]*n
			ps = enplot.plot(m,**kw); ctx.eq(len(ps),n//3,"one image per three components")
			for k, p in enumerate(ps):
				v = np.array([(view(m[3*k+c],m)-rng[3*k+c][0])/(rng[3*k+c][1]-rng[3*k+c][0]) for c in range(3)])
				if mode != "direct": amp = np.sqrt(np.sum(v**2,0)); v = v/np.maximum(amp,1e-300)*np.minimum(amp,1)
				px = np.array(p.img).astype(int); ctx.check(px.shape == v.shape[1:]+(4,) and np.all(np.abs(np.moveaxis(px[...,:3],-1,0)-np.clip(v*256,0,255)) <= 0.51) and np.all(px[...,3] == 255), "image %d" % k, state=(ori,n,mode,drv,rs))
def unit_tile(ctx, items):
	for ori, pre, tile, tr in items:
		with ctx.case("tiling", orientation=ori, pre=pre, tile=tile, transpose=tr):
			m = mkmap(pre,ori,3,4); ps = enplot.plot(m,grid=False,tile=tile,tile_transpose=tr,quantile=0); fl = view(m,m).reshape(-1,3,4); n = len(fl); t = [int(q) for q in tile.split(",")]; nr = t[0]; nc = t[1] if len(t) > 1 else -1
			if nr < 0 and nc < 0: nc = int(np.ceil(np.sqrt(n)))
			if nr < 0: nr = -(-n//nc)
			if nc < 0: nc = -(-n//nr)
			ctx.eq(len(ps),1,"one image"); full = np.zeros((nr*3,nc*4))
			for i in range(n): r, c = (i%nr,i//nr) if tr else (i//nc,i%nc); full[3*r:3*r+3,4*c:4*c+4] = fl[i]
			colcheck(ctx,ps[0].img,full,(full.min(),full.max()),msg="tiles"); ctx.check(True,"",state=(ori,pre,tile,tr))
def unit_sym(ctx, items):
	for ori, n in items:
		with ctx.case("symmetric", orientation=ori, n=n):
			m = mkmap((n,n),ori); ps = enplot.plot(m,grid=False,symmetric=True); want = [(i,j) for i in range(n) for j in range(i,n)]; ctx.eq([p.name for p in ps],["_%d_%d.png" % w for w in want],"upper triangle")
			for w, p in zip(want,ps): colcheck(ctx,p.img,view(m[w],m),rangeof(np.asarray(m)),msg="field %s" % (w,))
			ctx.check(True,"",state=(ori,n))
def unit_layers(ctx, items):
	for ori, proj, opts in items:
		with ctx.case("layers", orientation=ori, proj=proj, options=opts):
			nx = 41 if "bar" in opts else 11; m = mkmap((2,),ori,9,nx,proj); kw = dict(grid="grid" in opts,nolabels="nolabels" in opts,colorbar=int("bar" in opts),no_image="noimg" in opts,font_size=8,range="1.5"); 
			if "cont" in opts: kw["contours"] = "0.5"
			if "annot" in opts: kw["annotate"] = [["circle",1.0,10.0,0,0,3,1,"red"]]
			if kw["no_image"] and not ("grid" in opts or "cont" in opts or "annot" in opts): continue
			L = enplot.plot(m,layers=True,**kw); one = enplot.plot(m,**kw); names = (["img"] if not kw["no_image"] else [])+(["cont"] if "cont" in opts else [])+(["annot"] if "annot" in opts else [])+(["grid"]+([] if "nolabels" in opts else ["tics"]) if "grid" in opts else [])+(["colorbar"] if "bar" in opts else [])
			ctx.eq([p.name for p in L], ["_%d_%s.png" % (k,s) for k in range(2) for s in names], "layer names"); ctx.eq(len(one),2,"plots")
			for k in range(2):
				ls = [np.array(p.img).astype(float) for p in L[k*len(names):(k+1)*len(names)]]; full = np.array(one[k].img).astype(float); ctx.check(all(l.shape == full.shape for l in ls), "layers have the size of the plot")
				b = np.array(one[k].info.bounds); ctx.eq(tuple(full.shape[:2][::-1]),tuple(int(q) for q in b[1]-b[0]),"bounds"); ctx.check(np.all(b[0] <= 0) and np.all(b[1] >= np.array(m.shape[:-3:-1])), "bounds contain the map"); x0, y0 = -b[0]
				if "img" in names:
					box = ls[0][y0:y0+9,x0:x0+nx]; colcheck(ctx,box,view(m[k],m),(-1.5,1.5),msg="image layer"); rest = ls[0].copy(); rest[y0:y0+9,x0:x0+nx] = 0; ctx.check(np.all(rest == 0), "nothing outside the map")
				acc = ls[0]
				for l in ls[1:]:
					a = l[...,3:]/255; o = acc[...,3:]/255; na = a+o*(1-a); acc = np.concatenate([np.where(na > 0,(l[...,:3]*a+acc[...,:3]*o*(1-a))/np.maximum(na,1e-9),0),na*255],-1)
				d = np.abs(acc-full); d[full[...,3] == 0] = 0; ctx.check(d.max() <= 3, "layers composite to the plot (%g)" % d.max())
				if "cont" in opts:
					cl = ls[names.index("cont")][y0:y0+9,x0:x0+nx]; v = view(m[k],m); lev = [l for l in np.arange(-20,21)*0.5 if -1.5 <= l <= 1.5]; bins = np.sum([v >= l for l in lev],0) if lev else np.zeros(v.shape,int)
					for y, x in itertools.product(range(8),range(nx-1)): e = bins[y,x] != bins[y+1,x] or bins[y,x] != bins[y,x+1]; ctx.eq(cl[y,x].tolist(),[0,0,0,255.0] if e else [0,0,0,0.0],"contour pixel")
				if "annot" in opts:
					al = ls[names.index("annot")][y0:y0+9,x0:x0+nx,3]; p = enmap.sky2pix(m.shape,m.wcs,np.array([1.0,10.0])*(utils.degree if proj != "plain" else 1)); py, px = (8-p[0] if m.wcs.wcs.cdelt[1] > 0 else p[0]), (nx-1-p[1] if m.wcs.wcs.cdelt[0] > 0 else p[1])
					if 3 <= py <= 5 and 3 <= px <= nx-4: yy, xx = np.where(al > 100); r = np.hypot(yy-py,xx-px); ctx.check(len(r) > 6 and np.all(np.abs(r-3) < 2), "circle around its centre")
			ctx.check(True,"",state=(ori,proj,opts))
def unit_annot(ctx, items):
	NY, NX = 24, 30
	for ori, kind, maxrad, how in items:
		with ctx.case("annotations", orientation=ori, kind=kind, maxrad=maxrad, how=how):
			m = mkmap((),ori,NY,NX); sy, sx = np.sign(m.wcs.wcs.cdelt[::-1])
			def sky(y,x): py, px = (NY-1-y if sy > 0 else y), (NX-1-x if sx > 0 else x); d, r = enmap.pix2sky(m.shape,m.wcs,np.array([py,px],float))/utils.degree; return ["%.8f" % d,"%.8f" % r,"0.25","0.25"]
			def draw(an, **kw):
				if how == "file":
					import shlex
					with tempfile.NamedTemporaryFile("w",suffix=".txt",delete=False) as f: f.write("".join(" ".join(shlex.quote(str(w)) for w in a)+"\n" for a in an))
					try: ps = enplot.plot(m,grid=False,no_image=True,annotate=f.name,annotate_maxrad=maxrad,**kw)
					finally: os.unlink(f.name)
				else: ps = enplot.plot(m,grid=False,no_image=True,annotate=an,annotate_maxrad=maxrad,**kw)
				return np.array(ps[0].img).astype(int)
			Y, X = np.mgrid[:NY,:NX]; pts = [(0,0),(1,28),(22,3),(12,15),(23,29),(5,0),(0,14),(11,29)]
			for i, (y,x) in enumerate(pts):
				y2, x2 = pts[(i+3)%len(pts)]; col = ("red",(255,0,0)) if i%2 else ("#00ff80",(0,255,128)); ctx.check(True,"",state=(ori,kind,maxrad,how,i))
				if kind in ("c","circle"):
					a = draw([[kind]+sky(y,x)+["4","1",col[0]]]); op = a[...,3] > 100; r = np.hypot(Y-y,X-x); ctx.check(a.shape == (NY,NX,4), "shape"); ctx.check(np.all(np.abs(r[op]-4) < 2), "circle is at its radius"); sect = np.round(np.arctan2(Y-y,X-x)/(np.pi/4)).astype(int)%8; ring = np.abs(r-4) < 0.5
					for k in range(8):
						if np.sum(ring & (sect == k)) >= 3: ctx.check(np.any(op & (sect == k)), "circle at (%d,%d) has no part in sector %d" % (y,x,k))
					ctx.check(np.any(op) and np.abs(a[op][:,:3]-np.array(col[1])).max() < 120, "colour")
				elif kind in ("l","line"):
					h, v = draw([[kind]+sky(y,x)+sky(y,x2)+["1",col[0]]]), draw([[kind]+sky(y,x)+sky(y2,x)+["1",col[0]]]); wh = np.zeros((NY,NX,4),int); wh[y,min(x,x2):max(x,x2)+1] = col[1]+(255,); wv = np.zeros((NY,NX,4),int); wv[min(y,y2):max(y,y2)+1,x] = col[1]+(255,); ctx.check(np.array_equal(h,wh), "horizontal line (%d,%d)-(%d,%d)" % (y,x,y,x2)); ctx.check(np.array_equal(v,wv), "vertical line")
					b = draw([[kind]+sky(y,x)+sky(y,x2)+["1",col[0]],[kind]+sky(y2,x)+sky(y2,x2)+["1","blue"]]); wh[y2,min(x,x2):max(x,x2)+1] = (0,0,255,255); ctx.check(np.array_equal(b,wh), "two lines")
				elif kind in ("r","rect"):
					for w in (1,2):
						a = draw([[kind]+sky(y,x)+sky(y2,x2)+["%d" % w,col[0]]]); ya, yb, xa, xb = min(y,y2), max(y,y2), min(x,x2), max(x,x2)
						if yb-ya < 2*w or xb-xa < 2*w: continue
						inn = (Y >= ya) & (Y <= yb) & (X >= xa) & (X <= xb); core = (Y >= ya+w) & (Y <= yb-w) & (X >= xa+w) & (X <= xb-w); want = np.zeros((NY,NX,4),int); want[inn & ~core] = col[1]+(255,); ctx.check(np.array_equal(a,want), "rectangle (%d,%d)-(%d,%d) width %d" % (y,x,y2,x2,w))
				else:
					a = draw([[kind]+sky(y,x)+["HH","8",col[0]]]); op = a[...,3] > 60; ctx.check(np.any(op), "text is drawn"); ctx.check(np.hypot(Y[op]-y,X[op]-x).max() < 12, "text is at its place"); 
					if 8 <= y <= 15 and 8 <= x <= 20: ctx.check(abs(Y[op].mean()-y) <= 3 and abs(X[op].mean()-x) <= 2, "text is centred")
			far = draw([[kind]+["-80","150","0","0"]+((["-80","155","0","0"]+["1","red"]) if kind[0] in "lr" else ["HH","8","red"] if kind[0] == "t" else ["4","1","red"])]); ctx.check(np.all(far == 0), "nothing for annotations outside the map")
			ctx.raises(lambda: draw([["x"]+sky(1,1)]), NotImplementedError, "unknown kind")
def unit_rgbmask(ctx, items):
	for ori, which, op in items:
		with ctx.case("masked rgb", orientation=ori, components=which, infinite=op):
			v = np.inf if op else 0.25; m = mkmap((3,),ori)
			for k in which: m[k,1,2] = v
			m[:,3,4] = v; p = np.array(enplot.plot(m,grid=False,rgb=True,rgb_mode="direct",mask=v,range="1:2:3")[0].img); bad = np.zeros((5,6)); bad[3,4] = 1
			if len(which) == 3: bad[1,2] = 1
			w = view(bad,m); ctx.check(np.array_equal(p[...,3] == 0, w > 0), "exactly the pixels masked in every component are transparent: %s" % np.argwhere((p[...,3] == 0) != (w > 0)).tolist(), state=(ori,which,op))
def unit_contour(ctx, items):
	for spec, typ, want in items:
		with ctx.case("contour levels", spec=spec, type=typ):
			a = enplot.parse_args([]); a.contours = spec; a.contour_type = typ or "uniform"; got = np.asarray(enplot.calc_contours(np.array([[-2.0],[3.0]]),a)).reshape(-1); ctx.close(got,want,1e-9,1e-12,"levels",); ctx.check(True,"",state=(str(spec),typ))
def unit_clist(ctx, items):
	for levels, cs in items:
		with ctx.case("contour colours", levels=levels, colours=cs):
			m = mkmap((),0,7,8); p = enplot.plot(m,grid=False,no_image=True,contours=",".join("%g" % l for l in levels)+",",contour_color=cs); px = np.array(p[0].img); v = view(m,m); tab = table(colorize.Colorscheme(cs).desc); s = sorted(levels); bins = np.sum([v >= l for l in s],0); ctx.check(True,"",state=(levels,cs))
			for y, x in itertools.product(range(6),range(7)):
				o = [bins[q] for q in ((y,x+1),(y+1,x)) if bins[q] != bins[y,x]]; ctx.eq(bool(px[y,x,3]), len(o) > 0 and any(True for _ in o), "contour") if "00" not in cs[6:] else None
				if o: ctx.check(any(agree(px[y,x],lookup(tab,levels.index(s[min(bins[y,x],q)])/max(len(levels)-1,1))) for q in o), "contour colour at %s: %s" % ((y,x),px[y,x]))
def unit_stamps(ctx, items):
	d = tempfile.mkdtemp(prefix="c34.")
	try:
		for ori, size, nmax in items:
			with ctx.case("stamps", orientation=ori, size=size, nmax=nmax):
				m = mkmap((),ori,9,11); pos = np.array([[1.0,10.0],[-2.0,13.0],[0.0,8.0]]); fn = os.path.join(d,"src.txt"); np.savetxt(fn,pos[:,::-1]); ps = enplot.plot(m,grid=False,stamps="%s:%d" % (fn,size)+(":%d" % nmax if nmax else ""),range="1"); n = nmax or 3; ctx.eq(len(ps),n,"one plot per position")
				for p, q in zip(ps,pos):
					px = np.round(m.sky2pix(q*utils.degree)-0.5*size).astype(int); w = np.zeros((size,size))
					for y, x in np.ndindex(size,size):
						if 0 <= px[0]+y < 9 and 0 <= px[1]+x < 11: w[y,x] = m[px[0]+y,px[1]+x]
					colcheck(ctx,p.img,view(w,m),(-1,1),msg="stamp")
				ctx.check(True,"",state=(ori,size,nmax))
	finally: shutil.rmtree(d)
def unit_grid(ctx, items):
	for ori, proj, steps, unit, zen, pos in items:
		with ctx.case("coordinate grid", orientation=ori, proj=proj, steps=steps, unit=unit, zenith=zen, positive_ra=pos):
			shape, wcs = geom(ori,9,11,proj); u = {"d":1.0,"arcmin":1/60.,"s":1/3600.,1:1.0,0.5:0.5}[unit]; st = np.zeros(2)+steps; g = cgrid.calc_gridinfo(shape,wcs,steps=[s/u for s in st],unit=unit,zenith=zen,positive_ra=pos,nstep=[200,200]); plain = proj == "plain"; f = 1.0 if plain else utils.degree
			n = 0
			for kind, lines in ((1,g.lon),(0,g.lat)):
				for val, segs in lines:
					v = val*u; 
					if kind == 0 and zen: v = 90-v
					ctx.close(v/st[kind], np.round(v/st[kind]), 0, 1e-6, "grid lines at multiples of the spacing")
					if not plain and kind == 1: ctx.check((-180-1e-9 <= v <= 180+1e-9) if not pos else (-1e-9 <= v <= 360+1e-9), "range of right ascension")
					for seg in segs:
						p = seg[(seg[:,0] > -0.5)&(seg[:,0] < 10.5)&(seg[:,1] > -0.5)&(seg[:,1] < 8.5)]
						if len(p) == 0: continue
						n += len(p); w = np.array(wcs.wcs_pix2world(p[:,0],p[:,1],0))[1-kind]; diff = w-v if plain else (w-v+180)%360-180; ok = np.abs(diff) < 1e-6
						ctx.check(np.sum(~ok) <= 2*(not plain) and len(ok), "points of the line at %g: %s" % (v,w[~ok][:3]))
			ctx.check(n > 0, "some line crosses the map", state=(ori,proj,steps,unit,zen,pos))
			# Every multiple of the spacing inside the map has its line
			pm = np.array(wcs.wcs_pix2world(*[q.reshape(-1) for q in np.meshgrid(np.arange(11.0),np.arange(9.0))],0))[::-1]; c = pm[:,49]
			for kind, lines in ((1,g.lon),(0,g.lat)):
				x = pm[kind] if plain else (pm[kind]-c[kind]+180)%360-180+c[kind]
				if kind == 1 and not plain and proj not in ("car","cea"): continue
				for k in range(int(np.ceil((x.min()+0.01)/st[kind])),int(np.floor((x.max()-0.01)/st[kind]))+1):
					t = k*st[kind]; have = [any(len(s) for s in segs) for val,segs in lines if abs(((val*u if not (kind == 0 and zen) else 90-val*u)-t+180)%360-180) < 1e-6]; ctx.check(any(have), "line at %g is drawn" % t)
			lab = cgrid.calc_label_pos(g.lat,shape[::-1])+cgrid.calc_label_pos(g.lon,shape[::-1])
			for v, x, y in lab: ctx.check(x in (0,11) or y in (0,9) or (0 <= x < 11 and 0 <= y < 9), "labels are at the edges or inside")
def unit_small(ctx, items):
	for n, nr, nc, tr in items:
		with ctx.case("stacking", n=n, rows=nr, cols=nc, transpose=tr):
			m = mkmap((n,),0,2,3); r = nr if nr > 0 else -1; c = nc if nc > 0 else -1; e = enplot.hwexpand(m,r,c,tr); R, C = e.shape[:2]; ctx.check(R*C >= n and (nr < 0 or R == nr) and (nc < 0 or C == nc), "grid shape %s" % (e.shape,), state=(n,nr,nc,tr))
			for i in range(R*C): y, x = (i%R,i//R) if tr else (i//C,i%C); ctx.check(np.all(e[y,x] == (m[i] if i < n else 0)), "tile %d" % i)
			s = enplot.hwstack(e); ctx.check(s.shape == (R*2,C*3) and all(np.all(s[2*y:2*y+2,3*x:3*x+3] == e[y,x]) for y in range(R) for x in range(C)), "stacked")
	with ctx.case("merging plots"):
		a = enplot.plot(mkmap((),0,9,11),grid=False)[0]; b = enplot.plot(mkmap((),0,9,11),grid=True,no_image=True)[0]; c = enplot.plot(mkmap((),0,9,11),grid=True)[0]; r = enplot.merge_plots([a,b]); ctx.eq(r.img.size,c.img.size,"size"); ctx.check(np.abs(np.array(r.img).astype(int)-np.array(c.img)).max() <= 3, "merged plots are the plot of everything"); ctx.check(np.array_equal(np.array(r.info.bounds),np.array(c.info.bounds)), "bounds", state="merge")
		for f, w in (("a/b.fits",("a","b","fits")),("b.fits.gz",(".","b","fits.gz")),("foo2.5_x.fits",(".","foo2.5_x","fits")),("noext",(".","noext","")),("/a/b/c.d",("/a/b","c","d"))): ctx.eq(tuple(enplot.split_file_name(f)),w,"split_file_name")
		for n, w in ((1,1),(9,1),(10,2),(99,2),(100,3),(999,3),(1000,4)): ctx.eq(enplot.get_num_digits(n),w,"get_num_digits")

def units(tier):
	T = tier == "thorough"; N = sorted(colorize.schemes)
	us  = chunked("scheme", N+WRITTEN, unit_scheme, 2)
	us += chunked("scalar", [(d,drv,T) for d in N+WRITTEN for drv in ("python","fortran")], unit_scalar, 8)
	us += chunked("default", [1,5,100], unit_default, 1)
	us += chunked("direct", [(nc,drv,mode) for nc in (3,4) for drv, mode in (("python","direct"),("fortran","direct"),("fortran","direct_colorcap"))], unit_direct, 6)
	us += chunked("threads", [(mode,nt,n) for mode in ("scalar","direct","direct_colorcap") for nt in (1,2,3,4,8) for n in (1,7,20000)], unit_threads, 1)
	OPT = ["plain","range","range number","ranges","ranges list","minmax","range max","min","quantile","quantile0","gray","custom","reverse","python","op","op2","downgrade","downgrade2","downgrade3","upgrade","upgrade2","slice","slice step","slice flip","slice flip y","slice flip x","autocrop each","mask inf","mask","mask neg","mask tol","nan","inf","constant","allnan","autocrop","sub"]
	us += chunked("plot", [(o,p,dt,x) for x in OPT for o in range(4) for p in ((),(1,),(3,),(2,3)) for dt in ("float64","float32","int32") if T or (dt == "float64" or p == (3,)) and (o < 2 or p in ((),(3,)))], unit_plot, 12)
	us += chunked("styles", [(i,j) for i in range(19) for j in range(i,19) if T or i == j or (i*7+j)%4 == 0], unit_styles, 8)
	us += chunked("rgb", [(o,n,mode,drv,rs) for o in range(4) for n in (3,6) for mode, drv in (("direct","auto"),("direct","python"),("direct_colorcap","auto")) for rs in (False,True)], unit_rgb, 2)
	us += chunked("tile", [(o,p,t,tr) for o in range(4) for p in ((),(1,),(2,),(5,),(2,3)) for t in ("-1","1","2","-1,2","3,2","2,-1","2,3") for tr in (False,True) if (len(t.split(",")) < 2 or -1 in [int(q) for q in t.split(",")] or np.prod([int(q) for q in t.split(",")]) >= (np.prod(p) if p else 1))], unit_tile, 3)
	us += chunked("symmetric", [(o,n) for o in range(4) for n in (1,2,3)], unit_sym, 1)
	us += chunked("annot", [(o,k,r,h) for o in range(4) for k in ("c","circle","l","line","r","rect","t","text") for r in (0,5,100) for h in ("list","file") if T or h == "list" or o == 0], unit_annot, 6)
	us += chunked("rgbmask", [(o,w,i) for o in range(4) for w in ((),(0,),(1,),(2,),(0,1),(1,2),(0,1,2)) for i in (False,True)], unit_rgbmask, 1)
	us += chunked("layers", [(o,pr,op) for o in range(4) for pr in ("car","cea","tan","zea","plain") for op in (("grid",),("grid","nolabels"),("bar",),("grid","bar"),("cont",),("annot",),("grid","bar","cont","annot"),("noimg","grid"),("noimg","cont")) if T or o == 0 or pr in ("car","tan")], unit_layers, 6)
	us += chunked("contours", [("1",None,[-2,-1,0,1,2,3]),("2",None,[-2,0,2]),("0.5:1",None,[-1.5,-0.5,0.5,1.5,2.5]),("0:-5",None,[-2,-1,0,1,2,3]),("1,2,4",None,[1,2,4]),("7,",None,[7]),("-1,0",None,[-1,0]),([1],None,[-2,-1,0,1,2,3]),([0.5,1],"uniform",[-1.5,-0.5,0.5,1.5,2.5]),([0.5,1],"list",[0.5,1]),([3,1,2],"list",[3,1,2])], unit_contour, 1)
	us += chunked("contour colours", [(l,c) for l in ((0.0,),(-0.5,0.5),(0.5,-0.5),(0.1,0.3,-0.6),(-0.8,-0.3,0.2,0.7)) for c in ("000000","ff0000","0:ff0000,1:0000ff","wmap")], unit_clist, 1)
	us += chunked("stamps", [(o,s,n) for o in range(4) for s in (2,3,4) for n in (0,1,2)], unit_stamps, 1)
	us += chunked("grid", [(o,pr,st,u,z,p) for o in range(4) for pr in ("car","cea","tan","zea","plain") for st, u in ((2.0,1),(1.0,"d"),((3.0,2.0),1),(1.0,"arcmin"),(2.0,"s"),(1.0,0.5)) for z in (False,True) for p in (False,True) if T or (o == 0 or (u == 1 and not z and not p))], unit_grid, 8)
	us += chunked("small", [(n,r,c,t) for n in range(1,8) for r, c in ((-1,-1),(1,-1),(2,-1),(-1,2),(3,-1),(-1,3)) for t in (False,True)], unit_small, 1)
	return us
