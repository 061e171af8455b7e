"""C23: angles, rotations and coordinate systems."""
import numpy as np, itertools
from pixell import utils, coordinates
from ..core import chunked
deg = np.pi/180

RULE   = "every sequence of up to the given length over a lattice of angles (and nans) x period x reference x axis for rewrapping; every pair of points of a lattice containing the poles, the seam, nearly coincident and antipodal points for distances; every axis, axis order and angle triple of the lattice for rotations; every pair of coordinate systems x lattice point; oracle: vector geometry in plain numpy"
BOUNDS = "sequences of length 1..5 (quick) or 1..6 over 8 angles, lattice of 60 points on the sphere, separations down to 1e-12 rad, Euler angles in steps of 45 degrees, 4 astropy systems, recentred systems on 6 centres"
ASSUME = ["jumps of exactly half a period are ambiguous and are not generated", "horizontal coordinates need the external enlib package, which is not installed, so they are not claimed", "the polarisation angle is a finite difference, compared to 1e-5 away from the poles of either system"]

PTS = np.array([(ra*deg,dec*deg) for ra in (-180,-179.999,-90,-30,0,45,90,179.999,180,300,370) for dec in (-90,-60,-0.001,0,37,90)]).T
EXTRA = np.array([(0.3+a,0.2+b) for a,b in ((0,0),(1e-12,0),(0,1e-12),(1e-9,1e-9),(1e-6,0),(0,-1e-6),(np.pi,-0.4),(np.pi+1e-9,-0.4),(np.pi,-0.4+1e-9))]).T
def vec(p): return np.array([np.cos(p[1])*np.cos(p[0]),np.cos(p[1])*np.sin(p[0]),np.sin(p[1])])
def vdist(a, b): return np.arctan2(np.sqrt(np.sum(np.cross(a,b,axis=0)**2,0)), np.sum(a*b,0))
def unit_wind(ctx, items):
	for seq, period in items:
		a = np.array(seq)*period/8
		for ref in (0,0.1*period,period*0.5,-2*period):
			with ctx.case("rewind", seq=seq, period=period, ref=ref):
				keep = a.copy(); r = utils.rewind(a,ref,period); ctx.eq(a,keep,"untouched"); k = (r-a)/period; ctx.close(k, np.round(k), 0, 1e-9, "whole periods"); ctx.check(np.all(r >= ref-period/2-1e-9*period) and np.all(r <= ref+period/2+1e-9*period), "window")
				u = utils.unwind(a,period=period,ref=ref); ctx.eq(a,keep,"untouched"); k = (u-a)/period; ctx.close(k, np.round(k), 0, 1e-9, "whole periods"); ctx.check(np.all(np.abs(np.diff(u)) <= period/2*(1+1e-9)), "no jumps left"); ctx.close(u[0], r[0], 1e-9, 1e-9*period, "starts in the window")
				m = utils.unwind(a,period=period,ref=ref,refmode="middle"); k = (m-u)/period; ctx.close(k, np.full(len(a),np.round(k[0])), 0, 1e-9, "the reference only shifts everything"); i = len(a)//2; ctx.close(m[i], r[i], 1e-9, 1e-9*period, "middle is in the window")
				for axes in ([-1],[0],[1]):
					A = np.array([a,a+period]) if axes != [0] else np.array([a,a+period]).T; w = np.array([u,u]); ctx.close(utils.unwind(A,period=period,ref=ref,axes=axes), w if axes != [0] else w.T, 1e-9, 1e-9*period, "axes")
			with ctx.case("rewind auto", seq=seq, period=period):
				r = utils.rewind(a,"auto",period); med = np.sort(a)[len(a)//2]; ctx.close((r-a)/period, np.round((r-a)/period), 0, 1e-9, "whole periods"); ctx.check(np.all(np.abs(r-med) <= period/2*(1+1e-9)), "window")
			for mask in itertools.product((0,1),repeat=len(seq)):
				if sum(mask) in (0,len(seq)) or ref not in (0,period*0.5): continue
				with ctx.case("unwind with nans", seq=seq, period=period, ref=ref, nans=mask):
					m = np.array(mask,bool); b = a.copy(); b[m] = np.nan; u = utils.unwind(b,period=period,ref=ref,mask_nan=True); w = utils.unwind(a[~m],period=period,ref=ref)
					ctx.check(np.all(np.isnan(u[m])), "nans stay"); ctx.close(u[~m], w, 1e-9, 1e-9*period, "good values as if nans were not there")
		with ctx.case("windows of angles", seq=seq, period=period):
			for r0, w in ((0,0.3),(-0.2,0.9),(0.6,0.25),(5.1,0.5)):
				rng = [r0*period,(r0+w)*period]; x = ((a-rng[0])/period)%1; ok = (np.abs(x) > 1e-6)&(np.abs(x-1) > 1e-6)&(np.abs(x-w) > 1e-6)
				ctx.eq(np.asarray(utils.between_angles(a,rng,period))[ok], (x < w)[ok], "between_angles")
			if len(seq) == 2:
				k = a.copy(); r = utils.unwrap_range(a,period); ctx.eq(a,k,"untouched"); ctx.close(((r-a)/period), np.round((r-a)/period), 0, 1e-9, "whole periods"); ctx.check(-1e-9 <= r[1]-r[0] <= period*(1+1e-9) and -1e-9*period <= r[1] <= period*(1+1e-9), "ordered, shortest and straddling zero if possible")
				r = utils.unwrap_range(a.astype(int),360); ctx.check(0 <= r[1]-r[0] < 360, "integers")
			p = np.array([a*0.5*np.pi/(period/8), a*0+0.3]); k = p.copy(); w = utils.pole_wrap(p); ctx.eq(p,k,"untouched"); ctx.check(np.all(np.abs(w[0]) <= np.pi/2+1e-12), "latitude"); ctx.close(vec(w[::-1]), vec(p[::-1]), 0, 1e-12, "pole_wrap keeps the point")
			p = np.array([a[0]*0.45,0.3]); w = utils.pole_wrap(p); ctx.check(abs(w[0]) <= np.pi/2+1e-12, "single latitude"); ctx.close(vec(w[::-1]), vec(p[::-1]), 0, 1e-12, "single point")
			t = utils.triangle_wave(a,period); x = (a/period)%1; ctx.close(t, np.interp(x,[0,0.25,0.75,1],[0,1,-1,0]), 0, 1e-9, "triangle_wave")
			s = utils.to_sexa(a); ctx.close(utils.from_sexa(*s), a, 1e-12, 1e-12, "sexagesimal"); ctx.check(np.all(np.array(s[2]) < 60) and np.all(np.array(s[3]) < 60.0000001) and np.all(np.array(s[1:]) >= 0), "digits"); ctx.close(utils.from_sexa(*utils.to_sexa(float(a[0]))), a[0], 1e-12, 1e-12, "scalar")
def unit_dist(ctx, items):
	P = np.concatenate([PTS,EXTRA],1); V = vec(P)
	for i in items:
		with ctx.case("distances", point=P[:,i]):
			d = vdist(V[:,i:i+1],V); ctx.close(utils.angdist(P[:,i:i+1],P), d, 1e-7, 3e-8 if False else 1e-11, "angdist")
			Z = np.array([P[0],np.pi/2-P[1]]); ctx.close(utils.angdist(Z[:,i:i+1],Z,zenith=True), d, 1e-7, 1e-11, "zenith"); ctx.close(utils.angdist(P.T[i:i+1],P.T,axis=1), d, 1e-7, 1e-11, "axis"); ctx.close(utils.angdist(P[:,i],P[:,3]), d[3], 1e-7, 1e-11, "scalars")
			for s1, s2 in ((1,1),(1,2),(3,0.5),(1e-3,1e3)):
				g = utils.vec_angdist(V[:,i:i+1]*s1,V*s2); ctx.check(not np.any(np.isnan(g)), "vec_angdist is defined"); ctx.close(g, d, 1e-6, 5e-8 if max(s1/s2,s2/s1) < 10 else 2e-2, "vec_angdist")
			ctx.close(utils.vec_angdist(V.T[i:i+1],V.T,axis=1), d, 1e-6, 5e-8, "vec_angdist axis")
			c = utils.ang2chord(d); ctx.close(c, np.sqrt(np.sum((V-V[:,i:i+1])**2,0)), 1e-6, 1e-10, "chord"); ctx.close(utils.chord2ang(np.minimum(c,2)), d, 1e-6, 3e-8, "chord2ang")
			p = P[:,i]; k = p.copy(); v = utils.ang2rect(p); ctx.close(v, V[:,i], 0, 1e-15, "ang2rect"); ctx.eq(p,k,"untouched")
		with ctx.case("vectors", point=P[:,i]):
			for axis in (0,1,2):
				A = np.moveaxis(np.array([[P,P[:,::-1]]]),2,0)[:,0] # [2,2,n]
				A = np.moveaxis(A,0,axis); R = utils.ang2rect(A,axis=axis); ctx.close(R, np.moveaxis(np.array([[V[k],V[k,::-1]] for k in range(3)]),0,axis), 0, 1e-15, "ang2rect axis")
				B = utils.rect2ang(R*2.5,axis=axis); ctx.close(vec(np.moveaxis(B,axis,0)), vec(np.moveaxis(A,axis,0)), 0, 1e-14, "rect2ang"); m = np.moveaxis(B,axis,0); ctx.check(np.all(np.abs(m[1]) <= np.pi/2) and np.all(np.abs(m[0]) <= np.pi), "range")
			Z = utils.rect2ang(V,zenith=True); ctx.check(np.all(Z[1] >= 0) and np.all(Z[1] <= np.pi), "zenith range"); ctx.close(utils.ang2rect(Z,zenith=True), V, 0, 1e-14, "zenith round trip")
def Rref(a, k):
	c, s = np.cos(a), np.sin(a); M = np.eye(3); i, j = [(1,2),(2,0),(0,1)][k]; M[i,i] = M[j,j] = c; M[i,j] = -s; M[j,i] = s; return M
def unit_rot(ctx, items):
	angs = np.arange(-4,5)*45*deg
	for kind in items:
		if len(kind) == 1:
			k = "xyz".index(kind)
			with ctx.case("rotmatrix", axis=kind):
				for a in list(angs)+[0.1,1e-8]:
					for nm in (kind,kind.upper(),k): ctx.close(utils.rotmatrix(a,nm), Rref(a,k), 0, 1e-15, "matrix")
				A = np.array([angs[:6].reshape(2,3)])[0]; want = np.array([[Rref(x,k) for x in r] for r in A])
				ctx.close(utils.rotmatrix(A,kind), want, 0, 1e-15, "array"); ctx.close(utils.rotmatrix(A,kind,axis=0), np.moveaxis(want,(2,3),(0,1)), 0, 1e-15, "axis 0"); ctx.close(utils.rotmatrix(A,kind,axis=1), np.moveaxis(want,(2,3),(1,2)), 0, 1e-15, "axis 1")
				ctx.raises(lambda: utils.rotmatrix(0.1,"w"), ValueError, "unknown axis")
			continue
		for e in itertools.product(angs[1:8:(1 if ctx.thorough else 2)],repeat=3):
			e = np.array(e)+np.array([0.1,0,-0.2])
			with ctx.case("euler", kind=kind, angles=e):
				M = Rref(e[0],"xyz".index(kind[0]))@Rref(e[1],"xyz".index(kind[1]))@Rref(e[2],"xyz".index(kind[2])); ctx.close(coordinates.euler_mat(e,kind), M, 0, 1e-14, "matrix")
				k = PTS.copy(); o = coordinates.euler_rot(e,PTS,kind); ctx.eq(PTS,k,"untouched"); ctx.close(vec(o), M@vec(PTS), 0, 1e-14, "rotation"); ctx.close(vec(coordinates.euler_rot(-e[::-1],o,kind[::-1])), vec(PTS), 0, 1e-13, "inverse")
				ctx.close(coordinates.euler_rot(e,PTS.reshape(2,6,11),kind), o.reshape(2,6,11), 0, 1e-15, "shape"); ctx.close(coordinates.euler_rot(e,PTS[:,7],kind), o[:,7], 0, 1e-15, "single")
				E = np.array([e,-e]).T; ctx.close(coordinates.euler_mat(E,kind), np.array([M,coordinates.euler_mat(-e,kind)]), 0, 1e-14, "arrays of angles")
				if kind == "zyz":
					ok = (np.abs(PTS[1]) < 89*deg) & (np.abs(o[1]) < 89*deg); t = coordinates.transform_euler(e,PTS[:,ok],pol=True,mag=True); ctx.close(vec(t), vec(o[:,ok]), 0, 1e-14, "transform_euler")
					ctx.close(np.exp(1j*t[2]), np.exp(1j*psi(M,PTS[:,ok],o[:,ok])), 0, 3e-5, "rotation of the polarization"); ctx.close(t[3], np.cos(PTS[1,ok])/np.cos(o[1,ok]), 1e-9, 1e-9, "magnification")
					t2 = coordinates.transform_euler(e,np.concatenate([PTS[:,ok],PTS[:1,ok]*0+0.7])); ctx.close(t2[2], t[2]+0.7, 1e-12, 1e-12, "angles add"); ctx.check(coordinates.transform_euler(e,PTS[:,ok]).shape == (2,ok.sum()), "no fields")
def east(p): return np.array([-np.sin(p[0]),np.cos(p[0]),0*p[0]])
def north(p): return np.array([-np.sin(p[1])*np.cos(p[0]),-np.sin(p[1])*np.sin(p[0]),np.cos(p[1])])
def psi(M, p, o):
	e = M@east(p); return np.arctan2(np.sum(e*north(o),0),np.sum(e*east(o),0))
def galmat():
	ra, dec, l = 192.8594812065348*deg, 27.12825118085622*deg, 122.9319185680026*deg
	return Rref(l,2)@Rref(-(np.pi/2-dec),1)@Rref(-ra,2) @ np.eye(3) if False else Rref(l-np.pi,2)@Rref(-(np.pi/2-dec),1)@Rref(-ra,2)
NAMES = {"icrs":["equ","equatorial","cel","celestial","icrs","CEL"],"galactic":["gal","galactic","Galactic"],"barycentrictrueecliptic":["ecl","ecliptic"],"tele":["tele"]}
SYS = ["cel","gal","ecl"]
def unit_sys(ctx, items):
	f = np.abs(PTS[1]) < 85*deg; P = PTS[:,f]
	for a, b in items:
		with ctx.case("transform", systems=[a,b]):
			k = P.copy(); o = coordinates.transform(a,b,P); ctx.eq(P,k,"untouched"); ctx.check(o.shape == P.shape, "shape")
			# a rotation: fit it on three points and test on all
			X, Y = vec(P), vec(o); M = Y@np.linalg.pinv(X); ctx.close(M@M.T, np.eye(3), 0, 1e-9, "rotation matrix"); ctx.close(np.linalg.det(M), 1.0, 0, 1e-9, "orientation"); ctx.close(M@X, Y, 0, 1e-10, "the same rotation everywhere")
			if (a,b) == ("cel","gal"): ctx.close(M, galmat(), 0, 2e-7, "the galactic system")
			if (a,b) == ("cel","ecl"): ctx.close(M, Rref(-23.4392794*deg,0), 0, 2e-4, "the ecliptic system")
			if a == b: ctx.close(M, np.eye(3), 0, 1e-12, "identity")
			ctx.close(vec(coordinates.transform(b,a,o)), X, 0, 1e-10, "inverse")
			full = coordinates.transform(a,b,PTS); ctx.close(vec(full), M@vec(PTS), 0, 1e-10, "poles and seam")
			for m in SYS: ctx.close(vec(coordinates.transform(m,b,coordinates.transform(a,m,P))), Y, 0, 1e-9, "composition")
			ctx.close(coordinates.transform(a,b,P.reshape(2,-1,4)), o.reshape(2,-1,4), 0, 1e-12, "axes"); ctx.close(coordinates.transform(a,b,P[:,5]), o[:,5], 0, 1e-12, "single"); ctx.close(coordinates.transform(a,b,np.array([[0,1],[0,1]])), coordinates.transform(a,b,np.array([[0,1.0],[0,1]])), 0, 1e-12, "integers"); ctx.close(coordinates.transform_raw(a,b,np.array([[0,1],[0,1]])), coordinates.transform(a,b,np.array([[0,1.0],[0,1]])), 0, 1e-12, "integers, raw"); ctx.close(vec(coordinates.transform_raw(a,b,P)), Y, 0, 1e-12, "raw"); ctx.close(coordinates.transform(a,b,P,time=np.arange(P.shape[1])+55000.), o, 0, 1e-12, "times broadcast")
			ok = np.abs(o[1]) < 88*deg; want = psi(M,P,o)[ok]
			t = coordinates.transform(a,b,P,pol=True); ctx.close(t[:2], o, 0, 1e-12, "positions"); ctx.close(np.exp(1j*t[2])[ok], np.exp(1j*want), 0, 1e-5, "polarization")
			# into the other system and back again is no rotation at all
			r = coordinates.transform(b,a,t); ctx.check(r.shape == t.shape, "fields"); ctx.close(np.exp(1j*r[2])[ok], np.ones(ok.sum()), 0, 2e-5, "polarization round trip")
			t = coordinates.transform(a,b,P,pol=True,mag=True); ctx.close(t[3], np.cos(P[1])/np.cos(o[1]), 1e-9, 1e-9, "magnification"); t = coordinates.transform(a,b,P,mag=True); ctx.check(t.shape[0] == 3, "only magnification"); ctx.close(t[2], np.cos(P[1])/np.cos(o[1]), 1e-9, 1e-9, "only magnification")
			t = coordinates.transform(a,b,np.concatenate([P,P*0+np.array([[0.3],[2.0]])])); ctx.close(np.exp(1j*(t[2]-0.3))[ok], np.exp(1j*want), 0, 1e-5, "previous angle"); ctx.close(t[3], 2*np.cos(P[1])/np.cos(o[1]), 1e-9, 1e-9, "previous magnification")
			for x in NAMES[coordinates.getsys(a)]:
				for y in NAMES[coordinates.getsys(b)]: ctx.close(coordinates.transform(x,y,P[:,:3]), o[:,:3], 0, 1e-12, "names")
def unit_center(ctx, items):
	for c in items:
		with ctx.case("recentering", center=c):
			c0 = np.array(c)*deg; P = PTS; Mr = Rref(-(np.pi/2-c0[1]),1)@Rref(-c0[0],2)
			k = c0.copy(); o = coordinates.recenter(P,c0); ctx.eq(c0,k,"untouched"); ctx.close(vec(o), Mr@vec(P), 0, 1e-13, "recenter"); ctx.close(vec(coordinates.decenter(o,c0)), vec(P), 0, 1e-13, "decenter"); ctx.close(vec(coordinates.recenter(c0[:,None],c0)), np.array([[0],[0],[1.0]]), 0, 1e-13, "centre is at the pole")
			o = coordinates.recenter(P,c0,restore=True); ctx.close(vec(o), Rref(c0[0],2)@Mr@vec(P), 0, 1e-13, "restore"); ctx.close(vec(coordinates.decenter(o,c0,restore=True)), vec(P), 0, 1e-13, "inverse of restore")
			for to in ((0,0),(40,-30),(200,80)):
				t0 = np.array(to)*deg; cc = np.concatenate([c0,t0]); k = cc.copy()
				for rs in (False,True):
					o = coordinates.recenter(P,cc,restore=rs); ctx.eq(cc,k,"untouched"); ctx.close(vec(coordinates.decenter(o,cc,restore=rs)), vec(P), 0, 1e-13, "inverse"); d = vec(coordinates.recenter(c0[:,None],cc,restore=rs))[:,0]; ctx.close(d, vec(t0+np.array([c0[0]*rs,0])), 0, 1e-13, "centre goes to the target")
					C2 = np.repeat(cc[:,None],P.shape[1],1); k2 = C2.copy(); ctx.close(vec(coordinates.recenter(P,C2,restore=rs)), vec(o), 0, 1e-13, "one centre per point"); coordinates.decenter(P,C2,restore=rs); ctx.eq(C2,k2,"centres untouched")
			s = "%g_%g" % tuple(c); ctx.close(vec(coordinates.transform("cel","cel:"+s,P)), vec(coordinates.recenter(P,c0)), 0, 1e-10, "named system"); ctx.close(vec(coordinates.transform("cel:"+s,"cel",P)), vec(coordinates.decenter(P,c0)), 0, 1e-10, "from named system")
			ctx.close(vec(coordinates.transform("gal","cel:"+s,P)), vec(coordinates.recenter(coordinates.transform("gal","cel",P),c0)), 0, 1e-9, "through another system")
			g0 = coordinates.transform("cel","gal",c0); ctx.close(vec(coordinates.transform("cel","gal:"+s+":cel",P)), vec(coordinates.recenter(coordinates.transform("cel","gal",P),g0)), 0, 1e-9, "centre given in another system")
			ctx.close(vec(coordinates.transform("cel","cel:"+s+"/40_-30",P)), vec(coordinates.recenter(P,np.concatenate([c0,[40*deg,-30*deg]]))), 0, 1e-10, "named target")
			ctx.close(vec(coordinates.transform("tele","bore",P,bore=c0)), vec(coordinates.recenter(P,c0)), 0, 1e-10, "boresight"); ctx.close(vec(coordinates.transform("bore","tele",P,bore=c0)), vec(coordinates.decenter(P,c0)), 0, 1e-10, "from boresight")
			h = coordinates.transform("tele","hor",P); ctx.close(vec(coordinates.transform("hor","tele",h)), vec(P), 0, 1e-12, "telescope tilt"); site = coordinates.default_site; az, ti = site.base_az*deg, site.base_tilt*deg; ctx.close(vec(h), Rref(az,2)@Rref(ti,1)@Rref(-az,2)@vec(P), 0, 1e-12, "tilt of the base")
def unit_misc(ctx, items):
	for d, R in items:
		with ctx.case("overlap of disks", d=d, R=R):
			# numerical area of the overlap of two caps / disks
			x = np.linspace(d/2,R,20001) if d < 2*R else np.array([0,0.0])
			flat = 4*np.trapezoid(np.sqrt(np.maximum(R**2-x**2,0)),x) if d < 2*R else 0.0
			ctx.close(utils.disk_overlap(d,R), flat, 1e-4, 1e-12, "flat")
			if R <= np.pi/2:
				if d < 2*R:
					# integrate over the polar angle around the first centre
					t = np.linspace(1e-9,R,20001); cosphi = (np.cos(R)-np.cos(t)*np.cos(d))/np.where(np.sin(t)*np.sin(d) == 0,1e-300,np.sin(t)*np.sin(d)); w = 2*np.arccos(np.clip(cosphi,-1,1)) if d > 0 else np.full(len(t),2*np.pi); cur = np.trapezoid(w*np.sin(t),t)
				else: cur = 0.0
				ctx.close(utils.disk_overlap_curved(np.array([d*1.0]),np.array([R*1.0])), [cur], 2e-3, 1e-9, "curved")
def unit_edge(ctx, items):
	for poly in items:
		with ctx.case("poly_edge_dist", polygon=poly):
			V = np.array(poly)*deg; pts = np.array([(x*deg,y*deg) for x in range(-20,21,5) for y in range(-20,21,5)])
			best = np.full(len(pts),9.0); n = len(V)
			for i in range(n):
				a, b = vec(V[i]), vec(V[(i+1)%n]); om = vdist(a,b); t = np.linspace(0,1,4001); seg = (np.sin((1-t)*om)*a[:,None]+np.sin(t*om)*b[:,None])/np.sin(om)
				best = np.minimum(best, np.array([np.min(vdist(vec(p)[:,None],seg)) for p in pts]))
			ctx.close(utils.poly_edge_dist(pts,V), best, 1e-3, 2e-4*deg*20, "distance")
def units(tier):
	t = tier == "thorough"
	vals = (-9.7,-3.1,0,1.3,2.9,5.2,8.4,23.1)
	seqs = [s for m in range(1,4) for s in itertools.product(vals,repeat=m)]+list(itertools.product(vals[1:6],repeat=4))+(list(itertools.product(vals[1:6],repeat=5)) if t else [])
	yield from chunked("wind", [(s,p) for s in seqs for p in ((2*np.pi,360) if t or len(s) < 4 else (360,))], unit_wind, 24)
	yield from chunked("dist", range(PTS.shape[1]+EXTRA.shape[1]), unit_dist, 8)
	kinds = ["x","y","z"]+["".join(k) for k in itertools.product("xyz",repeat=3)]
	yield from chunked("rot", kinds, unit_rot, 15)
	yield from chunked("sys", [(a,b) for a in SYS for b in SYS], unit_sys, 9)
	yield from chunked("center", [(0,0),(10,20),(-170,-60),(90,89),(0,-90),(300,45)], unit_center, 6)
	yield from chunked("misc", [(d,R) for R in (1e-5,0.01,0.3,1.0,1.5) for d in (0,1e-6*R,0.3*R,R,1.9*R,2*R,3*R)], unit_misc, 4)
	yield from chunked("edge", [[(-10,-10),(10,-10),(10,10),(-10,10)],[(0,-12),(12,0),(0,12),(-12,0)],[(-15,-5),(15,-8),(3,14)]], unit_edge, 3)
