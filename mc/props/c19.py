"""C19: lensing: displaced positions, lensed, unlensed and delensed maps."""
import numpy as np, itertools
from pixell import enmap, lensing, curvedsky, utils
from .. import geo as G, sht
from ..core import chunked
from .c18 import matrix
deg = np.pi/180

RULE   = "every declination x right ascension x displacement length x direction of the lattice for the position offsets; every geometry x harmonic mode of phi x harmonic mode of the signal x requested output combination x block size for curved-sky lensing; every unit impulse map x displacement pattern x interpolation order x border for flat-sky lensing; oracle: rotation of 3-d vectors, brute-force spherical harmonics, dense interpolation matrices"
BOUNDS = "dec -90..90, displacements 0 and 1e-9..3 rad in 24 directions; curved maps up to 7x12, lmax 3 for phi and 4 for the signal, all output strings of up to 3 (quick) or 5 letters, block sizes 1 row..whole map; flat maps up to 6x8, orders 0,1,3,5"
ASSUME = ["flat-sky lensing is defined by the chosen interpolation kernel, so it is compared with that kernel rather than with the true field", "the approximate geodesic=False offset is only compared to second order in the displacement, away from the poles", "the curved-sky synthesis at arbitrary positions is accurate to 1e-5 (its epsilon)", "lens_map(deriv=True) is not claimed"]

def basis3(dec, ra):
	c, s, cr, sr = np.cos(dec), np.sin(dec), np.cos(ra), np.sin(ra); z = 0*c
	return np.array([c*cr,c*sr,s]), np.array([-s*cr,-s*sr,c]), np.array([-sr,cr,z])
def offset3(dec, ra, g0, g1):
	"""reference: position reached and the angle gamma by which the local (north,east) frame at the
	destination is rotated once carried back along the geodesic"""
	r, n, e = basis3(dec, ra)
	d = np.hypot(g0, g1); u0, u1 = np.where(d>0,g0/np.where(d>0,d,1),1), np.where(d>0,g1/np.where(d>0,d,1),0)
	t = n*u0+e*u1
	r2 = r*np.cos(d)+t*np.sin(d); t2 = t*np.cos(d)-r*np.sin(d); b = n*(-u1)+e*u0
	dec2 = np.arctan2(r2[2], np.hypot(r2[0],r2[1])); ra2 = np.arctan2(r2[1],r2[0])
	_, n2, e2 = basis3(dec2, ra2)
	# n2 in the carried frame (t2,b) -> same components at the origin
	a, c = np.sum(n2*t2,0), np.sum(n2*b,0)
	nb = t*a+b*c
	return dec2, ra2, np.arctan2(np.sum(nb*e,0), np.sum(nb*n,0)), r2

LENS = [0.0, 1e-9, 1e-5, 1e-3, 0.02, 0.2, 1.0, 2.0, 3.0]
def unit_offset(ctx, items):
	dirs = np.arange(24)*15*deg
	for dec, d in items:
		for ra in (0.0, 1.0, -3.0, 7.0):
			ip = np.array([np.full(24,dec*deg), np.full(24,ra)]); g = np.array([d*np.cos(dirs),d*np.sin(dirs)])
			g[np.abs(g)<1e-15*max(d,1e-12)] = 0
			dec2, ra2, gam, r2 = offset3(ip[0], ip[1], g[0], g[1])
			dra = (ra2-ip[1]+np.pi)%(2*np.pi)-np.pi
			# points displaced by less than 90 degrees in longitude, and not to a pole
			ok = (np.abs(dra) < np.pi/2-1e-4) & (np.abs(np.cos(dec2)) > 1e-9)
			pole = abs(dec) == 90
			with ctx.case("offset_by_grad", dec=dec, ra=ra, d=d):
				keep = g.copy(), ip.copy()
				o2 = lensing.offset_by_grad(ip, g)
				o3 = lensing.offset_by_grad(ip, g, pol=True)
				ctx.eq(g, keep[0], "displacement untouched"); ctx.eq(ip, keep[1], "positions untouched")
				ctx.check(o2.shape == (2,24) and o3.shape == (3,24), "shapes"); ctx.close(o3[:2], o2, 1e-12, 1e-12, "pol makes no difference to the position")
				tol = 1e-9+ (2e-8 if abs(dec) > 80 or d > 1 else 0)
				ctx.close(np.sin(o2[0]), np.sin(dec2), 0, 1e-12, "declination")
				if not pole:
					got = G.unitvec(o2)
					if ok.any():
						ctx.close(got[:,ok], r2[:,ok], 0, tol, "position reached")
						ctx.check(np.all(np.abs(o2[1]-ip[1])[ok] < np.pi/2), "longitude stays in the branch of the start")
					# away from antipodes and from poles the frame rotation is well defined
					rok = ok & (np.cos(dec2) > 1e-3) & (d > 0)
					if d < 1 and rok.any(): ctx.close(np.exp(1j*o3[2])[rok], np.exp(-2j*gam)[rok], 0, 1e-5 if d < 1e-4 else 1e-7, "rotation of the polarization")
				if d == 0:
					# positions themselves
					ctx.close(o2, ip, 0, 3e-8, "no displacement"); ctx.close(np.exp(1j*o3[2]), np.ones(24), 0, 1e-3 if pole else 1e-6, "no rotation")
				# shapes: nd, and an accumulated angle
				o = lensing.offset_by_grad(np.concatenate([ip,ip[:1]*0+0.25]).reshape(3,4,6), g.reshape(2,4,6))
				ctx.check(o.shape == (3,4,6), "nd"); ctx.close(o[2].reshape(-1), o3[2]+0.25, 1e-12, 1e-12, "angles add up"); ctx.close(o[:2].reshape(2,-1), o2, 0, 0, "nd positions")
				if abs(dec) <= 60 and d <= 0.02:
					a = lensing.offset_by_grad(ip, g, geodesic=False, pol=True)
					ctx.close(a[0], o3[0], 0, 2*d**2+1e-8, "approximate dec"); ctx.close(a[1], o3[1], 0, 8*d**2+1e-8, "approximate ra")
			if pole or d == 0: continue
			far = (np.abs(dra) > np.pi/2+1e-4) & (np.cos(dec2) > 1e-9)
			if far.any():
				with ctx.case("offset_by_grad turning by more than 90 degrees in longitude", dec=dec, ra=ra, d=d):
					e = np.max(np.abs(G.unitvec(o2)[:,far]-r2[:,far]))
					f = np.max(np.abs(np.sin(o2[1]-ip[1])-np.sin(dra))[far]*np.cos(dec2)[far])
					ctx.check(f < 1e-6, "the size of the longitude change is wrong")
					ctx.check(e < 1e-6, "longitude change is folded back below 90 degrees")
		if abs(dec) >= 60 and d <= 0.6 and d > 0:
			# the approximate version also handles crossing the pole
			with ctx.case("pole_wrap", dec=dec, d=d):
				p = np.array([[dec*deg+d, dec*deg-d],[0.3,0.4]]); w = lensing.pole_wrap(p)
				ctx.check(np.all(np.abs(w[0]) <= np.pi/2+1e-12), "within the poles"); ctx.close(G.unitvec(w), G.unitvec(p), 0, 1e-12, "same point")
				for i in range(2): ctx.close(lensing.pole_wrap(p[:,i:i+1]), w[:,i:i+1], 0, 1e-12, "one position by itself")
				q = np.array([[dec*deg],[0.3]])
				for s in (1,-1):
					a = lensing.offset_by_grad(q, np.array([[s*d],[0.0]]), geodesic=False); r = np.array([[dec*deg+s*d],[0.3]]); ctx.close(G.unitvec(a), G.unitvec(r), 0, 1e-12, "approximate displacement along the meridian")

def spec(lmax, seed):
	"""deterministic alm with every mode excited"""
	lm = sht.LM(lmax); a = np.array([np.cos(seed+1.3*i)+1j*np.sin(2.1*i+seed) for i in range(len(lm))])
	return np.array([v.real if m == 0 else v for v,(l,m) in zip(a,lm)]), lm
def synth(spin, lmax, alms, dec, ra):
	"""alms [ncomp,nelem] in triangular layout"""
	B = sht.basis(spin, lmax, lmax, np.pi/2-dec.reshape(-1), ra.reshape(-1)); lm = {x:i for i,x in enumerate(sht.LM(lmax))}
	out = 0
	for (c,l,m,p), mp in B: v = alms[c][lm[l,m]]; out = out + mp*(v.real if p == 0 else v.imag)
	return out.reshape((-1,)+dec.shape)
def synth_deriv(lmax, alm, dec, ra):
	B = sht.basis_deriv(lmax, lmax, np.pi/2-dec.reshape(-1), ra.reshape(-1)); lm = {x:i for i,x in enumerate(sht.LM(lmax))}
	out = 0
	for (c,l,m,p), mp in B: v = alm[lm[l,m]]; out = out + mp*(v.real if p == 0 else v.imag)
	return out.reshape((2,)+dec.shape)
def teb(lmax, seed):
	a = np.array([spec(lmax,seed+k)[0] for k in range(3)]); lm = sht.LM(lmax)
	for i,(l,m) in enumerate(lm):
		if l < 2: a[1:,i] = 0
	return a
GEOS = {"patch":((6,7),G.mkwcs("CAR",[20,0],[-3,3],[4,-8])), "high":((5,12),G.mkwcs("CAR",[0,0],[-2,2],[4,-36])), "full":((6,12),G.mkwcs("CAR",[15,0],[-30,30],[6,3.5])), "down":((7,4),G.mkwcs("CAR",[-70,0],[2,-2],[1,10])), "tan":((5,6),G.mkwcs("TAN",[50,40],[-2,2],[3,3]))}
def refs(name, amp, seed, ncomp):
	shape, wcs = GEOS[name]; pos = G.ref_pix2sky(wcs, G.pixgrid(shape))
	phi = spec(3, seed)[0]*amp; cmb = teb(4, seed+10)[:ncomp]
	R = {"phi":phi,"cmb":cmb,"pos":pos}
	R["p"] = synth(0,3,[phi],*pos)[0]; lm = sht.LM(3)
	R["k"] = synth(0,3,[phi*np.array([l*(l+1)/2 for l,m in lm])],*pos)[0]
	R["a"] = synth_deriv(3,phi,*pos)
	def sky(p): return np.concatenate([synth(0,4,cmb[:1],*p)]+([synth(2,4,cmb[1:],*p)] if ncomp == 3 else []))
	R["u"] = sky(pos)
	d2, r2, gam, _ = offset3(pos[0], pos[1], R["a"][0], R["a"][1])
	R["gam"] = gam
	R["raw"] = sky(np.array([d2,r2]))
	R["dra"] = (r2-pos[1]+np.pi)%(2*np.pi)-np.pi
	return R
def rotqu(m, ang):
	q = (m[1]+1j*m[2])*np.exp(1j*ang); return np.array([m[0],q.real,q.imag])
OUT = lambda quick: ["l","u","p","k","a","lu","ul","up","pk","ka","au","lpk","kul","aul","upa"]+([] if quick else ["".join(p) for n in (2,3,5) for p in itertools.permutations("lupka",n)][::3]+["lupka"])
def unit_curved(ctx, items):
	for name, amp, ncomp in items:
		R = refs(name, amp, 1, ncomp); shape, wcs = GEOS[name]; ny = shape[0]
		tol = 3e-5
		step = abs(wcs.wcs.cdelt[1])*deg
		for output in OUT(ctx.quick):
			for dt in ([None,1.01*step,2.01*step,3.01*step,0.1*step,100*step] if name != "tan" else [None]):
				if dt is not None and output not in ("l","u","p","k","a","lu","kul","lupka"): continue
				for layout in (0,1):
					if layout and (dt is not None or output not in ("p","k","a","l","lpk")): continue
					with ctx.case("lens_map_curved", geo=name, amp=amp, ncomp=ncomp, output=output, delta=None if dt is None else dt/step, layout=layout):
						kw = {}; phi = R["phi"]
						if layout:
							ai = curvedsky.alm_info(lmax=3, mmax=3, layout="rect"); phi = curvedsky.transfer_alm(curvedsky.alm_info(lmax=3), R["phi"], ai); kw["phi_ainfo"] = ai
						keep = phi.copy(), R["cmb"].copy()
						sh = shape if ncomp == 1 else (3,)+shape
						cmb = R["cmb"][0][None] if ncomp == 1 else R["cmb"]
						res = lensing.lens_map_curved(sh, wcs, phi, cmb, output=output, delta_theta=dt, **kw)
						ctx.check(isinstance(res,tuple) and len(res) == len(output), "one map for each letter")
						ctx.eq(phi, keep[0], "phi untouched"); ctx.eq(R["cmb"], keep[1], "alm untouched")
						for c, m in zip(output, res):
							want = R[c] if c != "l" else R["raw"]
							if ncomp == 1 and c in "lu": want = want[0]
							ctx.check(m.shape == want.shape and G.wcs_key(m.wcs) == G.wcs_key(wcs), "geometry of "+c)
							sc = np.max(np.abs(want)); use = np.abs(R["dra"]) < np.pi/2-1e-4
							if c != "l": ctx.close(m, want, 0, tol*sc, c); continue
							if ncomp == 1: ctx.close(np.array(m)[use], want[use], 0, tol*sc, "lensed"); continue
							m, want = np.array(m)[:,use], want[:,use]; gam = R["gam"][use]
							ctx.close(m[0], want[0], 0, tol*sc, "lensed intensity")
							ctx.close(np.hypot(m[1],m[2]), np.hypot(want[1],want[2]), 0, tol*sc, "lensed polarized intensity")
							right, twice = rotqu(want,-2*gam), rotqu(want,-4*gam)
							isr, is2 = np.max(np.abs(m-right)) < tol*sc, np.max(np.abs(m-twice)) < tol*sc
							ctx.check(isr or is2, "lensed polarization angle")
							if not isr: pol_wrong = True
							else: pol_wrong = False
					if "l" in output and ncomp == 3 and dt is None and not layout:
						with ctx.case("lensed polarization direction", geo=name, amp=amp):
							ctx.check(not pol_wrong, "polarization is rotated by twice the angle of parallel transport")
		with ctx.case("zero potential", geo=name, ncomp=ncomp):
			l, u, a = lensing.lens_map_curved(shape if ncomp == 1 else (3,)+shape, wcs, R["phi"]*0, R["cmb"], output="lua")
			want = R["u"][0] if ncomp == 1 else R["u"]
			ctx.close(l, want, 0, tol*np.max(np.abs(want)), "unchanged"); ctx.check(np.all(np.array(a) == 0), "no deflection")
		with ctx.case("approximate", geo=name, ncomp=ncomp):
			if name in ("patch","down"):
				l, = lensing.lens_map_curved(shape if ncomp == 1 else (3,)+shape, wcs, R["phi"]*0.01, R["cmb"], geodesic=False)
				R2 = refs(name, amp*0.01, 1, ncomp); want = R2["raw"][0] if ncomp == 1 else R2["raw"]
				ctx.close(l, want, 0, (tol+100*(amp*0.03)**2)*np.max(np.abs(want)), "close to the exact one")

def unit_kappa(ctx, items):
	for lmax, layout, pre in items:
		with ctx.case("kappa", lmax=lmax, layout=layout, pre=pre):
			ai = curvedsky.alm_info(lmax=lmax, layout=layout); l_of = np.full(ai.nelem,-1)
			for m in range(lmax+1):
				for l in range(m,lmax+1): l_of[ai.lm2ind(l,m)] = l
			ok = l_of >= 0
			a = (np.cos(np.arange(ai.nelem))+1j*np.sin(np.arange(ai.nelem)))*ok; a = np.broadcast_to(a,(2,3)[:pre]+a.shape).copy(); keep = a.copy()
			kw = {} if layout in ("tri","triangular") else {"phi_ainfo":ai}
			k = lensing.phi_to_kappa(a, **kw); ctx.eq(a, keep, "untouched"); ctx.close(k[...,ok], (a*l_of*(l_of+1)/2)[...,ok], 1e-13, 0, "kappa")
			kw = {"kappa_ainfo":v for v in kw.values()}; keep = k.copy()
			p = lensing.kappa_to_phi(k, **kw); ctx.eq(k, keep, "untouched"); ctx.close(p[...,ok], (a*(l_of>0))[...,ok], 1e-13, 0, "back")

def unit_rand(ctx, items):
	"""the random fields are those of curvedsky.rand_alm for the requested seeds"""
	for ncomp, lmax, out in items:
		with ctx.case("rand_map", ncomp=ncomp, lmax=lmax, output=out):
			n = ncomp+1; l = np.arange(7.); A = np.eye(n)+0.3*np.cos(np.arange(n*n)).reshape(n,n); ps = A.dot(A.T)[:,:,None]*(1e-3/(1+l)**2); ps[:,1:,:2] *= 1
			phi, cmb, ai = lensing.rand_alm(ps, lmax=lmax, seed=3, ncomp=ncomp)
			ref = curvedsky.rand_alm(ps, lmax=lmax, seed=3)
			ctx.close(phi, ref[0], 1e-12, 1e-14, "phi"); ctx.close(cmb, ref[1:], 1e-12, 1e-14, "cmb"); ctx.check(ai.lmax == (lmax or 6), "lmax")
			big = np.concatenate([np.concatenate([ps,ps[:,:1]],1),np.concatenate([ps,ps[:,:1]],1)[:1]],0)
			shape, wcs = GEOS["patch"]; sh = shape if ncomp == 1 else (ncomp,)+shape
			r = lensing.rand_map(sh, wcs, ps, lmax=lmax, seed=3, output=out)
			r2 = lensing.lens_map_curved(sh, wcs, phi, cmb, output=out)
			ctx.check(len(r) == len(out), "outputs")
			for a, b in zip(r, r2): ctx.close(a, b, 1e-10, 1e-12, "same as lensing the random alms"); ctx.check(a.shape[-2:] == shape, "shape")
			# separate seeds: phi and cmb streams are independent of each other
			P = ps.copy(); P[0,1:] = 0; P[1:,0] = 0
			p1, c1, _ = lensing.rand_alm(P, lmax=lmax, seed=3, phi_seed=4, ncomp=ncomp); p2, c2, _ = lensing.rand_alm(P, lmax=lmax, seed=5, phi_seed=4, ncomp=ncomp); p3, c3, _ = lensing.rand_alm(P, lmax=lmax, seed=3, phi_seed=6, ncomp=ncomp)
			ctx.eq(p1, p2, "phi depends on its own seed only"); ctx.eq(c1, c3, "cmb depends on its own seed only"); ctx.check(np.any(c1 != c2) and np.any(p1 != p3), "seeds have an effect")
			L = (lmax or 6)+1
			ctx.close(p1[:L].imag, p1[:L].imag*0, 0, 0, "m=0 is real"); ctx.close(c1[:,:L].imag, c1[:,:L].imag*0, 0, 0, "m=0 is real")
			q, c, _ = lensing.rand_alm(P, lmax=lmax, seed=3, phi_seed=4); ctx.close(q, p1, 1e-12, 1e-15, "ncomp defaults to all")
			# the same white noise as curvedsky.rand_alm, scaled the same way
			ref = curvedsky.rand_alm(P[0,0], lmax=lmax, seed=4); ctx.close(p1, ref, 1e-10, 1e-14, "phi with its own seed")

def disp(shape, kind):
	y, x = np.mgrid[:shape[0],:shape[1]]
	return {"zero":np.array([0*y,0*x])*1.0, "int":np.array([0*y+1,0*x-2])*1.0, "half":np.array([0*y+0.5,0*x-0.25]), "wave":np.array([0.7*np.cos(1.1*x+y),0.6*np.sin(0.7*y-x)]), "far":np.array([3.3*np.cos(x+2*y),-9.7*np.sin(x+0.1)])}[kind]
def pref(n, order, border):
	S = matrix(np.arange(n,dtype=float), n, "spline", order, border); return np.linalg.inv(S)
BM = {"cyclic":"cyclic","mirror":"mirror"}
def op(shape, pix, mode, order, border):
	"""dense [npix,npix] displacement operator"""
	A = [matrix(pix[i].reshape(-1), shape[i], mode, order, border) for i in range(2)]
	if mode == "spline" and order > 1: A = [a.dot(pref(n,order,border)) for a,n in zip(A,shape)]
	return np.einsum("ky,kx->kyx",*A).reshape(-1,shape[0]*shape[1])
FL = {"car":((5,7),G.mkwcs("CAR",[10,0],[-1,1],[4,3])), "up":((6,8),G.mkwcs("CAR",[-60,0],[0.5,-0.5],[2,30])), "one":((4,4),G.mkwcs("CEA",[0,0],[-2,2],[2,2.5]))}
def unit_flat(ctx, items):
	for name, kind, mode, order, border, npre in items:
		shape, wcs = FL[name]; pre = (2,3)[:npre]; d = disp(shape, kind)
		if order == 0: d = d+0.013
		pix0 = G.pixgrid(shape); pix = pix0+d
		A = op(shape, pix, mode, order, border)
		N = shape[0]*shape[1]
		with ctx.case("displace_map", geo=name, kind=kind, mode=mode, order=order, border=border, pre=npre):
			m = enmap.enmap(np.eye(N).reshape((N,)+shape), wcs); keep = np.array(m)
			o = lensing.displace_map(m, pix, order=order, mode=mode, border=border)
			ctx.check(o.shape == m.shape and G.wcs_key(o.wcs) == G.wcs_key(wcs), "geometry"); ctx.close(np.array(o).reshape(N,N), A.T, 0, 1e-10, "weights"); ctx.eq(np.array(m), keep, "input untouched")
			t = lensing.displace_map(m, pix, order=order, mode=mode, border=border, trans=True)
			ctx.close(np.array(t).reshape(N,N), A, 0, 1e-10, "transpose"); ctx.eq(np.array(m), keep, "input untouched by the transpose")
		# lens_map: displacement given in radians on the sky
		sky = G.ref_pix2sky(wcs, pix0)
		lin = np.array(G.ref_pix2sky(wcs, np.array([[0,1.],[0,1.]]))); 
		with ctx.case("lens_map", geo=name, kind=kind, mode=mode, order=order, border=border, pre=npre):
			if name == "one": continue
			gp = d*np.array([wcs.wcs.cdelt[1],wcs.wcs.cdelt[0]])[:,None,None]*deg
			m = enmap.enmap(np.cos(np.arange(int(np.prod(pre+shape)))*1.7).reshape(pre+shape), wcs); g = enmap.enmap(gp, wcs); keep = np.array(m), np.array(g)
			o = lensing.lens_map(m, g, order=order, mode=mode, border=border)
			ctx.check(o.shape == m.shape, "shape"); ctx.close(np.array(o).reshape(pre+(N,)), np.array(m).reshape(pre+(N,)).dot(A.T), 0, 1e-7, "lensed")
			t = lensing.lens_map(m, g, order=order, mode=mode, border=border, trans=True)
			ctx.close(np.array(t).reshape(pre+(N,)), np.array(m).reshape(pre+(N,)).dot(A), 0, 1e-7, "transpose")
			ctx.eq(np.array(m), keep[0], "map untouched"); ctx.eq(np.array(g), keep[1], "displacement untouched")
			# the inverse undoes it: exactly for whole pixels, and by the stated iteration otherwise
			if order > 0:
				al = d
				for i in range(3): al = d.reshape(2,N).dot(op(shape, pix0-al, mode, order, border).T).reshape(d.shape)
				want = np.array(m).reshape(pre+(N,)).dot(op(shape, pix0-al, mode, order, border).T)
				b = lensing.delens_map(m, g, order=order, mode=mode, border=border); ctx.close(np.array(b).reshape(pre+(N,)), want, 0, 1e-6, "delensed")
				if kind in ("zero","int") and border == "cyclic": ctx.close(np.array(lensing.delens_map(o, g, order=order, mode=mode, border=border)), np.array(m), 0, 1e-6, "delensing undoes lensing")

def unit_flatphi(ctx, items):
	for name, (ky,kx), amp, npre in items:
		shape, wcs = FL[name]; pre = (2,3)[:npre]; N = shape[0]*shape[1]
		with ctx.case("lens_map_flat", geo=name, k=[ky,kx], amp=amp, pre=npre):
			y, x = np.mgrid[:shape[0],:shape[1]]; ph = 2*np.pi*(ky*y/shape[0]+kx*x/shape[1])
			# pixel step in (dec,ra cos dec) units: take the map extent as the code under test reports it
			ext = enmap.extent(shape, wcs, signed=True); st = np.array(ext)/np.array(shape)
			phi = enmap.enmap(amp*st[0]**2*np.cos(ph+0.4), wcs)
			dpix = np.array([-amp*st[0]**2*np.sin(ph+0.4)*2*np.pi*k/n/s**2 for k,n,s in zip((ky,kx),shape,st)])
			m = enmap.enmap(np.cos(np.arange(int(np.prod(pre+shape)))*1.7).reshape(pre+shape), wcs); keep = np.array(m)
			o = lensing.lens_map_flat(m, phi)
			ctx.check(o.shape == m.shape and G.wcs_key(o.wcs) == G.wcs_key(wcs), "geometry")
			A = op(shape, G.pixgrid(shape)+dpix, "spline", 4, "cyclic")
			ctx.close(np.array(o).reshape(pre+(N,)), np.array(m).reshape(pre+(N,)).dot(A.T), 0, 1e-7, "lensed"); ctx.eq(np.array(m), keep, "untouched")

def units(tier):
	q = tier == "quick"
	decs = [-90,-89.9,-80,-45,-10,0,20,60,85,89.5,90]+([] if q else [-89.999,-60,-30,1e-6,5,30,45,70,88,89.99])
	u  = chunked("offset", [(d,l) for d in decs for l in LENS], unit_offset, 12)
	u += chunked("curved", [(n,a,c) for n in GEOS for a in ((0.1,) if q else (0.01,0.1,0.2)) for c in (1,3)], unit_curved, 10)
	u += chunked("kappa", [(l,lay,p) for l in range(0,9) for lay in ("tri","rect") for p in (0,1,2)], unit_kappa, 2)
	u += chunked("rand", [(n,l,o) for n in (1,3) for l in (None,3,5) for o in ("l","lu","pku")], unit_rand, 3)
	ks = [("conv",1),("spline",0),("spline",1),("spline",3),("spline",5),("lanczos",2)]
	u += chunked("flat", [(n,k,m,o,b,p) for n in FL for k in ("zero","int","half","wave","far") for m,o in ks for b in ("cyclic","mirror") for p in ((1,) if q else (0,1,2))], unit_flat, 8)
	u += chunked("flatphi", [(n,k,a,p) for n in ("car","up","one") for k in ((0,0),(1,0),(0,1),(1,1),(-1,1),(0,2),(1,-2)) if max(map(abs,k))*2 < min(FL[n][0]) for a in (0,0.3,2.5) for p in (0,1,2)], unit_flatphi, 4)
	return u
