"""C33: beams, profiles, spectra and time conversions."""
import numpy as np, itertools, math
from pixell import utils
from ..core import chunked

RULE   = "every combination of the parameter lattices (sizes, frequencies, temperatures, ranges, numbers of points, leading axes, scalar/array forms) for the radial transforms, beam descriptions, emission laws, instrument responses and time scales; oracle: closed forms, the defining integrals done by an independent quadrature, and the inverse function"
BOUNDS = "profiles from 1e-4 to 0.05 rad, 128-1024 log-spaced points with 0-512 padding, frequencies 1 GHz-3 THz, temperatures 1-40 K, beams of up to 5 parameters per axis, distributions of up to 6 dice, times from 1900 to 2100"
ASSUME = ["log-spaced transforms are compared inside the unpadded range, to their documented accuracy", "dates are in UTC", "regularize_beam is not claimed", "the beam and profile transforms are flat-sky"]

H, K, C = 6.62606957e-34, 1.3806488e-23, 299792458.0
def gauss(r, s): return np.exp(-0.5*r**2/s**2)/(2*np.pi*s**2)
def unit_radial(ctx, items):
	for s, n, pad, form in items:
		with ctx.case("radial transform", sigma=s, n=n, pad=pad, range=form):
			lr = [0.3,1e6]; R = utils.RadialFourierTransform(lrange=lr,n=n,pad=pad) if form == "l" else utils.RadialFourierTransform(rrange=[1/lr[1],1/lr[0]],n=n,pad=pad)
			ctx.check(len(R.l) == n+2*pad and len(R.r) == n+2*pad, "number of points", state=(s,n,pad,form)); ctx.close(np.diff(np.log(R.l)), np.full(n+2*pad-1,np.log(lr[1]/lr[0])/n), 1e-6, 0, "logarithmic spacing"); ctx.close(R.l*R.r[::-1], np.ones(n+2*pad), 1e-9, 0, "reciprocal")
			l, r = R.unpad(R.l,R.r); ctx.eq(len(l), n, "unpad"); ctx.close(np.array([l[0],l[-1]]), np.array(lr)*np.exp(np.array([0.5,-0.5])*np.log(lr[1]/lr[0])/n), 1e-6, 0, "the requested range"); ctx.check(R.unpad(R.l).shape == (n,), "one array")
			F = R.real2harm(lambda x: gauss(x,s)); ctx.close(R.real2harm(gauss(R.r,s)), F, 1e-12, 1e-9*np.abs(F).max(), "array or function")
			back = R.harm2real(F); 
			if n >= 512: ctx.close(R.unpad(back)*s**2, gauss(r,s)*s**2, 0, 1e-5, "round trip")
			if pad >= 256 and pad*2 >= n:
				b = R.unpad(F); ctx.close(b, np.exp(-0.5*l**2*s**2), 0, 1e-3, "transform of a gaussian"); p = R.unpad(R.harm2real(lambda x: np.exp(-0.5*x**2*s**2))); ok = (r > 3*r[0]); ctx.close((p*2*np.pi*s**2)[ok], np.exp(-0.5*r**2/s**2)[ok], 0, 1e-2, "inverse transform of a gaussian")
			two = np.array([gauss(R.r,s),3*gauss(R.r,2*s)]); F2 = R.real2harm(two); ctx.close(F2[0], F, 1e-3, 1e-4*np.abs(F).max(), "leading axes"); ctx.close(R.unpad(F2[0]), R.unpad(F), 1e-6, 1e-3 if n < 512 else 1e-6, "leading axes"); w = R.real2harm(gauss(R.r,2*s)); ctx.close(F2[1], 3*w, 1e-3, 1e-4*np.abs(w).max(), "leading axes"); ctx.close(R.unpad(F2[1]), 3*R.unpad(w), 1e-6, 1e-3 if n < 512 else 1e-6, "leading axes"); ctx.close(R.harm2real(F2)[0], back, 1e-3, 1e-4*np.abs(back).max(), "leading axes"); ctx.eq(np.array(R.unpad(F2)).shape, (2,n), "unpad leading axes")
			i = np.arange(0,n+2*pad,7); ctx.close(R.lind(R.l[i]), i, 1e-9, 1e-6, "index of a multipole"); ctx.close(R.rind(R.r[i]), i, 1e-9, 1e-6, "index of a radius")
			if pad >= 256 and pad*2 >= n: ll, bl = utils.profile_to_tform_hankel(lambda x: gauss(x,s),lmin=lr[0],lmax=lr[1],n=n,pad=pad); ctx.close(ll,l,1e-9,0,"profile_to_tform_hankel"); ctx.close(bl, np.exp(-0.5*l**2*s**2), 0, 1e-3, "profile_to_tform_hankel")
def unit_fftlog(ctx, items):
	for x0, x1, n, pad, form, a in items:
		with ctx.case("FFTLog", range=(x0,x1), n=n, pad=pad, given=form, scale=a):
			f = utils.FFTLog(xrange=[x0,x1],n=n,pad=pad) if form == "x" else utils.FFTLog(krange=[1/x1,1/x0],n=n,pad=pad); X, Kk = f.unpad(f.x,f.k)
			ctx.close([X[0],X[-1]],[x0,x1],1e-6,0,"range"); ctx.close([Kk[0],Kk[-1]],[1/x1,1/x0],1e-6,0,"conjugate range"); ctx.eq(len(f.x),n+2*pad,"number of points"); ctx.close(np.diff(np.log(f.x)), np.full(n+2*pad-1,np.log(x1/x0)/(n-1)), 1e-6, 0, "spacing")
			F = f.fft(lambda x: np.exp(-x/a)); ctx.close(f.fft(np.exp(-f.x/a)), F, 1e-12, 1e-12, "array or function")
			g = np.abs(Kk*a-1) < 0.9; got = f.unpad(F)[g]
			if pad >= 128: ctx.close(got/a, 1/(1+1j*Kk[g]*a), 0, 2e-3, "transform of an exponential")
			ctx.close(f.ifft(F), np.exp(-f.x/a), 0, 1e-4, "round trip")
			two = np.array([np.exp(-f.x/a),2*np.exp(-f.x/(2*a))]); ctx.close(f.ifft(f.fft(two)), two, 0, 1e-4, "leading axes"); ctx.close(f.fft(two)[0], F, 1e-10, 1e-12, "leading axes")
	with ctx.case("FFTLog arguments"): ctx.raises(lambda: utils.FFTLog(), ValueError, "no range"); ctx.raises(lambda: utils.FFTLog(xrange=[1,2],krange=[1,2]), ValueError, "two ranges")
def unit_tform(ctx, items):
	for nl, s in items:
		with ctx.case("tform_to_profile", nl=nl, sigma=s):
			l = np.arange(nl); b = np.exp(-0.5*l*(l+1)*s**2)*(1+0.1*(l%3)); th = np.array([0,0.01,0.3,1,2,np.pi]); x = np.cos(th); P = [np.ones(6),x]
			for i in range(2,nl): P.append(((2*i-1)*x*P[-1]-(i-1)*P[-2])/i)
			want = sum((2*i+1)/(4*np.pi)*b[i]*P[i] for i in range(nl)); ctx.close(utils.tform_to_profile(b,th), want, 1e-9, 1e-9*abs(want).max(), "profile", ); ctx.close(utils.tform_to_profile(b,th,normalize=True), want/want[0], 1e-9, 1e-9, "unit peak"); ctx.close(utils.tform_to_profile(list(b),th.reshape(2,3)), want.reshape(2,3), 1e-9, 1e-9*abs(want).max(), "shape"); ctx.check(True,"",state=(nl,s))
def unit_spec(ctx, items):
	for f, T in items:
		with ctx.case("emission laws", f=f, T=T):
			x = utils.h*f/(utils.k*T); pl = 2*utils.h*f**3/utils.c**2/math.expm1(x)*1e26
			ctx.close([utils.h,utils.k,utils.c],[H,K,C],1e-5,0,"constants"); tol = 1e-9 if x > 1e-2 else 1e-6
			ctx.close(utils.planck(f,T), pl, tol, 0, "planck"); ctx.close(utils.blackbody(f,T), pl, tol, 0, "blackbody"); ctx.close(utils.iplanck_T(f,utils.planck(f,T)), T, 1e-6, 0, "iplanck_T")
			d = pl/T*x/(-math.expm1(-x)); ctx.close(utils.dplanck(f,T), d, 1e-9, 0, "dplanck"); e = 1e-4*T; ctx.close((utils.planck(f,T+e)-utils.planck(f,T-e))/(2*e), d, 1e-4, 0, "derivative of planck")
			ctx.close(utils.graybody(f,T,beta=0), pl, tol, 0, "graybody without slope"); ctx.close(utils.graybody(f,T,beta=1.5), pl*f**1.5, tol, 0, "graybody")
			y = d*T*(x/math.tanh(x/2)-4); ctx.close(utils.tsz_spectrum(f,T), y, 1e-8, 1e-9*abs(d*T), "tsz_spectrum")
			for area in (1e-8,3e-7): ctx.close(utils.flux_factor(area,f,T), d*area, 1e-9, 0, "flux_factor"); ctx.close(utils.noise_flux_factor(area,f,T), d*(2*area)**0.5, 1e-9, 0, "noise_flux_factor")
			fa = np.array([f,2*f]); ctx.close(utils.planck(fa,T)[1], utils.planck(2*f,T), 1e-12, 0, "array"); ctx.close(utils.dplanck(fa,T)[1], utils.dplanck(2*f,T), 1e-12, 0, "array"); ctx.check(True,"",state=(f,T))
	with ctx.case("defaults"):
		ctx.close(utils.planck(150e9), utils.planck(150e9,utils.T_cmb), 0, 0, "T_cmb"); ctx.close(utils.dplanck(150e9), utils.dplanck(150e9,utils.T_cmb), 0, 0, "T_cmb"); ctx.close(utils.T_cmb, 2.7255, 1e-3, 0, "T_cmb"); z = [f for f in np.arange(200e9,230e9,0.1e9) if utils.tsz_spectrum(f) > 0][0]; ctx.close(z/1e9, 217.5, 0, 1.0, "tSZ null")
def unit_beam(ctx, items):
	from scipy.integrate import quad
	from scipy.special import j0, j1
	for kind, a, b in items:
		with ctx.case("beams", kind=kind, a=a, b=b):
			ctx.check(True,"",state=(kind,a,b))
			if kind == "area":
				for grid in (np.linspace(0,12*a,int(b)*2+1),np.linspace(0,(12*a)**0.5,int(b)*2+1)**2): ctx.close(utils.calc_beam_area(np.array([grid,np.exp(-0.5*grid**2/a**2)])), 2*np.pi*a**2, 2e-3, 0, "area of a gaussian"); ctx.close(utils.calc_beam_area([grid,2*np.exp(-0.5*grid**2/a**2)]), 4*np.pi*a**2, 2e-3, 0, "linear")
			elif kind == "airy":
				x = np.array([0,1e-8,1e-5,0.5,1,3.2326799/2,2,3.8317059702,5,10]); w = np.array([1 if t < 1e-7 else (2*j1(t)/t)**2 for t in x]); ctx.close(utils.airy(x), w, 1e-8, 1e-12, "airy"); ctx.close(utils.airy(3.2326799/2), 0.5, 1e-6, 0, "half maximum")
				D, lam = a, b; lm = utils.airy_lmax(D,lam); ctx.close(lm, 2*np.pi*D/lam, 1e-12, 0, "airy_lmax"); ctx.close(utils.airy_area(D,lam), 4*lam**2/(np.pi*D**2), 1e-12, 0, "airy_area")
				# the harmonic form is the autocorrelation of the aperture: inverse transform at a few radii gives the real-space form
				for t in (0.0,0.7,2.0,5.0):
					r = 2*t/lm; v = quad(lambda q: q*utils.lairy(q)*j0(q*lm*r),0,1,limit=200)[0]*lm**2/(2*np.pi)*utils.airy_area(D,lam); ctx.close(v, utils.airy(t), 0, 1e-6, "airy and lairy are a transform pair")
				ctx.close(utils.lairy(np.array([0,0.5,1,1.5])), np.array([1,(np.arccos(0.5)-0.5*0.75**0.5)*2/np.pi,0,0]), 1e-12, 1e-12, "lairy")
			elif kind == "disk":
				d, R = a, b
				w = quad(lambda u: 4*max(R**2-u**2,0)**0.5, min(d/2,R), R)[0]; ctx.close(utils.disk_overlap(d,R), w, 1e-6, 1e-9, "overlap of disks"); ctx.close(utils.disk_overlap(np.array([d,0.0]),R), [w,np.pi*R**2], 1e-6, 1e-9, "array")
				# spherical: integrate over great-circle distance from one centre the arc inside the other cap
				def arc(t):
					if t < 1e-12: return 0.0
					c = (np.cos(R)-np.cos(d)*np.cos(t))/(np.sin(d)*np.sin(t)) if d > 0 else (1 if t > R else -1); return 2*np.arccos(np.clip(c,-1,1))*np.sin(t)
				pts = [p for p in (abs(R-d),) if 0 < p < R]; ws = quad(arc,0,R,points=pts or None,limit=200)[0] if d > 0 else 2*np.pi*(1-np.cos(R)); ctx.close(utils.disk_overlap_curved(np.array([d]),np.array([R]))[0], ws if d < 2*R else 0, 1e-5, 1e-7, "overlap of caps")
			elif kind == "ellipse":
				for s in ((a,b),(b,a)):
					for phi in np.arange(-6,7)*np.pi/6+0.1:
						c = utils.compress_beam(s,phi); v1, v2 = np.array([np.cos(phi),np.sin(phi)]), np.array([-np.sin(phi),np.cos(phi)]); M = np.outer(v1,v1)/s[0]**2+np.outer(v2,v2)/s[1]**2; ctx.close(c, [M[0,0],M[1,1],M[0,1]], 1e-9, 1e-9, "compress_beam")
						sg, ph = utils.expand_beam(c); ctx.close(sg, sorted(s,reverse=True), 1e-7, 0, "widths, largest first"); ctx.check(0 <= ph < np.pi+1e-9, "angle range"); ctx.close(utils.compress_beam(sg,ph), c, 1e-7, 1e-9, "round trip"); q = utils.expand_beam(c,return_V=True); ctx.check(len(q) == 3 and np.allclose(q[0],sg) and q[1] == ph, "return_V")
				ctx.close(utils.combine_beams([utils.compress_beam((a,a),0.3),utils.compress_beam((b,b),0)]), np.array([1,1,0])/(a*b)**2, 1e-9, 1e-9, "round beams multiply"); ctx.close(utils.combine_beams([utils.compress_beam((a,b),0.7)]), utils.compress_beam((a,b),0.7), 1e-9, 1e-9, "single")
			elif kind == "pixwin":
				f = a
				# averaging a wave over a pixel
				w = quad(lambda u: np.cos(2*np.pi*f*u),-0.5,0.5)[0]; ctx.close(utils.pixwin_1d(f), w, 1e-9, 1e-12, "nearest neighbour"); ctx.close(utils.pixwin_1d(np.array([f,0.0]),order=None), [1,1], 0, 0, "none"); ctx.close(utils.pixwin_1d(np.array([f,0.0])), [w,1], 1e-9, 1e-12, "array")
				# least squares fit of linear interpolation to a wave: tent-averaged wave over the tent autocorrelation spectrum
				t = quad(lambda u: (1-abs(u))*np.cos(2*np.pi*f*u),-1,1,points=[0])[0]; g = 2/3+2*(1/6)*np.cos(2*np.pi*f); ctx.close(utils.pixwin_1d(f,order=1), t/g, 1e-8, 1e-10, "linear"); ctx.raises(lambda: utils.pixwin_1d(f,order=3), ValueError, "unknown order")
			elif kind == "scale":
				ctx.close(utils.ang2l(utils.l2ang(a)), a, 1e-9, 1e-9, "l2ang and ang2l"); ctx.close(utils.l2ang(a)*(a+1), (4*np.pi)**0.5, 1e-12, 0, "degrees of freedom")
				ns = int(b); ctx.close(utils.nside2res(ns), (4*np.pi/(12*ns**2))**0.5, 1e-9, 0, "nside2res"); ctx.close(utils.res2nside(utils.nside2res(ns)), ns, 1e-9, 0, "res2nside")
			elif kind == "basis":
				n, m = int(a), int(b); x = np.linspace(-1,1,m)**3*2+5
				L = utils.build_legendre(x,n); z = (x-x.min())/(x.max()-x.min())*2-1; ctx.close(L, np.array([np.polynomial.legendre.legval(z,np.eye(n)[i]) for i in range(n)]), 1e-9, 1e-9, "legendre"); ctx.close(utils.build_cossin(x,n), np.array([(np.sin,np.cos)[i%2]((i//2+1)*x) for i in range(n)]), 1e-9, 1e-9, "cossin")
				for i in range(n): ctx.eq(utils.uvec(n,i), np.eye(n)[i], "uvec"); ctx.check(utils.uvec(n,i,dtype=np.int32).dtype == np.int32, "uvec dtype")
				A = (np.arange(n*m).reshape(m,n)*7%5)-1.5; ctx.eq(utils.ubash(lambda v: A.dot(v),n), A, "ubash")
			elif kind == "dice":
				N, D = int(a), int(b); w = np.zeros(N*D+1)
				for t in itertools.product(range(1,D+1),repeat=N): w[sum(t)] += D**-float(N)
				ctx.close(utils.dicedist(N,D), w, 1e-12, 1e-12, "dicedist"); p = np.array([0.5,0.2,0.3]); q = np.ones(1)
				for i in range(N): q = np.convolve(q,p)
				ctx.close(utils.distpow(p,N), q, 1e-12, 1e-12, "distpow"); ctx.eq(p,np.array([0.5,0.2,0.3]),"untouched")
			elif kind == "tsz":
				x = np.array([a*1e-3,a*0.01,a*0.3,a]); al, be, ga = ((1.0,-4.65,-0.3),(1.0,-4.0,-0.2),(0.8,-5.0,-0.4))[int(b)]; xc = 0.497
				raw = (x/xc)**ga*(1+(x/xc)**al)**((be-ga)/al); ctx.close(utils.tsz_profile_raw(x,alpha=al,beta=be,gamma=ga), raw, 1e-10, 0, "pressure profile"); ctx.close(utils.gnfw(x,0.3,al,be,ga), (x/0.3)**ga*(1+(x/0.3)**al)**((be-ga)/al), 1e-10, 0, "gnfw")
				w = [2*quad(lambda t: np.exp(t)*utils.gnfw((np.exp(2*t)+v*v)**0.5,xc,al,be,ga),-25,np.log(1e5),limit=500,epsabs=0,epsrel=1e-9,points=[np.log(v)])[0] for v in x]
				ctx.close(utils.tsz_profile_los_exact(x,alpha=al,beta=be,gamma=ga), w, 1e-5, 0, "line of sight integral"); ctx.close(utils.tsz_profile_los(x,alpha=al,beta=be,gamma=ga), w, 3e-5, 0, "interpolated"); ctx.close(utils.tsz_profile_los(x[1],alpha=al,beta=be,gamma=ga), w[1], 3e-5, 0, "scalar"); ctx.close(utils.tsz_profile_los(x.reshape(2,2),alpha=al,beta=be,gamma=ga), np.array(w).reshape(2,2), 3e-5, 0, "shape")
				big = utils.tsz_profile_los(np.array([1e3,1e4,3e4]),alpha=al,beta=be,gamma=ga); ctx.check(np.all(np.diff(big) < 0) and np.all(big > 0), "decreasing tail"); ctx.close(utils.tsz_profile_los(1e-9,alpha=al,beta=be,gamma=ga), utils.tsz_profile_los(1e-8,alpha=al,beta=be,gamma=ga), 1e-6, 0, "flat core")
				r2 = a*utils.arcmin; l = np.array([[10,100.0],[1000,5000]]); bl = utils.tsz_tform(r200=r2,l=l,alpha=al,beta=be,gamma=ga); full = utils.tsz_tform(r200=r2,lmax=1000,alpha=al,beta=be,gamma=ga); ctx.eq(full.shape,(1001,),"lmax"); ctx.close(full[[10,100,1000]], bl.reshape(-1)[:3], 1e-9, 0, "chosen multipoles")
				for q, v in zip(l.reshape(-1)[1:],bl.reshape(-1)[1:]):
					if q*r2 > 3: continue
					t = np.linspace(np.log(1e-6*r2),np.log(300*r2),40001); r = np.exp(t); f = 2*np.pi*r*r*j0(q*r)*utils.tsz_profile_los(r/r2,alpha=al,beta=be,gamma=ga); w = np.sum((f[1:]+f[:-1])/2)*(t[1]-t[0]); ctx.close(v, w, 0.01, 0, "tsz_tform is the transform of the profile")
def unit_dflt(ctx, items):
	for x in items:
		with ctx.case("default pressure profile", x=x):
			kw = dict(xc=0.497,alpha=1.0,beta=-4.65,gamma=-0.3); ctx.check(True,"",state=x)
			for f in (utils.tsz_profile_raw,utils.tsz_profile_los_exact,utils.tsz_profile_los): ctx.close(f(x), f(x,**kw), 1e-9, 0, f.__name__)
			l = np.array([10.0,300,3000]); ctx.close(utils.tsz_tform(r200=x*utils.arcmin,l=l), utils.tsz_tform(r200=x*utils.arcmin,l=l,**kw), 1e-9, 0, "tsz_tform")
			l1, b1 = utils.profile_to_tform_hankel(lambda r: gauss(r,x*utils.arcmin)); ok = (l1 > 1)&(l1 < 1e5); ctx.close(b1[ok], np.exp(-0.5*l1[ok]**2*(x*utils.arcmin)**2), 0, 1e-3, "default range")
def unit_time(ctx, items):
	for t in items:
		with ctx.case("times", ctime=t):
			import datetime
			d = (datetime.datetime(1970,1,1)+datetime.timedelta(seconds=t)); mjd = (d-datetime.datetime(1858,11,17)).total_seconds()/86400; ctx.check(True,"",state=t)
			for form in (float,np.float64,lambda v: np.array([v,v+86400.0])):
				v = form(t); off = np.array([0,1.0]) if np.ndim(v) else 0
				ctx.close(utils.ctime2mjd(v), mjd+off, 0, 1e-9, "mjd"); ctx.close(utils.ctime2jd(v), mjd+2400000.5+off, 0, 1e-8, "jd"); ctx.close(utils.ctime2djd(v), mjd+2400000.5-2415020+off, 0, 1e-9, "dublin julian date")
				for fw, bk in ((utils.ctime2mjd,utils.mjd2ctime),(utils.ctime2jd,utils.jd2ctime),(utils.ctime2djd,utils.djd2ctime)): ctx.close(bk(fw(v)), v, 0, 1e-3, "back to ctime")
				m = utils.ctime2mjd(v); ctx.close(utils.jd2mjd(utils.mjd2jd(m)), m, 0, 1e-8, "jd2mjd"); ctx.close(utils.djd2mjd(utils.mjd2djd(m)), m, 0, 1e-8, "djd2mjd")
			for fmt in ("%Y-%m-%d","%Y-%m-%d %H:%M:%S"):
				ctx.eq(utils.ctime2date(t,fmt=fmt), d.strftime(fmt), "ctime2date"); ctx.eq(utils.ctime2date(t,tzone=5,fmt=fmt), (d+datetime.timedelta(hours=5)).strftime(fmt), "time zone"); 
			ctx.eq(utils.ctime2date(t), d.strftime("%Y-%m-%d"), "default format")
def units(tier):
	T = tier == "thorough"
	us  = chunked("radial", [(s,n,p,f) for s in (1e-4,1e-3,0.01)+((3e-4,0.03) if T else ()) for n in (128,512)+((255,1024) if T else ()) for p in (0,32,256) for f in ("l","r")], unit_radial, 4)
	us += chunked("fftlog", [(x0,x1,n,p,f,a) for x0,x1 in ((1e-4,1e4),(1e-3,1e5)) for n in (256,511)+((128,1024) if T else ()) for p in (0,128,256) for f in ("x","k") for a in (0.5,1.0,5.0)], unit_fftlog, 4)
	us += chunked("tform", [(n,s) for n in (1,2,3,10,50,200) for s in (0.01,0.1)], unit_tform, 1)
	us += chunked("spec", [(f,t) for f in (1e9,30e9,90e9,150e9,217e9,353e9,857e9,3e12) for t in (1.0,2.7255,10.0,40.0)], unit_spec, 1)
	B  = [("area",s,n) for s in (1e-4,0.01) for n in (60,200)]+[("airy",D,l) for D in (6.0,0.42) for l in (0.001,0.003)]+[("disk",d*R,R) for R in (0.01,0.3,1.0) for d in (0.01,0.3,1.0,1.7,2.0,2.5)]+[("ellipse",a,b) for a in (1.0,2.0,0.3) for b in (1.5,3.0)]+[("pixwin",f,0) for f in (0,0.01,0.1,0.25,0.4,0.5)]+[("scale",l,n) for l in (0,1,10,3000.0) for n in (1,2,3,64,2048)]+[("basis",n,m) for n in (1,2,3,4,5,7) for m in (2,5)]+[("dice",n,d) for n in range(0,7 if T else 6) for d in (1,2,3,6)]
	us += chunked("beam", B, unit_beam, 4); us += chunked("tsz", [("tsz",a,b) for a in (0.5,1,2,5) for b in range(3)], unit_beam, 6)
	us += chunked("defaults", [0.5,1.0,2.0,5.0], unit_dflt, 1)
	us += chunked("time", [-2208988800+86400*365.25*i+12345.0*(i%7) for i in range(0,200,1 if T else 10)]+[0,1,86399,86400,951782400,1e9,-1], unit_time, 2)
	return us
