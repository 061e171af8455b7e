"""Brute-force spherical harmonics used as reference.  Nothing here uses the code under test or ducc."""
import numpy as np
from math import factorial, comb
def LM(lmax, mmax=None):
	mmax = lmax if mmax is None else mmax
	return [(l,m) for m in range(mmax+1) for l in range(m,lmax+1)]
def sylm(s, l, m, theta, phi):
	"""Spin-weighted spherical harmonic (Goldberg), Condon-Shortley phase"""
	theta, phi = np.asarray(theta,float), np.asarray(phi,float)
	if l < abs(s) or abs(m) > l: return np.zeros(theta.shape,complex)
	c, d = np.cos(theta/2), np.sin(theta/2)
	norm = np.sqrt(factorial(l+m)*factorial(l-m)*(2*l+1)/(4*np.pi*factorial(l+s)*factorial(l-s)))
	tot = np.zeros(theta.shape)
	for r in range(max(0,m-s), l-s+1):
		if r+s-m > l+s: continue
		k = 2*r+s-m
		tot = tot + comb(l-s,r)*comb(l+s,r+s-m)*(-1)**(l-r-s)*c**k*d**(2*l-k)
	return (-1)**m*norm*tot*np.exp(1j*m*phi)
def full(lmax, mmax, a):
	"""dict (l,m>=0)->value to all m"""
	res = {}
	for (l,m), v in a.items():
		if m == 0: res[l,0] = complex(v.real)
		else: res[l,m] = v; res[l,-m] = (-1)**m*np.conj(v)
	return res
def basis(spin, lmax, mmax, theta, phi):
	"""Real-linear synthesis operator: list of ((comp,l,m,part), map[ncomp,npix]) for ncomp=1 (spin 0) or 2.
	comp 0/1 = E/B; part 0/1 = real/imaginary coefficient"""
	out = []
	for comp in range(1 if spin == 0 else 2):
		for l, m in LM(lmax, mmax):
			for part in (0,1):
				if m == 0 and part == 1: continue
				v = (1.0,1j)[part]; f = full(lmax,mmax,{(l,m):v})
				if spin == 0:
					mp = sum(x*sylm(0,l,mm,theta,phi) for (_,mm),x in f.items()); out.append(((comp,l,m,part),mp.real[None]))
				else:
					p = np.zeros(np.shape(theta),complex)
					for (_,mm), x in f.items(): p = p - (x if comp == 0 else 1j*x)*sylm(spin,l,mm,theta,phi)
					out.append(((comp,l,m,part),np.array([p.real,p.imag])))
	return out
def basis_deriv(lmax, mmax, theta, phi):
	"""d/ddec, 1/cos(dec) d/dra"""
	out = []
	for (k, mp) in basis(1, lmax, mmax, theta, phi):
		if k[0] == 0: out.append((k, mp*np.sqrt(k[1]*(k[1]+1.0))*np.array([-1,1])[:,None]))
	return out
