From 6149a1121e097ec56375053b8b866eb81e33a9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:34 +0000
Subject: [PATCH 001/200] fix: slice bounds outside the array gave maps the
 wrong coordinates

expand_slice did not clip starts and stops outside the array the way numpy
does, so e.g. m[:, :-(nx+2):-1] or m[nx+1::-1] returned a map whose wcs was
displaced from its pixels, and slice_geometry could return negative sizes.
---
 pixell/enmap.py |  2 +-
 pixell/utils.py | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c3767b7..ec41012 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -277,7 +277,7 @@ def slice_geometry(shape, wcs, sel, nowrap=False):
 		wcs.wcs.crpix[j] /= s.step
 		wcs.wcs.cdelt[j] *= s.step
 		wcs.wcs.crpix[j] += 0.5
-		oshape[i] = (s.stop-s.start+s.step-np.sign(s.step))//s.step
+		oshape[i] = max(0,(s.stop-s.start+s.step-np.sign(s.step))//s.step)
 	# Convert this is a bit cumbersome, but ensures we get a tuple of
 	# plain python ints instead of numpy.int64s
 	oshape = tuple([int(a) for a in oshape])
diff --git a/pixell/utils.py b/pixell/utils.py
index a647e0a..1051903 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2835,15 +2835,14 @@ def expand_slice(sel, n, nowrap=False):
 	"""Expands defaults and negatives in a slice to their implied values.
 	After this, all entries of the slice are guaranteed to be present in their final form.
 	Note, doing this twice may result in odd results, so don't send the result of this
-	into functions that expect an unexpanded slice. Might be replacable with slice.indices()."""
+	into functions that expect an unexpanded slice."""
+	# With the normal numpy wrapping rules this is just what slice.indices does, including
+	# the clipping of starts and stops that are outside the array on either side
+	if not nowrap: return slice(*sel.indices(n))
 	step = sel.step or 1
-	def cycle(i,n):
-		if nowrap: return i
-		else: return min(i,n) if i >= 0 else n+i
 	def default(a, val): return a if a is not None else val
-	if step == 0: raise ValueError("slice step cannot be zero")
-	if step > 0: return slice(cycle(default(sel.start,0),n),cycle(default(sel.stop,n),n),step)
-	else: return slice(cycle(default(sel.start,n-1), n), cycle(sel.stop,n) if sel.stop is not None else -1, step)
+	if step > 0: return slice(default(sel.start,0), default(sel.stop,n), step)
+	else: return slice(default(sel.start,n-1), default(sel.stop,-1), step)
 
 def split_slice(sel, ndims):
 	"""Splits a numpy-compatible slice "sel" into sub-slices sub[:], such that
-- 
2.43.0


From e46a26a403d2e5b0a714e2853c055ab6b25e39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 002/200] fix: sbox_wrap returned out-of-range samples for
 strided boxes

The number of samples before (after) the array was rounded down instead of
up, so boxes with |step|>1 that start before 0 (or cross the wrap or cap)
picked up samples from outside the array, e.g. sbox_wrap([[-2,5,3]],cap=4).
---
 pixell/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1051903..977835e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1747,7 +1747,7 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			boxes_1d = []
 			i = 0
 			while ibox[1] > 0:
-				npre = max((-ibox[0])//ibox[2],0)
+				npre = max(-(ibox[0]//ibox[2]),0)
 				# ibox slice assuming all of the logical ibox is available
 				isub = sbox_fix([ibox[0]+npre*ibox[2],min(ibox[1],w),ibox[2]])
 				nsub = sbox_size(isub)
@@ -1768,8 +1768,8 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			# upwards and downwards capping. Find the number of samples to
 			# crop on each side
 			if c:
-				npre  = max((-ibox[0])//ibox[2],0)
-				npost = max((ibox[1]-ibox[2]-(c-1))//ibox[2],0)
+				npre  = max(-(ibox[0]//ibox[2]),0)
+				npost = max(-((c-1-(ibox[1]-ibox[2]))//ibox[2]),0)
 			else: npre, npost = 0, 0
 			# Don't produce a slice if it would be empty
 			if npre + npost < ilen:
-- 
2.43.0


From eddea3b53cd0921cc449a191199ff471b02e6b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 003/200] fix: sbox_fix modified its argument

This made e.g. extract_pixbox with a strided integer pixbox change the
pixbox it was passed.
---
 pixell/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 977835e..8ee936c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1692,8 +1692,9 @@ def sbox_fix0(sbox):
 	return sbox
 
 def sbox_fix(sbox):
-	# Ensure that we have a step, setting it to 1 if missing
-	sbox = sbox_fix0(sbox)
+	# Ensure that we have a step, setting it to 1 if missing.
+	# Copy to avoid modifying the caller's box
+	sbox = sbox_fix0(sbox).copy()
 	# Make sure our end point is a whole multiple of the step
 	# from the start
 	sbox[...,1] = sbox[...,0] + sbox_size(sbox)*sbox[...,2]
-- 
2.43.0


From 919c1d87ab918b0ebef06666981170b696f38a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 004/200] fix: sbox_mul picked the wrong elements for boxes
 with negative step

Flipping a also reverses what b's indices mean, which was not taken into
account, so e.g. arr[4:1:-2][0:1] came out as arr[2] instead of arr[4].
---
 pixell/utils.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 8ee936c..87ce7e7 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1646,23 +1646,19 @@ def sbox_div(a,b,wrap=0):
 
 def sbox_mul(a,b):
 	"""Find c such that arr[c] = arr[a][b]"""
-	a = sbox_fix(a).copy()
-	b = sbox_fix(b).copy()
-	# It's easiest to implement this for sboxes in normal ordering.
-	# So we will flip a and b as needed, and then flip back the result
-	# if necessary. First compute which  result entries must be flipped.
-	flip = (a[...,2] < 0)^(b[...,2] < 0)
-	# Then flip
-	a[a[...,2]<0] = sbox_flip(a[a[...,2]<0])
-	b[b[...,2]<0] = sbox_flip(b[b[...,2]<0])
-	# Now that everything is in the right order, we combine
+	a = sbox_fix(a)
+	b = sbox_fix(b)
+	# Cap b to the length of a. This is easiest with b in normal ordering
+	flip = b[...,2] < 0
+	b[flip]  = sbox_flip(b[flip])
+	b[...,1] = np.maximum(np.minimum(b[...,1], sbox_size(a)), b[...,0])
+	b        = sbox_fix(b)
+	b[flip]  = sbox_flip(b[flip])
+	# Element i of the result is a0 + a2*(b0 + i*b2)
 	c0 = a[...,0] + b[...,0]*a[...,2]
-	c1 = np.minimum(a[...,0] + b[...,1]*a[...,2],a[...,1])
 	c2 = a[...,2]*b[...,2]
-	res = sbox_fix(np.stack([c0,c1,c2],-1))
-	# Flip back where necessary
-	res[flip] = sbox_flip(res[flip])
-	return res
+	c1 = c0 + sbox_size(b)*c2
+	return np.stack([c0,c1,c2],-1)
 
 def sbox_flip(sbox):
 	sbox = sbox_fix0(sbox)
-- 
2.43.0


From a798d8956f6546f637dc26c76ba21f2676fc5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 005/200] fix: sbox_intersect used np.object, which numpy has
 removed

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 87ce7e7..20d1a95 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1578,7 +1578,7 @@ def sbox_intersect(a,b,wrap=0):
 	ndim = a.shape[-2]
 	wrap = np.zeros(ndim,int)+wrap
 	# Loop over all combinations
-	res = np.empty((fa.shape[0],fb.shape[0]),dtype=np.object)
+	res = np.empty((fa.shape[0],fb.shape[0]),dtype=object)
 	for ai, a1 in enumerate(fa):
 		for bi, b1 in enumerate(fb):
 			peraxis = [sbox_intersect_1d(a1[d],b1[d],wrap=wrap[d]) for d in range(ndim)]
-- 
2.43.0


From b0860f2573c84ffd375af893af8b71e8d415ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:58 +0000
Subject: [PATCH 006/200] fix: dedup (and so range_sub) failed for empty input

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 20d1a95..a554af3 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -531,7 +531,7 @@ class nowarn:
 def dedup(a):
 	"""Removes consecutive equal values from a 1d array, returning the result.
 	The original is not modified."""
-	return a[np.concatenate([[True],a[1:]!=a[:-1]])]
+	return a[np.concatenate([[True],a[1:]!=a[:-1]])[:len(a)]]
 
 def interpol(arr, inds, out=None, mode="spline", border="nearest",
 		order=3, cval=0.0, epsilon=None, ip=None):
-- 
2.43.0


From a81cdef866a25a5fa9af5a58ede4e297c9adbc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:56 +0000
Subject: [PATCH 007/200] fix: enmap.overlap modified the pixbox it was passed

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index ec41012..8c1c3b9 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -734,7 +734,7 @@ def overlap(shape, wcs, shape2_or_pixbox, wcs2=None, wrap="auto"):
 	# Is it a shape or a pixbox
 	tmp = np.asarray(shape2_or_pixbox)
 	if   tmp.ndim == 1: pixbox = pixbox_of(wcs, shape2_or_pixbox, wcs2)
-	elif tmp.ndim == 2: pixbox = shape2_or_pixbox
+	elif tmp.ndim == 2: pixbox = tmp.copy()
 	else: raise ValueError("3rd argument of overlap should be an enmap, a shape tuple or a pixbox")
 	# Handle wrapping
 	nphi = utils.nint(360/np.abs(wcs.wcs.cdelt[0]))
-- 
2.43.0


From b19da982632737382d6824a8aa6a00733f0f0d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:56 +0000
Subject: [PATCH 008/200] fix: enmap.insert ignored its wrap, cval and iwcs
 arguments

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 8c1c3b9..a86dba0 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -704,7 +704,7 @@ def extract_pixbox(map, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0,
 def insert(omap, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
 	"""Insert imap into omap based on their world coordinate systems, which
 	must be compatible. Essentially the reverse of extract."""
-	extract(omap, imap.shape, imap.wcs, imap, wrap="auto", op=op, cval=0, iwcs=None, reverse=True)
+	extract(omap, imap.shape, imap.wcs, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=True)
 	return omap
 
 def insert_at(omap, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
-- 
2.43.0


From ee6dbb462a086067f6b29e67a7e78c76c0d3fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:56 +0000
Subject: [PATCH 009/200] fix: submap and subinds were off by one pixel for
 reversed boxes

When a box runs opposite to a pixel axis, the slice has negative step, and so
starts at the pixel below the upper edge. This was not taken into account, so
the pixels from edge 1.5 to 4.5 came out as 5,4,3 instead of 4,3,2, and
selecting a whole map with a reversed box lost its first row or column.
---
 pixell/enmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index a86dba0..2c76a8e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -253,7 +253,10 @@ def subinds(shape, wcs, box, mode=None, cap=True, noflip=False, epsilon=1e-4):
 	else: raise ValueError("Unrecognized mode '%s' in subinds" % str(mode))
 	bpix = np.array(bpix, int)
 	# A pixel goes from [i1-0.5:i2+0.5] with round(+eps) this becomes [i1:i2+1]
-	# We therefore don't need to add 1 to get a proper slice
+	# We therefore don't need to add 1 to get a proper slice. But a slice with
+	# negative step goes from the pixel just below the upper edge to the one just
+	# below the lower edge.
+	bpix[:2,bpix[2]<0] -= 1
 	if cap:
 		# Make sure we stay inside our map bounds
 		for b, n in zip(bpix.T,shape[-2:]):
-- 
2.43.0


From d0a1155847ce91e4e0001a72f48af65738fa6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:56 +0000
Subject: [PATCH 010/200] fix: enmap.pad with wrap=True failed when a side has
 zero padding

---
 pixell/enmap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 2c76a8e..0348b9a 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2261,10 +2261,11 @@ def pad(emap, pix, return_slice=False, wrap=False, value=0):
 	mslice = (Ellipsis,slice(pix[0,0],res.shape[-2]-pix[1,0]),slice(pix[0,1],res.shape[-1]-pix[1,1]))
 	res[mslice] = emap
 	if wrap:
-		res[...,:pix[0,0],:]  = res[...,-pix[0,0]-pix[1,0]:-pix[1,0],:]
-		res[...,-pix[1,0]:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
-		res[...,:,:pix[0,1]]  = res[...,:,-pix[0,1]-pix[1,1]:-pix[1,1]]
-		res[...,:,-pix[1,1]:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
+		ny, nx = res.shape[-2:]
+		res[...,:pix[0,0],:]    = res[...,ny-pix[0,0]-pix[1,0]:ny-pix[1,0],:]
+		res[...,ny-pix[1,0]:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
+		res[...,:,:pix[0,1]]    = res[...,:,nx-pix[0,1]-pix[1,1]:nx-pix[1,1]]
+		res[...,:,nx-pix[1,1]:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
 	return (res,mslice) if return_slice else res
 
 def find_blank_edges(m, value="auto"):
-- 
2.43.0


From 72508c8b99b6353c8dd68e27276486ee4612f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:56 +0000
Subject: [PATCH 011/200] fix: padtiles double-counted pixels near the seam of
 maps that go all the way around

The part of a tile that sticks out of the map wrapped around and was added on
top of the tile that already covers those pixels with full weight.
---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0348b9a..6e1fa7d 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3368,4 +3368,4 @@ class Padtiler:
 				if ty < nty-1: tile[...,tile.shape[-2]-oly:,:] *= self.wy[::-1,None]
 				if tx < ntx-1: tile[...,:,tile.shape[-1]-olx:] *= self.wx[None,::-1]
 				# And add into output map
-				map.insert(tile, op=lambda a,b:a+b)
+				map.insert(tile, op=lambda a,b:a+b, wrap=0)
-- 
2.43.0


From 7dbb6c068dbf5d2f414147bfba933081d558d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:16 +0000
Subject: [PATCH 012/200] fix: full-sky pixelizations with pixel centers on a
 periodic edge were misplaced, and wrong when built from a shape

---
 pixell/wcsutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index c4325d4..f4253d3 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -84,8 +84,8 @@ def pixelization(pwcs, shape=None, res=None, variant=None):
 		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], res=res[0],  offs=offs[0], periodic=periodic[0])
 		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], res=res[1],  offs=offs[1], periodic=periodic[1])
 	elif res is None:
-		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-2], offs=offs[0], periodic=periodic[0])
-		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[0])
+		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-1], offs=offs[0], periodic=periodic[0])
+		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[1])
 	else:
 		raise ValueError("Either res or shape must be given to build a pixelization")
 	# Now that we have the intermediate coordinates of our endpoints, we
@@ -313,6 +313,8 @@ def pixelize_1d(w, n=None, res=None, offs=None, periodic=False, adjust=False, si
 	else:
 		if o1 is None: o1 =  0.5
 		if o2 is None: o2 = -0.5
+		# The duplicate of the first pixel dropped below doesn't count
+		if periodic and o1 == o2: n += 1
 		res = w/(n-1+o1-o2)
 	# Finish up
 	if o1 is not None:
@@ -326,6 +328,7 @@ def pixelize_1d(w, n=None, res=None, offs=None, periodic=False, adjust=False, si
 	if periodic and np.allclose(ra2-ra1,w):
 		ra2 -= res
 		n   -= 1
+		o2  -= 1
 	# Apply any sign
 	ra1 *= sign
 	ra2 *= sign
-- 
2.43.0


From b2cc730139909c43c3f6b45e9bf4201e1e1cf344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:16 +0000
Subject: [PATCH 013/200] fix: fullsky_geometry2 and band_geometry2 called the
 wrong builder

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 6e1fa7d..50098fb 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1585,7 +1585,7 @@ def fullsky_geometry2(res=None, shape=None, pre=None, deg=False, proj="car", var
 	geometry(). See its docstring for the meaning of the arguments.
 
 	dims is an alias for pre provided for backwards compatibility"""
-	return geometry(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="car", variant=None, dims=None):
 	"""Build a geometry covering a range of declinations. Equivalent to
@@ -1597,7 +1597,7 @@ def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="ca
 	decrange = (np.zeros(2)+decrange)*unit
 	if decrange.shape != (2,): raise ValueError("decrange must be a number or (dec1,dec2)")
 	pos      = np.array([[decrange[0],np.pi],[decrange[1],-np.pi]])/unit
-	return geometry(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 # Idea: Make geometry a class with .shape and .wcs members.
 # Make a function that takes (foo,bar) and returns a geometry,
-- 
2.43.0


From d1050a61203960287b0bfb33fa0a56c6bfe13b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:16 +0000
Subject: [PATCH 014/200] fix: geometry2 truncated boxes that cross the edge of
 the full sky

---
 pixell/enmap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 50098fb..fdaaf72 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1552,7 +1552,13 @@ def geometry2(pos=None, res=None, shape=None, proj="car", variant=None,
 		else: psign = np.sign(pos[1]-pos[0])
 		res = wcsutils.expand_res(res,signs=psign,flip=True)*unit/utils.degree
 		oshape, owcs = wcsutils.pixelization(pwcs, res=res, variant=variant)
-		oshape, owcs = crop_geometry(oshape, owcs, box=pos, oshape=shape)
+		pixbox = None
+		if pos.ndim == 2 and wcsutils.is_cyl(owcs):
+			# The box is allowed to extend past the left and right edges of the
+			# full sky, which is periodic in that direction
+			pixbox = subinds(oshape, owcs, pos, cap=False)[:2]
+			pixbox[:,0] = np.clip(pixbox[:,0], 0, oshape[-2])
+		oshape, owcs = crop_geometry(oshape, owcs, box=pos, pixbox=pixbox, oshape=shape)
 	# Add the pre-dimensions
 	oshape = pre + oshape
 	# For cylindrical projections we can move crval along the equator
-- 
2.43.0


From 43d474b6c7252a2191729ce7f4887f927a776cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:16 +0000
Subject: [PATCH 015/200] fix: band_geometry failed for bands reaching the
 north pole

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index fdaaf72..56c171b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1728,7 +1728,7 @@ def band_geometry(dec_cut, res=None, shape=None, dims=(), proj="car", variant="f
 	Ny,_ = ishape[-2:]
 	start = max(int(np.round(start)),0); stop = min(int(np.round(stop)),Ny)
 	assert start>=0 and start<Ny
-	assert stop>=0 and stop<Ny
+	assert stop>=0 and stop<=Ny
 	return slice_geometry(ishape,iwcs,np.s_[start:stop,:])
 
 def thumbnail_geometry(r=None, res=None, shape=None, dims=(), proj="tan"):
-- 
2.43.0


From ba04be06601da6fd0f660064d541e9cf205ad4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:16 +0000
Subject: [PATCH 016/200] fix: Geometry could not be constructed from another
 Geometry or map

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 56c171b..1a05a11 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -304,7 +304,7 @@ class Geometry:
 	def __init__(self, shape, wcs=None):
 		try: self.shape, self.wcs = tuple(shape.shape), shape.wcs
 		except AttributeError: self.shape, self.wcs = tuple(shape), wcs
-		assert wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
+		assert self.wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
 	@property
 	def npix(self): return self.shape[-2]*self.shape[-1]
 	# Make it behave a bit like a tuple, so we can use it interchangably with a shape, wcs pair
-- 
2.43.0


From 8d637b2098875c29d575abcd7b1a005bc813317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:33 +0000
Subject: [PATCH 017/200] fix: Geometry.downgrade always failed, and
 downgrade_geometry lost the leading dimensions

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 1a05a11..890828e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -328,7 +328,7 @@ class Geometry:
 		shape, wcs = scale_geometry(self.shape, self.wcs, scale)
 		return Geometry(shape, wcs)
 	def downgrade(self, factor, op=np.mean):
-		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor, op=op)
+		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor)
 		return Geometry(shape, wcs)
 	def copy(self):
 		return Geometry(tuple(self.shape), self.wcs.deepcopy())
@@ -2050,7 +2050,7 @@ def downgrade_geometry(shape, wcs, factor):
 	to scale_geometry, but truncates the same way as downgrade, and only
 	supports integer factors."""
 	factor = np.full(2, 1, dtype=int)*factor
-	oshape = tuple(shape[-2:]//factor)
+	oshape = tuple(shape[:-2]) + tuple(shape[-2:]//factor)
 	owcs   = wcsutils.scale(wcs, 1.0/factor, rowmajor=True)
 	return oshape, owcs
 
-- 
2.43.0


From ec7d074345985f7db6b742fda5df6db4f481809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:33 +0000
Subject: [PATCH 018/200] fix: recenter_cyl_ra always failed, and fix_wcs moved
 the coordinates

---
 pixell/wcsutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index f4253d3..e494edc 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -346,7 +346,7 @@ def recenter_cyl_x(wcs, x):
 	return owcs
 
 def recenter_cyl_ra(wcs, ra):
-	return recenter_cyl_x(wcs.wcs.crpix[0] + (ra-wcs.wcs.crval[0])/wcs.wcs.cdelt[0])
+	return recenter_cyl_x(wcs, wcs.wcs.crpix[0] + (ra-wcs.wcs.crval[0])/wcs.wcs.cdelt[0])
 
 def fix_wcs(wcs, axis=0):
 	"""Returns a new WCS object which has had the reference pixel moved to the
@@ -621,7 +621,7 @@ def fix_wcs(wcs, axis=0, n=None):
 	dra   = mid-wcs.wcs.crval[axis]
 	dpix  = dra/wcs.wcs.cdelt[axis]
 	res = wcs.deepcopy()
-	res.wcs.crval[axis] += mid
+	res.wcs.crval[axis] += dra
 	res.wcs.crpix[axis] += dpix
 	# I don't think this is necessary any more, but apparently I had
 	# problems with wcs not being properly updated if I didn't do this
-- 
2.43.0


From 74971d7abb8efeb73a99035c2f06e363badab1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:44 +0000
Subject: [PATCH 019/200] fix: inclusive block_expand and upgrade failed when
 off is a numpy integer

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a554af3..5b9e9cf 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2222,7 +2222,7 @@ def block_expand(a, bsize, osize, axis=-1, off=0, op="nearest", inclusive=True):
 	axis  %= a.ndim
 	if op == "nearest":
 		if inclusive:
-			pre, mid, tail = np.split(a, [off>0,(off>0)+nwhole], axis)
+			pre, mid, tail = np.split(a, [int(off>0),int(off>0)+nwhole], axis)
 			parts = []
 			if pre.size > 0: parts.append(np.repeat(pre, off,   axis))
 			if mid.size > 0: parts.append(np.repeat(mid, bsize, axis))
-- 
2.43.0


From 7339aec34a10f4f606138d963dc9736e56fd0fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:44 +0000
Subject: [PATCH 020/200] fix: upsample_bin applied its factors to the axes in
 reverse order

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 21e5a36..d04bafc 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -40,7 +40,7 @@ def downsample_bin(d, steps=[2], axes=None):
 def upsample_bin(d, steps=[2], axes=None):
 	shape = d.shape
 	assert len(steps) <= d.ndim
-	if axes is None: axes = np.arange(-1,-len(steps)-1,-1)
+	if axes is None: axes = range(-len(steps),0)
 	assert len(axes) == len(steps)
 	# Expand steps to cover every axis in order
 	fullsteps = np.zeros(d.ndim,dtype=int)+1
-- 
2.43.0


From 405e8365520aa8c564c7c333e54e79915b3896fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:28 +0000
Subject: [PATCH 021/200] fix: lazily loaded maps returned corrupted data on
 repeated access, and did not support integer pixel indices

---
 pixell/enmap.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 890828e..2381cd0 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2975,6 +2975,15 @@ class ndmap_proxy:
 	def __repr__(self): return "ndmap_proxy(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (str(self.fname), str(self.shape), str(self.wcs), str(self.dtype))
 	def __getslice__(self, a, b=None, c=None): return self[slice(a,b,c)]
 	def __getitem__(self, sel): raise NotImplementedError("ndmap_proxy must be subclassed")
+	def _wrap(self, res, sel):
+		"""Add coordinate information to the data res selected with sel, following the
+		same rules as ndmap.__getitem__"""
+		_, psel = utils.split_slice(sel, [self.ndim-2,2])
+		if any([s is None for s in psel]): return ndmap(res, self.wcs)
+		if len(psel) > 2: raise IndexError("too many indices")
+		if any([type(s) is not slice for s in psel]): return res
+		_, wcs = slice_geometry(self.shape[-2:], self.wcs, psel)
+		return ndmap(res, wcs)
 	def submap(self, box, mode=None, wrap="auto", recenter=False):
 		return submap(self, box, mode=mode, wrap=wrap, recenter=recenter)
 	def stamps(self, pos, shape, aslist=False): return stamps(self, pos, shape, aslist=aslist)
@@ -3004,13 +3013,13 @@ class ndmap_proxy_fits(ndmap_proxy):
 				str(fname)))
 		ndmap_proxy.__init__(self, hdu.shape, wcs, dtype, fname=fname, threshold=threshold)
 	def __getitem__(self, sel):
-		_, psel = utils.split_slice(sel, [len(self.shape)-2,2])
-		if len(psel) > 2: raise IndexError("too many indices")
-		_, wcs = slice_geometry(self.shape[-2:], self.wcs, psel)
 		if (self.hdu.size > self.threshold) and self.use_section:
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-1,1])
 			res = self.hdu.section[sel1][(Ellipsis,)+sel2]
 		else: res = self.hdu.data[sel]
+		# Copy, so that the changes below don't affect the data owned by the hdu,
+		# which would be used again the next time we're accessed
+		res = np.array(res)
 		# Apply stokes flips if necessary. This is a bit complicated because we have to
 		# take into account that slicing might have already been done. The simplest way
 		# to do this is to make a sign array with the same shape as all the pre-dimensions
@@ -3020,9 +3029,8 @@ class ndmap_proxy_fits(ndmap_proxy):
 			for i, ind in enumerate(self.stokes_flips):
 				if ind >= 0 and ind < self.shape[i]:
 					signs[(slice(None),)*i + (ind,)] *= -1
-			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-2,2])
-			res *= signs[sel1][...,None,None]
-		return ndmap(fix_endian(res), wcs)
+			res *= np.broadcast_to(signs[...,None,None], self.shape)[sel]
+		return self._wrap(fix_endian(res), sel)
 	def __repr__(self): return "ndmap_proxy_fits(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (str(self.fname), str(self.shape), str(self.wcs), str(self.dtype))
 
 class ndmap_proxy_hdf(ndmap_proxy):
@@ -3030,15 +3038,12 @@ class ndmap_proxy_hdf(ndmap_proxy):
 		self.dset      = dset
 		ndmap_proxy.__init__(self, dset.shape, wcs, dset.dtype, fname=fname, threshold=threshold)
 	def __getitem__(self, sel):
-		_, psel = utils.split_slice(sel, [self.ndim-2,2])
-		if len(psel) > 2: raise IndexError("too many indices")
-		_, wcs = slice_geometry(self.shape[-2:], self.wcs, psel)
 		if self.dset.size > self.threshold:
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-1,1])
 			res = self.dset[sel1][(Ellipsis,)+sel2]
 		else:
 			res = self.dset[sel]
-		return ndmap(fix_endian(res), wcs)
+		return self._wrap(fix_endian(np.array(res)), sel)
 	def __repr__(self): return "ndmap_proxy_hdf(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (self.fname, str(self.shape), str(self.wcs), str(self.dtype))
 
 def fix_endian(map):
-- 
2.43.0


From 9051a3eb085c1e987c197e0a625abb3412a9df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:28 +0000
Subject: [PATCH 022/200] fix: read_map ignored mode, and failed when selecting
 a single pixel

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 2381cd0..7dc156c 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2950,10 +2950,10 @@ def read_helper(data, sel=None, box=None, pixbox=None, geometry=None, wrap="auto
 	"""Helper function for map reading. Handles the slicing, sky-wrapping and capping, etc."""
 	if delayed: return data # Slicing not supported yet when we want to return a proxy object
 	if geometry is not None: data = extract(data, *geometry, wrap=wrap)
-	if box      is not None: data = submap(data, box, wrap=wrap, recenter=recenter)
+	if box      is not None: data = submap(data, box, mode=mode, wrap=wrap, recenter=recenter)
 	if pixbox   is not None: data = extract_pixbox(data, pixbox, wrap=wrap, recenter=recenter)
 	if sel      is not None: data = data[sel]
-	data = data[:] # Get rid of the wrapper if it still remains
+	data = data[...] # Get rid of the wrapper if it still remains
 	data = data.copy()
 	return data
 
-- 
2.43.0


From 2d0133ea952c4c2a777f39de7f1123fce04dafbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:28 +0000
Subject: [PATCH 023/200] fix: read_fits_geometry missed coordinates in long
 headers, and read_fits_dtype was wrong for 8-bit and unsigned maps

---
 pixell/enmap.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 7dc156c..4ddd3d2 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2812,10 +2812,10 @@ def read_fits_header(fname, hdu=None, quick=True):
 		# Read header only, without body
 		if isinstance(fname, str):
 			with open(fname, "rb") as ifile:
-				header = astropy.io.fits.Header.fromstring(ifile.read(2880))
+				header = astropy.io.fits.Header.fromfile(ifile)
 		else:
 			# Handle the case where the user already has a file object
-			header = astropy.io.fits.Header.fromstring(fname.read(2880))
+			header = astropy.io.fits.Header.fromfile(fname)
 	else:
 		with utils.nowarn():
 			header = astropy.io.fits.open(fname)[hdu].header
@@ -2838,9 +2838,11 @@ def read_fits_dtype(fname, hdu=None, quick=True):
 	header = read_fits_header(fname, hdu=hdu, quick=quick)
 	if "BITPIX" not in header: raise KeyError("BITPIX not defined in fits file")
 	bitpix = header["BITPIX"]
-	table  = {-32:np.float32, -64:np.float64, 8:np.int8, 16:np.int16, 32:np.int32, 64:np.int64}
+	table  = {-32:np.float32, -64:np.float64, 8:np.uint8, 16:np.int16, 32:np.int32, 64:np.int64}
 	if bitpix not in table: raise ValueError("Unrecognized BITPIX %d" % bitpix)
-	return table[bitpix]
+	# The integer types with the opposite signedness are stored with an offset
+	offtab = {(8,-2**7):np.int8, (16,2**15):np.uint16, (32,2**31):np.uint32, (64,2**63):np.uint64}
+	return offtab.get((bitpix,header.get("BZERO",0)), table[bitpix])
 
 def write_hdf(fname, emap, address=None, extra={}):
 	"""Write an enmap as an hdf file, preserving all the WCS
-- 
2.43.0


From 0303401428e483b43b0fe26e6cc41715373255ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:28 +0000
Subject: [PATCH 024/200] fix: read_map_geometry did not handle the slices that
 read_map does

---
 pixell/enmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 4ddd3d2..dbfcf6d 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2720,8 +2720,10 @@ def read_map_geometry(fname, fmt=None, hdu=None, address=None):
 	else:
 		raise ValueError
 	if len(toks) > 1:
-		sel = eval("utils.sliceeval"+":".join(toks[1:]))[-2:]
-		shape, wcs = slice_geometry(shape, wcs, sel)
+		# Slice a dummy map that takes up no memory, so that this works
+		# the same way as in read_map
+		res = ndmap(np.broadcast_to(np.zeros((),bool), shape), wcs)
+		shape, wcs = eval("res"+":".join(toks[1:])).geometry
 	return shape, wcs
 
 def read_map_dtype(fname, fmt=None, hdu=None, address=None):
-- 
2.43.0


From 0ebbe35ed12c5ef7a16858e58810acd03107d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:05 +0000
Subject: [PATCH 025/200] fix: read_hdf_geometry failed on string header
 entries

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index dbfcf6d..bca8240 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2925,7 +2925,7 @@ def read_hdf_geometry(fname, address=None):
 		hwcs = hfile["wcs"]
 		header = astropy.io.fits.Header()
 		for key in hwcs:
-			header[key] = hwcs[key][()]
+			header[key] = fix_python3(hwcs[key][()])
 		wcs   = wcsutils.WCS(header).sub(2)
 		shape = hfile["data"].shape
 	return shape, wcs
-- 
2.43.0


From 78008e383d5040dc2a68f37c60df1863d254b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:24 +0000
Subject: [PATCH 026/200] fix: dcts returned garbage with the numpy fft engine

---
 pixell/fft.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index f486b48..c106499 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -1,6 +1,6 @@
 """This is a convenience wrapper of pyfftw."""
 from __future__ import print_function, division
-import numpy as np, multiprocessing, os
+import numpy as np, scipy.fft, multiprocessing, os
 from . import utils
 engines = {}
 
@@ -20,8 +20,16 @@ class numpy_FFTW:
 			else:
 				# Real to complex
 				self.b[:] = np.fft.rfftn(self.a, axes=self.axes)
+		elif self.direction != 'FFTW_BACKWARD':
+			# DCTs and DSTs. These come as a list with one entry per axis
+			work = self.a
+			for ax, kind in zip(self.axes, self.direction):
+				fun  = {"REDFT":scipy.fft.dct,"RODFT":scipy.fft.dst}[kind[5:10]]
+				num  = {"00":1, "10": 2, "01": 3, "11":4}[kind[10:12]]
+				work = fun(work, type=num, axis=ax)
+			self.b[:] = work
 		else:
-			if self.a.shape == self.b.shape:
+			if np.iscomplexobj(self.b):
 				# Complex to complex
 				self.b[:] = np.fft.ifftn(self.a, axes=self.axes)
 			else:
-- 
2.43.0


From 282ee27a7c98bb3c336607b733961a5925848cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:03 +0000
Subject: [PATCH 027/200] fix: irfft of length 1 and 2 and ifft of real arrays
 failed

---
 pixell/fft.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index c106499..9c6f802 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -61,7 +61,7 @@ class ducc_FFTW:
 				# Real to complex
 				ducc0.fft.r2c(self.a, axes=self.axes, out=self.b, nthreads=self.threads)
 		elif self.direction == "FFTW_BACKWARD":
-			if self.a.shape == self.b.shape:
+			if np.iscomplexobj(self.b):
 				# Complex to complex
 				ducc0.fft.c2c(a=self.a, axes=self.axes, out=self.b, forward=False, inorm=2 if normalise_idft else 0, nthreads=self.threads)
 			else:
@@ -178,7 +178,10 @@ def ifft(ft, tod=None, nthread=0, normalize=False, axes=[-1],flags=None, engine=
 	if ft.size == 0: return
 	nt = nthread or nthread_ifft
 	if flags is None: flags = default_flags
-	if tod is None:	tod = empty(ft.shape, ft.dtype)
+	if tod is None:
+		otype = np.result_type(ft.dtype,0j)
+		tod = empty(ft.shape, otype)
+		ft  = ft.astype(otype, copy=False)
 	engine = get_engine(engine)
 	if engine == 'intel':
 		tod[:] = ifft_flat(ft, tod, axes=axes, nthread=nt, flags=flags)
-- 
2.43.0


From e4e1b3f57e76c9d1ef7db48f8fd44b6c7a6a1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:03 +0000
Subject: [PATCH 028/200] fix: nearest_product (and so fft_len) did not return
 the highest product below its argument

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 5b9e9cf..f6026cb 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -779,14 +779,14 @@ def nearest_product(n, factors, direction="below"):
 	# a keeps track of all the visited multiples
 	a = np.zeros(nmax+1,dtype=bool)
 	a[1] = True
-	best = None
+	best = 1 if below and n >= 1 else None
 	for i in range(ni+1):
 		if not a[i]: continue
 		for f in factors:
 			m = i*f
 			if below:
 				if m > n: continue
-				else: best = m
+				else: best = max(best, m)
 			else:
 				if m >= n and (best is None or best > m):
 					best = m
-- 
2.43.0


From 11b9f033c2fc8454d5c8c1cbc894e77a3ec12363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:03 +0000
Subject: [PATCH 029/200] fix: chebt and ichebt scaled the wrong axis of
 multidimensional arrays

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 9c6f802..e737c98 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -320,13 +320,13 @@ def redft00(a, b=None, nthread=0, normalize=False, flags=None, engine="auto"):
 def chebt(a, b=None, nthread=0, flags=None, engine="auto"):
 	"""The chebyshev transform of a, along its last dimension."""
 	b = redft00(a, b, nthread, normalize=True, flags=flags, engine=engine)
-	b[1:-1] *= 2
+	b[...,1:-1] *= 2
 	return b
 
 def ichebt(a, b=None, nthread=0, engine="auto"):
 	"""The inverse chebyshev transform of a, along its last dimension."""
 	a = asfcarray(a).copy()
-	a[1:-1] *= 0.5
+	a[...,1:-1] *= 0.5
 	return redft00(a, b, nthread, engine=engine)
 
 def fft_len(n, direction="below", factors=None):
-- 
2.43.0


From 6e9802728292d9e74d361190d9ce2125b1426fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:19 +0000
Subject: [PATCH 030/200] fix: nu2u, iu2nu and inu2u failed for real or
 multidimensional samples, and inufft_adjoint ignored complex

---
 pixell/fft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index e737c98..0ed2cb7 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -508,7 +508,7 @@ def nu2u(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=No
 		epsilon=epsilon, nthread=nthread, normalize=normalize, complex=complex)
 	work = np.zeros(h.tshape, h.ctype)
 	for uI, nuI in zip(h.uiter, h.nuiter):
-		res = ducc0.nufft.nu2u(points=h.nu[nuI], coord=h.iflat, out=work,
+		res = ducc0.nufft.nu2u(points=h.nu[nuI].reshape(-1).astype(h.ctype, copy=False), coord=h.iflat, out=work,
 			forward=forward, epsilon=h.epsilon, nthreads=h.nthread,
 			periodicity=h.periodicity, fft_order=True)
 		if not np.iscomplexobj(h.u):
@@ -551,7 +551,7 @@ def iu2nu(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=N
 		# with solution out = (P'P)"P'a. The CG solver wants real numbers, though,
 		# so we hack around that with view
 		# Set up the equation system. Our degrees of freedom are flattened real u
-		b = wzip(PT(h.nu[nuI].reshape(-1)))
+		b = wzip(PT(h.nu[nuI].reshape(-1).astype(h.ctype, copy=False)))
 		def A(x): return wzip(PT(P(wunzip(x))))
 		solver = utils.CG(A, b)
 		while solver.err > h.epsilon:
@@ -581,7 +581,7 @@ def inu2u(fa, inds, out=None, axes=None, periodicity=None, epsilon=None, nthread
 		# Invert nu2u by finding the least-squares solution to
 		#  fa = nu2u(out, inds). Written linearly this is fa = P out
 		# with solution out = (P'P)"P'fa
-		b = wzip(PT(h.u[uI]))
+		b = wzip(PT(h.u[uI].astype(h.ctype, copy=False)))
 		def A(x): return wzip(PT(P(wunzip(x))))
 		solver = utils.CG(A, b)
 		while solver.err > h.epsilon:
@@ -611,7 +611,7 @@ def nufft_adjoint(a, inds, out=None, oshape=None, axes=None, periodicity=None, e
 
 def inufft_adjoint(fa, inds, out=None, axes=None, periodicity=None, epsilon=None, nthread=None, normalize=False, flip=False, complex=True):
 	"""Alias of inu2u(..., forward=not flip). This involves inverting a system with conjugate gradients"""
-	return inu2u(fa, inds, out=out, axes=axes, periodicity=periodicity, epsilon=epsilon, nthread=nthread, normalize=normalize, forward=not flip)
+	return inu2u(fa, inds, out=out, axes=axes, periodicity=periodicity, epsilon=epsilon, nthread=nthread, normalize=normalize, forward=not flip, complex=complex)
 
 # Incremental nufft. This is useful for low-latency interpolation, or interpolation
 # where you don't know how many points there will be
-- 
2.43.0


From 812c8c9a1dad18c30d67f8b1ad3e71280674e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:21 +0000
Subject: [PATCH 031/200] fix: fourier resampling to or from odd lengths put
 modes at the wrong frequencies

---
 pixell/enmap.py    | 13 ++++++++-----
 pixell/fft.py      | 13 ++++++++-----
 pixell/resample.py | 14 +++++++-------
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index bca8240..da6594e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3179,15 +3179,18 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	# fourier center had been in the middle. This could be acieved using fftshift,
 	# but that would require two extra full-array shifts
 	cny, cnx = np.minimum(fimap.shape[-2:], oshape[-2:])
-	hny, hnx = cny//2, cnx//2
+	# The common frequencies are 0..(cn-1)//2 and -(cn//2)..-1
+	hny, hnx = (cny+1)//2, (cnx+1)//2
+	iny, inx = fimap.shape[-2]-(cny-hny), fimap.shape[-1]-(cnx-hnx)
+	ony, onx = fomap.shape[-2]-(cny-hny), fomap.shape[-1]-(cnx-hnx)
 	# This function is used to avoid paying the cost of multiplying by norm when it's one
 	def transfer(dest, source, norm, op):
 		if norm != 1: source = source*norm
 		dest[:] = op(dest, source)
-	transfer(fomap[...,:hny,       :hnx       ],fimap[...,:hny,       :hnx       ], norm, op)
-	transfer(fomap[...,:hny,       -(cnx-hnx):],fimap[...,:hny,       -(cnx-hnx):], norm, op)
-	transfer(fomap[...,-(cny-hny):,:hnx       ],fimap[...,-(cny-hny):,:hnx       ], norm, op)
-	transfer(fomap[...,-(cny-hny):,-(cnx-hnx):],fimap[...,-(cny-hny):,-(cnx-hnx):], norm, op)
+	transfer(fomap[...,:hny,:hnx],fimap[...,:hny,:hnx], norm, op)
+	transfer(fomap[...,:hny,onx:],fimap[...,:hny,inx:], norm, op)
+	transfer(fomap[...,ony:,:hnx],fimap[...,iny:,:hnx], norm, op)
+	transfer(fomap[...,ony:,onx:],fimap[...,iny:,inx:], norm, op)
 	if np.any(off != 0):
 		# It's fastest to do this here when downsampling, but when upsampling
 		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
diff --git a/pixell/fft.py b/pixell/fft.py
index 0ed2cb7..19d8544 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -427,13 +427,16 @@ def resample_fft(fa, n, out=None, axes=-1, norm=1, op=lambda a,b:b):
 		dest[:] = op(dest, source)
 	# Loop over start and end blocks for all dimensions
 	for bi, I in enumerate(utils.nditer([2]*len(axes))):
-		sel = [slice(None) for n in oshape]
+		isel = [slice(None) for n in oshape]
+		osel = [slice(None) for n in oshape]
 		for ai, ax in enumerate(axes):
+			# The c common frequencies are 0..(c-1)//2 and -(c//2)..-1
 			c = min(fa.shape[ax], oshape[ax])
-			if I[ai] == 0: sel[ax] = slice(0,c//2)
-			else:          sel[ax] = slice(-(c-c//2),None)
-		sel = tuple(sel)
-		transfer(out[sel], fa[sel], norm, op)
+			if I[ai] == 0: isel[ax] = osel[ax] = slice(0,c-c//2)
+			else:
+				isel[ax] = slice(fa.shape[ax]-c//2,None)
+				osel[ax] = slice(oshape[ax]-c//2,None)
+		transfer(out[tuple(osel)], fa[tuple(isel)], norm, op)
 	return out
 
 def interpol_nufft(a, inds, out=None, axes=None, normalize=True,
diff --git a/pixell/resample.py b/pixell/resample.py
index d04bafc..87e7d2d 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -67,7 +67,7 @@ def resample_fft(d, n, axes=None):
 	else: assert len(n) == len(axes)
 	assert len(n) <= d.ndim
 	# Nothing to do?
-	if np.all(d.shape[-len(n):] == n): return d
+	if np.all(np.array(d.shape)[axes] == n): return d
 	# Use the simple version if we can. It has lower memory overhead
 	if d.ndim == 2 and len(n) == 1 and (axes[0] == 1 or axes[0] == -1):
 		return resample_fft_simple(d, n[0])
@@ -86,12 +86,12 @@ def resample_fft(d, n, axes=None):
 		dn   = nnew-nold
 		if dn > 0:
 			padvals = np.zeros(fd.shape[:ax]+(dn,)+fd.shape[ax+1:],fd.dtype)
-			spre  = tuple([slice(None)]*ax+[slice(0,nold//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nold//2,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,nold-nold//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice(nold-nold//2,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],padvals,fd[spost]],axis=ax)
 		elif dn < 0:
-			spre  = tuple([slice(None)]*ax+[slice(0,nnew//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nnew//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,nnew-nnew//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice(nnew-nnew//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],fd[spost]],axis=ax)
 		norm *= float(nnew)/nold
 	# And transform back
@@ -110,9 +110,9 @@ def resample_fft_simple(d, n, ngroup=100):
 	for di in range(0, d.shape[0], ngroup):
 		fd = fft.fft(d[di:di+ngroup])
 		if n < nold:
-			fd = np.concatenate([fd[:,:n//2],fd[:,n//2-dn:]],1)
+			fd = np.concatenate([fd[:,:n-n//2],fd[:,n-n//2-dn:]],1)
 		else:
-			fd = np.concatenate([fd[:,:nold//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,nold//2:]],-1)
+			fd = np.concatenate([fd[:,:nold-nold//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,nold-nold//2:]],-1)
 		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
 		del fd
 	res *= float(n)/nold
-- 
2.43.0


From d9e7011c3fc57b392f79d006b3a9ba48be94a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:21 +0000
Subject: [PATCH 032/200] fix: resampling lost the imaginary part of complex
 arrays and truncated integer ones

---
 pixell/enmap.py    | 3 ++-
 pixell/resample.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index da6594e..dfb61b2 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3131,7 +3131,8 @@ def resample(map, oshape, off=(0,0), method="fft", border="wrap", corner=True, o
 	# Construct the output shape and wcs
 	oshape = map.shape[:-2] + tuple(oshape)[-2:]
 	if method == "fft":
-		omap  = ifft(resample_fft(fft(map, normalize=False), oshape, off=off, corner=corner, norm=1/map.npix), normalize=False).real
+		omap  = ifft(resample_fft(fft(map, normalize=False), oshape, off=off, corner=corner, norm=1/map.npix), normalize=False)
+		if not np.iscomplexobj(map): omap = omap.real
 	elif method == "spline":
 		owcs = wcsutils.scale(map.wcs, np.array(oshape[-2:],float)/map.shape[-2:], rowmajor=True, corner=corner)
 		off  = np.zeros(2)+off
diff --git a/pixell/resample.py b/pixell/resample.py
index 87e7d2d..c7dda20 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -105,7 +105,7 @@ def resample_fft_simple(d, n, ngroup=100):
 	last axis."""
 	nold = d.shape[1]
 	if n == nold: return d
-	res  = np.zeros([d.shape[0],n],dtype=d.dtype)
+	res  = np.zeros([d.shape[0],n],dtype=np.result_type(d.dtype,0.0))
 	dn   = n-nold
 	for di in range(0, d.shape[0], ngroup):
 		fd = fft.fft(d[di:di+ngroup])
@@ -113,7 +113,8 @@ def resample_fft_simple(d, n, ngroup=100):
 			fd = np.concatenate([fd[:,:n-n//2],fd[:,n-n//2-dn:]],1)
 		else:
 			fd = np.concatenate([fd[:,:nold-nold//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,nold-nold//2:]],-1)
-		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
+		fd = fft.ifft(fd, normalize=True)
+		res[di:di+ngroup] = fd if np.iscomplexobj(res) else fd.real
 		del fd
 	res *= float(n)/nold
 	return res
-- 
2.43.0


From 08311cf77ed44e9593db17bf6d825f4c88b9ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:41 +0000
Subject: [PATCH 033/200] fix: wcsutils.scale with corner=False did not keep
 the first pixel in place

---
 pixell/wcsutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index e494edc..74f3c73 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -195,12 +195,12 @@ def scale(wcs, scale=1, rowmajor=False, corner=True):
 	scale = np.zeros(2)+scale
 	if rowmajor: scale = scale[::-1]
 	wcs = wcs.deepcopy()
-	if corner:
-		wcs.wcs.crpix -= 0.5
+	# fits pixel centers are at 1, so the first pixel starts at 0.5
+	off = 0.5 if corner else 1.0
+	wcs.wcs.crpix -= off
 	wcs.wcs.crpix *= scale
 	wcs.wcs.cdelt /= scale
-	if corner:
-		wcs.wcs.crpix += 0.5
+	wcs.wcs.crpix += off
 	return wcs
 
 #def expand_res(res, default_dirs=[1,-1]):
-- 
2.43.0


From 0b3b27ec5b331f3f8c6fb8eed04962b0d39a5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:05 +0000
Subject: [PATCH 034/200] fix: enmap.dct/idct were not each others' inverse,
 and smooth_spectrum ignored custom weights

---
 pixell/enmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index dfb61b2..bcc76af 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1273,7 +1273,7 @@ def fft(emap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=Fals
 	else:   res  = samewcs(enfft.fft(emap,omap,axes=[-2,-1],nthread=nthread), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_ifft: norm /= emap.pixsize()**0.5
@@ -1286,7 +1286,7 @@ def ifft(emap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=Fals
 	else:   res  = samewcs(enfft.ifft(emap,omap,axes=[-2,-1],nthread=nthread, normalize=False), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_fft: norm *= emap.pixsize()**0.5
@@ -1915,6 +1915,7 @@ def smooth_spectrum(ps, kernel="gauss", weight="mode", width=1.0):
 	else:
 		tmp = np.atleast_2d(weight)
 		assert tmp.shape[-1] == W.shape[-1], "Spectrum weight must have the same length as spectrum"
+		W[:] = tmp
 	pWK = _convolute_sym(pflat*W, K)
 	WK  = _convolute_sym(W, K)
 	res = pWK/WK
-- 
2.43.0


From 4dcb3f43cbf9c6a1543f9148696c09ffd77887a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:25 +0000
Subject: [PATCH 035/200] fix: lmul read and wrote out of bounds for
 single-precision matrices longer than lmax, and did not check its arguments

---
 cython/cmisc.pyx    | 3 ++-
 cython/cmisc_core.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cython/cmisc.pyx b/cython/cmisc.pyx
index 6b5ea81..ba59884 100644
--- a/cython/cmisc.pyx
+++ b/cython/cmisc.pyx
@@ -157,10 +157,11 @@ def lmul(ainfo, alm, lfun, out=None):
 	# The arrays need to be contiguous along the last dimension
 	alm  = aslastcontig(alm,  dtype=ctype)
 	lfun = aslastcontig(lfun, dtype=rtype)
-	if out is not None and not islastcontig(out) and out.dtype != ctype:
+	if out is not None and (not islastcontig(out) or out.dtype != ctype):
 		raise ValueError("lmul's out argument must be contiguous along last axis, and have the same dtype as alm")
 	# Are we doing a matmul?
 	if lfun.ndim == 3 and alm.ndim == 2:
+		if lfun.shape[1] != alm.shape[0]: raise ValueError("lmul's alm and lfun's dimensions are not compatible with a matrix product")
 		if out is None: out = np.zeros(lfun.shape[:1]+alm.shape[1:], alm.dtype)
 		if alm.dtype == np.complex128:  _lmatmul_dp(ainfo, alm, lfun, out)
 		elif alm.dtype == np.complex64: _lmatmul_sp(ainfo, alm, lfun, out)
diff --git a/cython/cmisc_core.c b/cython/cmisc_core.c
index ded2d9a..cb751b0 100644
--- a/cython/cmisc_core.c
+++ b/cython/cmisc_core.c
@@ -208,7 +208,7 @@ void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm
 		float * vimag = calloc(N, sizeof(float));
 		#pragma omp for
 		for(int m = 0; m <= mmax; m++) {
-			for(int l = m; l <= lfmax; l++) {
+			for(int l = m; l <= leff; l++) {
 				int64_t i = mstart[m]+l;
 				// Zero out the work arrays
 				for(int r = 0; r < N; r++) { vreal[r] = vimag[r] = 0; }
-- 
2.43.0


From fff7771e5ac57edb8a1f5b6d6d892ef9a5e542c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:14 +0000
Subject: [PATCH 036/200] fix: alm2map with method general (and alm2map_pos)
 ignored the alm layout

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 004ab7d..ca27658 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -972,7 +972,7 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	if epsilon is None:
 		if map.dtype == np.float64: epsilon = 1e-10
 		else:                       epsilon = 1e-6
-	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "nthreads":nthread, "epsilon":epsilon}
+	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "mstart":ainfo.mstart, "nthreads":nthread, "epsilon":epsilon}
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-- 
2.43.0


From d791ef8e995dd8aa54e2c28c93f1749e5e47db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:14 +0000
Subject: [PATCH 037/200] fix: the last row of the map was skipped by
 calc_locinfo when it starts a new block, including for single-row maps

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index ca27658..e9c776c 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1332,7 +1332,7 @@ def calc_locinfo(shape, wcs, bsize=1000):
 	loc  = np.zeros((shape[-2]*shape[-1],2))
 	mask = np.zeros(shape[-2:],bool)
 	off  = 0
-	for b1 in range(0, shape[-2]-1, bsize):
+	for b1 in range(0, shape[-2], bsize):
 		b2      = min(b1+bsize, shape[-2])
 		subgeo  = enmap.Geometry(shape, wcs)[b1:b2]
 		subpos  = enmap.posmap(*subgeo, safe=False)
-- 
2.43.0


From 9f43b5bac6fe3ff6d111ef5cd247e714ae19a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:14 +0000
Subject: [PATCH 038/200] fix: DH full-sky geometries had their pole offsets
 swapped, so were not recognised as such

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index e9c776c..a621c2d 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1304,7 +1304,7 @@ def get_ducc_geo(wcs, shape=None, tol=1e-6):
 	# makes it easier to read
 	if   hasoff(y1,0.0) and hasoff(y2,0.0):
 		if   near(y1,-1) and near(y2,Ny): name, o1, o2 = "F2", 1, 1
-		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 1, 0
+		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 0, 1
 		else: name, o1, o2 = "CC", 0, 0
 	elif hasoff(y1,0.5) and hasoff(y2,0.5): name, o1, o2 = "F1", 0.5, 0.5
 	elif hasoff(y1,0.5) and hasoff(y2,0.0): name, o1, o2 = "MW", 0.5, 0.0
-- 
2.43.0


From 3dda297b99a65c8770f03fba31197c475213a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:14 +0000
Subject: [PATCH 039/200] fix: general SHTs of scalar maps with invalid pixels
 failed

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index a621c2d..4c50bb0 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -775,7 +775,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
@@ -854,7 +854,7 @@ def map2alm_general(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2]
 	if weights is None: weights = map.pixsizemap()[locinfo.mask].astype(map.dtype, copy=False)
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
-- 
2.43.0


From 912093854e9398f490c8230d924cd5272b780fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:14 +0000
Subject: [PATCH 040/200] fix: adjoint SHT derivatives had the wrong sign and
 modified the map, and could not allocate the alm

---
 pixell/curvedsky.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 4c50bb0..ad112ae 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -337,9 +337,7 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	# Loop over pre-dimensions
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=alm_full[I], map=map_full[I], mode="DERIV1", spin=1, **kwargs)
-			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			deriv_helper(func, alm_full[I], map_full[I], adjoint, **kwargs)
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full[I].shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -729,7 +727,7 @@ def alm2map_2d(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, copy=F
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3 if deriv else -2], dtype=utils.native_dtype(map.dtype))
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -749,7 +747,7 @@ def alm2map_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, copy=
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3 if deriv else -2], dtype=utils.native_dtype(map.dtype))
 	if minfo is None: minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -769,7 +767,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3 if deriv else -2], dtype=utils.native_dtype(map.dtype))
 	if locinfo is None: locinfo = calc_locinfo(map.shape, map.wcs)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -886,9 +884,7 @@ def alm2map_raw_2d(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, ve
 	# pre-dimentions are map.shape[:-3]
 	for I in utils.nditer(map_full.shape[:-3]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
-			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			deriv_helper(func, alm_full[I], map_full[I], adjoint, **kwargs)
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -922,9 +918,7 @@ def alm2map_raw_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, c
 	# dimensions, so this outermost loop usually does nothing
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
-			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			deriv_helper(func, alm_full[I], map_full[I], adjoint, **kwargs)
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -976,9 +970,7 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
-			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			deriv_helper(func, alm_full[I], map_full[I], adjoint, **kwargs)
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -1090,6 +1082,17 @@ def map2alm_raw_general(map, loc, alm=None, ainfo=None, lmax=None, spin=[0,2], w
 				else:       alm_full[Ij] = jacobi_inverse(Y, YTW, map_full[Ij], niter=niter)
 	return alm
 
+def deriv_helper(func, alm, map, adjoint, **kwargs):
+	"""Call the ducc synthesis (or adjoint synthesis if adjoint is True) function func for
+	the derivatives map[{dec,ra},...] of alm[nalm]. ducc works with the theta derivative,
+	which has the opposite sign of the dec derivative."""
+	if adjoint:
+		map = map.copy()
+		map[0] *= -1
+	func(alm=utils.fix_zero_strides(alm[None]), map=map, mode="DERIV1", spin=1, **kwargs)
+	if not adjoint:
+		map[0] *= -1
+
 def jacobi_inverse(forward, approx_backward, y, niter=0):
 	"""Given y = forward(x), attempt to recover x using jacobi iteration
 	with forward and it's approximate inverse approx_backward. niter
-- 
2.43.0


From 9006d49d7c9abde83b33cc905406a3599f61b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:14 +0000
Subject: [PATCH 041/200] fix: alm2map_pos did not accept maps shaped like its
 positions

---
 pixell/curvedsky.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index ad112ae..c47a970 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -194,15 +194,19 @@ def alm2map_pos(alm, pos=None, loc=None, ainfo=None, map=None, spin=[0,2], deriv
 		# Support arbitrary pre-dimensions for loc (post-dimensions for pos)
 	lpre = loc.shape[:-1]
 	loc  = loc.reshape(-1,2)
-	if deriv: oshape = alm.shape[:-1]+(2,len(loc))
-	else:     oshape = alm.shape[:-1]+(len(loc),)
+	if deriv: opre = alm.shape[:-1]+(2,)
+	else:     opre = alm.shape[:-1]
 	if map is None:
-		map = np.zeros(oshape, utils.real_dtype(alm.dtype))
-	for I in utils.nditer(map.shape[:-2]):
-		alm2map_raw_general(alm[I], map[I], loc, ainfo=ainfo, spin=spin, deriv=deriv,
+		map = np.zeros(opre+(len(loc),), utils.real_dtype(alm.dtype))
+	# Flatten the pixel axes, which may or may not already be flat in map
+	fmap = map.reshape(opre+(len(loc),))
+	for I in utils.nditer(fmap.shape[:-2]):
+		alm2map_raw_general(alm[I], fmap[I], loc, ainfo=ainfo, spin=spin, deriv=deriv,
 				nthread=nthread, verbose=verbose, epsilon=epsilon, adjoint=adjoint)
+	if not adjoint and not np.may_share_memory(fmap, map):
+		map[...] = fmap.reshape(map.shape)
 	# Reshape to reflect the dimensions pos/loc
-	map = map.reshape(map.shape[:-1]+lpre)
+	map = map.reshape(opre+lpre)
 	if adjoint: return alm
 	else:       return map
 
-- 
2.43.0


From 817c8cff66117290158b1ea5af82d9c3da546bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:14 +0000
Subject: [PATCH 042/200] fix: alm2map_healpix ignored copy, could not allocate
 derivatives, and failed when limiting theta

---
 pixell/curvedsky.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index c47a970..034c7a9 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -318,8 +318,11 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	"""Projects the given alm[...,ncomp,nalm] onto the given healpix map
 	healmap[...,ncomp,npix]."""
 	dtype      = utils.native_dtype(utils.real_dtype(alm.dtype))
+	if copy:
+		if adjoint: alm = alm.copy()
+		elif healmap is not None: healmap = healmap.copy()
 	alm, ainfo = prepare_alm(alm, ainfo, dtype=dtype)
-	healmap    = prepare_healmap(healmap, nside, alm.shape[:-1], dtype)
+	healmap    = prepare_healmap(healmap, nside, alm.shape[:-1]+((2,) if deriv else ()), dtype)
 	alm_full   = utils.atleast_Nd(alm, 2 if deriv else 3)
 	map_full   = utils.atleast_Nd(healmap, 3)
 	alm_full   = utils.fix_zero_strides(alm_full)
@@ -584,7 +587,8 @@ def apply_minfo_theta_lim(minfo, theta_min=None, theta_max=None):
 	if theta_min is not None: mask &= minfo.theta >= theta_min
 	if theta_max is not None: mask &= minfo.theta <= theta_max
 	res = minfo.copy()
-	for key in ["theta", "nphi", "phi0"]: res[key] = res[key][mask]
+	for key in ["theta", "nphi", "phi0", "offsets", "stride"]: res[key] = res[key][mask]
+	res.nrow = len(res.theta)
 	return res
 
 def fill_gauss(arr, bsize=0x10000):
-- 
2.43.0


From a83766c5c6aa9ba1750d02a24a7a967ef27b9417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:44 +0000
Subject: [PATCH 043/200] fix: derivatives on part of a healpix map changed the
 sign of the other pixels

---
 pixell/curvedsky.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 034c7a9..2d3ec93 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1094,9 +1094,9 @@ def deriv_helper(func, alm, map, adjoint, **kwargs):
 	"""Call the ducc synthesis (or adjoint synthesis if adjoint is True) function func for
 	the derivatives map[{dec,ra},...] of alm[nalm]. ducc works with the theta derivative,
 	which has the opposite sign of the dec derivative."""
-	if adjoint:
-		map = map.copy()
-		map[0] *= -1
+	if adjoint: map = map.copy()
+	# Also do this before writing to map, so that any pixels func doesn't touch are unchanged
+	map[0] *= -1
 	func(alm=utils.fix_zero_strides(alm[None]), map=map, mode="DERIV1", spin=1, **kwargs)
 	if not adjoint:
 		map[0] *= -1
-- 
2.43.0


From f2a14ca8c1e7767ffa5143353c2b303bac26ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:38 +0000
Subject: [PATCH 044/200] fix: map2alm and quad_weights used the weights of the
 wrong rows for some orientations, and failed for MW bands

---
 pixell/curvedsky.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 2d3ec93..d714389 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -486,15 +486,20 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	weights[ny] where ny is shape[-2]. For cases where quadrature weights aren't available,
 	it's a pretty good approximation to just use the pixel area."""
 	minfo = analyse_geometry(shape, wcs, tol=pix_tol)
-	if minfo.ducc_geo.name is None:
+	if not has_quad_weights(minfo):
 		raise ValueError("Quadrature weights not available for geometry %s,%s" % (str(shape),str(wcs)))
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 	weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
-	if minfo.flip: weights = weights[::-1]
+	if minfo.flip[0]: weights = weights[::-1]
 	weights/= minfo.ducc_geo.nx
 	return weights
 
+def has_quad_weights(minfo):
+	"""Return whether ducc can provide quadrature weights for the geometry with the given
+	analyse_geometry result. It doesn't have any for the MW geometries."""
+	return minfo.ducc_geo is not None and minfo.ducc_geo.name not in [None,"MW","MWflip"]
+
 #####################
 ### 1d Transforms ###
 #####################
@@ -827,15 +832,13 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Get our weights, approximate or not
 	if weights is None:
-		if minfo.ducc_geo is not None and minfo.ducc_geo.name is not None:
-			ny      = map.shape[-2]+np.sum(minfo.ypad)
-			weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
-			weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
-			weights/= minfo.ducc_geo.nx
+		if has_quad_weights(minfo):
+			weights = quad_weights(map.shape, map.wcs, pix_tol=pix_tol)
 		else:
 			weights = map.pixsizemap(separable=True, broadcastable=True)[:,0]
-			if minfo.flip: weights = weights[::-1]
 		weights = weights.astype(map.dtype, copy=False)
+	# The weights are in the same order as the map, so they need the same flipping
+	if minfo.flip[0]: weights = weights[::-1]
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
-- 
2.43.0


From 4a7c1c039eced26da245d5a78f07c1397d1fefe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:38 +0000
Subject: [PATCH 045/200] fix: map2alm ignored niter for method general

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index d714389..3611371 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -301,7 +301,7 @@ def map2alm(map, alm=None, lmax=None, spin=[0,2], deriv=False, adjoint=False,
 		if verbose: print("method: pos")
 		return map2alm_general(map, alm, ainfo=ainfo, lmax=lmax, spin=spin, deriv=deriv, copy=copy,
 			verbose=verbose, adjoint=adjoint, nthread=nthread, epsilon=epsilon,
-			locinfo=locinfo, weights=weights)
+			locinfo=locinfo, weights=weights, niter=niter)
 	else:
 		raise ValueError("Unrecognized alm2map method '%s'" % str(method))
 
-- 
2.43.0


From ad75ac5e4bc451f7fe61b4799d51d15f87ffc19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:38 +0000
Subject: [PATCH 046/200] fix: harm2profile failed for float32 and profile2harm
 skipped the last sample

---
 pixell/curvedsky.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 3611371..28250b9 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -519,7 +519,8 @@ def profile2harm(br, r, lmax=None, oversample=1, left=None, right=None):
 	dr    = (r[-1]-r[0])/(len(r)-1)
 	nfull = utils.nint(np.pi/dr)+1
 	dr    = np.pi/(nfull-1)
-	ncut  = int(np.ceil(r[-1]/dr))
+	# Include every sample point up to and including r[-1]
+	ncut  = min(int(np.floor(r[-1]/dr+1e-6))+1, nfull)
 	if lmax is None: lmax = int(nfull//2-1)
 	l     = np.arange(lmax+1)
 	rinfo = get_ring_info_radial(np.arange(ncut)*dr)
@@ -546,8 +547,8 @@ def harm2profile(bl, r):
 	alm   = bl * ((2*l+1)/(4*np.pi))**0.5 + 0j
 	br    = np.zeros(bl.shape[:-1]+(r.size,), bl.dtype)
 	for I in utils.nditer(bl.shape[:-1]):
-		ducc0.sht.experimental.synthesis(
-				alm=alm[I][None], map=br[I][None], theta=rinfo.theta, nphi=rinfo.nphi, phi0=rinfo.phi0,
+		br[I] = ducc0.sht.experimental.synthesis(
+				alm=alm[I][None], theta=rinfo.theta, nphi=rinfo.nphi, phi0=rinfo.phi0,
 				ringstart=rinfo.offsets, spin=0, lmax=bl.shape[-1]-1, mmax=0)[0]
 	return br
 
-- 
2.43.0


From 7035f985fa47c94cc96fd9bf06d57fb384e34315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:38 +0000
Subject: [PATCH 047/200] fix: map2alm_healpix failed for adjoint with copy

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 28250b9..570f6cd 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -355,7 +355,7 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weights=None, deriv=False, copy=False, verbose=False, adjoint=False, niter=0, theta_min=None, theta_max=None, nthread=None):
 	"""map2alm for healpix maps. Similar to healpy's map2alm. See the map2alm docstring for details."""
 	if adjoint:
-		if copy and map is not None: map = map.copy()
+		if copy and healmap is not None: healmap = healmap.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
 	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=healmap.shape[:-1], dtype=utils.native_dtype(healmap.dtype))
-- 
2.43.0


From ecd8fa416e26766e96acfa253e45f2063979032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:19 +0000
Subject: [PATCH 048/200] fix: map2alm_healpix failed for iterative and adjoint
 transforms when limiting theta

---
 pixell/curvedsky.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 570f6cd..195c6a9 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -373,10 +373,12 @@ def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weight
 	if weights is None: weights = 4*np.pi/rinfo.npix
 	# Helper for weights multiplication
 	def wmul(map_flat, weights): return map_flat*weights
+	# theta limits can leave part of the map unused, so can't leave it to ducc to allocate it
+	def buf(ncomp): return np.zeros((ncomp,map_full.shape[-1]), utils.real_dtype(alm_full.dtype))
 	# Iterate over all the predimensions
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			def Y(alm):   return ducc0.sht.experimental.synthesis(alm=alm, mode="DERIV1", spin=1, **kwargs)
+			def Y(alm):   return ducc0.sht.experimental.synthesis(alm=alm, map=buf(2), mode="DERIV1", spin=1, **kwargs)
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(wmul(map,weights))
 			def WY(alm):  return wmul(Y(alm),weights)
@@ -387,7 +389,7 @@ def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weight
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
-				def Y(alm):   return ducc0.sht.experimental.synthesis(alm=alm, spin=s, **kwargs)
+				def Y(alm):   return ducc0.sht.experimental.synthesis(alm=alm, map=buf(len(alm)), spin=s, **kwargs)
 				def YT(map):  return ducc0.sht.experimental.adjoint_synthesis(map=map, spin=s, **kwargs)
 				def YTW(map): return YT(wmul(map,weights))
 				def WY(alm):  return wmul(Y(alm),weights)
-- 
2.43.0


From 86779ba5882e5e0223f69e049a263e80143c2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:32 +0000
Subject: [PATCH 049/200] fix: TileMap.with_tiles compares the lists of active
 tiles properly when their lengths differ

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index b126e64..2644d54 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -116,7 +116,7 @@ class TileMap(np.ndarray):
 		should be considerably faster."""
 		try: active = other.geometry.active
 		except AttributeError: active = _parse_active(other, self.ntile)
-		if np.all(active == self.geometry.active):
+		if np.array_equal(active, self.geometry.active):
 			return self.copy()
 		# Construct the new geometry
 		if strict: new_geom = self.geometry.copy(active    =active)
-- 
2.43.0


From aba7dcf2b2bee36a94d37c366c9d9c0a0c552acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:32 +0000
Subject: [PATCH 050/200] fix: negative tile indices in TileMap.tiles and
 active_tiles

---
 pixell/tilemap.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 2644d54..aa011c2 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -155,6 +155,11 @@ class TileView:
 	def __len__(self):
 		if self.active: return len(self.tile_map.geometry.active)
 		else:           return self.tile_map.geometry.ntile
+	def _normalize(self, i):
+		"""Translate negative tile indices, which count from the end, to positive ones"""
+		if not -len(self) <= i < len(self):
+			raise IndexError("Tile index %d is out of bounds for %d tiles" % (i, len(self)))
+		return i + len(self) if i < 0 else i
 	def __getitem__(self, sel):
 		"""Get a single tile or subset of a tile from the TileMap. The first
 		entry in the slice must be an integer - general slicing in the tile axis is not
@@ -171,6 +176,7 @@ class TileView:
 			if len(sel1) == 0: return self.tile_map
 			i      = sel1[0]
 		geo  = self.tile_map.geometry
+		i    = self._normalize(i)
 		if self.active:
 			ai, gi = i, geo.active[i]
 		else:
@@ -195,6 +201,7 @@ class TileView:
 		if len(sel1) == 0: return self.tile_map
 		i    = sel1[0]
 		geo  = self.tile_map.geometry
+		i    = self._normalize(i)
 		if self.active:
 			ai, gi = i, geo.active[i]
 		else:
-- 
2.43.0


From 6486610eee655303f5812668ffb2ba7dbd8553d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:32 +0000
Subject: [PATCH 051/200] fix: tile maps with different wcs are not compatible

---
 pixell/tilemap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index aa011c2..91c4f9e 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -402,6 +402,7 @@ class TileGeometry:
 		0. Not compatible."""
 		if tuple(self.shape[-2:]) != tuple(other.shape[-2:]): return 0
 		if tuple(self.tile_shape) != tuple(other.tile_shape): return 0
+		if not wcsutils.equal(self.wcs, other.wcs): return 0
 		if self.nactive == other.nactive and np.all(self.active == other.active): return 2
 		else: return 1
 
-- 
2.43.0


From b088ccb829103b60753ef0fe5f5dfc8efcbfa157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:32 +0000
Subject: [PATCH 052/200] fix: tilemap.insert returns a map independent of its
 arguments

---
 pixell/tilemap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 91c4f9e..b0666b5 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -290,7 +290,11 @@ def insert(omap, imap, op=lambda a,b:b):
 	* The maps must have the same geometry, only differing by the active tiles.
 	This may be generalized in the future."""
 	binop = make_binop(op)
-	return binop(omap, imap)
+	res   = binop(omap, imap)
+	# op may simply have returned one of its arguments, but the result should be independent
+	# of the inputs
+	if np.may_share_memory(res, omap) or np.may_share_memory(res, imap): res = res.copy()
+	return res
 
 def map_mul(mat, vec):
 	"""Elementwise matrix multiplication mat*vec. Result will have
-- 
2.43.0


From dea4fb04d4fe73b7f15a26c451d2ae5c5c831e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:33 +0000
Subject: [PATCH 053/200] fix: TileGeometry.size is an integer without leading
 axes too

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index b0666b5..7176d65 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -389,7 +389,7 @@ class TileGeometry:
 	@property
 	def nactive(self): return len(self.active)
 	@property
-	def size(self): return np.prod(self.pre)*np.sum(self.npixs[self.active])
+	def size(self): return int(np.prod(self.pre))*np.sum(self.npixs[self.active])
 	@property
 	def tiles(self):
 		"""Allow us to get the enmap geometry of tile #i by writing
-- 
2.43.0


From 2f2cb8f8f5109aec14cf7779c44d6252043e4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:47 +0000
Subject: [PATCH 054/200] fix: tilemap.redistribute with active tiles that are
 not in increasing order

---
 pixell/tilemap.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 7176d65..ea5efba 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -469,11 +469,17 @@ def redistribute(imap, comm, active=None, omap=None):
 	osizes    = omap.geometry.npixs[omap.active] * np.prod(omap.pre).astype(int)
 	ioffs     = utils.cumsum(isizes)
 	ooffs     = utils.cumsum(osizes)
+	# The active lists can be in any order, so exchange the tiles for each task in
+	# order of increasing global tile index to make both sides agree
+	iorder    = np.argsort(imap.active)
+	oorder    = np.argsort(omap.active)
+	isend     = [(rank, iorder[i]) for rank, i in np.argwhere(omask[:,iorder])]
+	orecv     = [(rank, oorder[i]) for rank, i in np.argwhere(imask[:,oorder])]
 	# 4. Build our alltoallv send info
 	iflat     = np.ascontiguousarray(imap.T).reshape(-1)
 	send_sizes= np.sum(omask*isizes,1)
 	send_offs = utils.cumsum(send_sizes)
-	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for rank, iact in np.argwhere(omask)]
+	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for rank, iact in isend]
 	send_buf  = np.concatenate(send_buf, dtype=iflat.dtype) if len(send_buf) > 0 else np.zeros(0, iflat.dtype)
 	# 5. Build the alltoallv receive info
 	recv_sizes= np.sum(imask*osizes,1)
@@ -485,7 +491,7 @@ def redistribute(imap, comm, active=None, omap=None):
 	# 7. Copy and reduce into flattened output tiles
 	oflat     = np.zeros(omap.size, omap.dtype)
 	rbuf_off  = 0
-	for rank, oact in np.argwhere(imask):
+	for rank, oact in orecv:
 		oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] += recv_buf[rbuf_off:rbuf_off+osizes[oact]]
 		rbuf_off += osizes[oact]
 	del recv_buf
-- 
2.43.0


From 9ee681843300643123fd274705a5de415794c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:47 +0000
Subject: [PATCH 055/200] fix: allgatherv along other axes than the first

---
 pixell/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index f6026cb..0de0359 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1436,6 +1436,8 @@ def allgatherv(a, comm, axis=0):
 		fa = fa.view(dtype=np.uint8)
 	#print(comm.rank, "fa.shape", fa.shape)
 	ra = fa.reshape(fa.shape[0],-1) if fa.size > 0 else fa.reshape(0,np.prod(fa.shape[1:],dtype=int))
+	# The communication works on the raw memory, so it must be in the right order
+	ra = np.ascontiguousarray(ra)
 	N  = ra.shape[1]
 	# Number of elements each task has
 	n  = allgather([len(ra)],comm).reshape(-1)
-- 
2.43.0


From 193a4cdc97cb14e0f2a8146e1c3e4baf29e15ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:47 +0000
Subject: [PATCH 056/200] fix: greedy_split with the default cost function

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 0de0359..000b337 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1167,7 +1167,7 @@ def fix_zero_strides(a):
 	oarr = np.lib.stride_tricks.as_strided(a, strides=ostrides)
 	return oarr
 
-def greedy_split(data, n=2, costfun=max, workfun=lambda w,x: x if w is None else x+w):
+def greedy_split(data, n=2, costfun=max, workfun=lambda w,x: 0 if x is None else x+w):
 	"""Given a list of elements data, return indices that would
 	split them it into n subsets such that cost is approximately
 	minimized. costfun specifies which cost to minimize, with
-- 
2.43.0


From 6b5e5c01a70a24166cfaa9cdc71526153b611687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:47 +0000
Subject: [PATCH 057/200] fix: FakeCommunicator Allgatherv and Reduce

---
 pixell/mpiutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/mpiutils.py b/pixell/mpiutils.py
index 5d28516..ffa7857 100644
--- a/pixell/mpiutils.py
+++ b/pixell/mpiutils.py
@@ -9,9 +9,11 @@ class FakeCommunicator:
         self.rank = 0
     def Allreduce(self, sendbuf, recvbuf, op=lambda a,b:a+b):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
+    def Reduce(self, sendbuf, recvbuf, op=lambda a,b:a+b, root=0):
+        _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Allgather(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[0] = _unbuf(sendbuf)
-    def Allgatherv(self, sendbuf, redvbuf):
+    def Allgatherv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Alltoallv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
-- 
2.43.0


From 763dfdc6e640d2b373d676a3e550df3d6ee2fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:47 +0000
Subject: [PATCH 058/200] fix: utils.redistribute with multiple input and
 output boxes per task

---
 pixell/utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 000b337..b87ed85 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1553,15 +1553,18 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 
 	comm.Alltoallv((sendbuf, sbufinfo), (recvbuf,rbufinfo))
 
-	# Copy out the result
+	# Copy out the result. Each task sent us the data for our output boxes in order,
+	# with contributions from each of its input boxes for each of them.
 	off = 0
-	for i1 in range(rboxes.shape[0]):
+	ioffs = cumsum(niarrs, endpoint=True)
+	for rank in range(len(niarrs)):
 		for i2 in range(rboxes.shape[1]):
-			for rbox in rboxes[i1,i2]:
-				rshape = tuple(sbox_size(rbox))
-				data   = recvbuf[off:off+np.prod(rshape)*presize]
-				oarrs[i2][sbox2slice(rbox)] = data.reshape(preshape + rshape)
-				off += data.size
+			for i1 in range(ioffs[rank], ioffs[rank+1]):
+				for rbox in rboxes[i1,i2]:
+					rshape = tuple(sbox_size(rbox))
+					data   = recvbuf[off:off+np.prod(rshape)*presize]
+					oarrs[i2][sbox2slice(rbox)] = data.reshape(preshape + rshape)
+					off += data.size
 	return oarrs
 
 def sbox_intersect(a,b,wrap=0):
-- 
2.43.0


From 5cdeae2353b5b29da25c45ed7067a0d38f1495bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:47 +0000
Subject: [PATCH 059/200] fix: utils.redistribute with wrapping

---
 pixell/utils.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index b87ed85..c1740e5 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1526,7 +1526,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	for i1 in range(rboxes.shape[0]):
 		count = 0
 		for i2 in range(rboxes.shape[1]):
-			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2])
+			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2], wrap=wrap)
 			for box in rboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 		nrecv[nimap[i1]] += count*presize
@@ -1536,11 +1536,13 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	nsend   = np.zeros(len(noarrs), int)
 	sendbuf = []
 	all_oboxes = allgatherv(oboxes, comm)
-	sboxes     = sbox_intersect(all_oboxes, iboxes, wrap=wrap)
+	# Same argument order as for the receive buffer, so that multiple intersections
+	# come in the same order on both sides
+	sboxes     = sbox_intersect(iboxes, all_oboxes, wrap=wrap).T
 	for i1 in range(sboxes.shape[0]):
 		count = 0
 		for i2 in range(sboxes.shape[1]):
-			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2])
+			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2], wrap=wrap)
 			for box in sboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 				sendbuf.append(iarrs[i2][sbox2slice(box)].reshape(-1))
@@ -1637,17 +1639,18 @@ def sbox_div(a,b,wrap=0):
 	"""Find c such that arr[a] = arr[b][c]."""
 	a = sbox_fix(a)
 	b = sbox_fix(b)
+	if np.any(wrap):
+		# Move a by whole wraps so that it starts inside the interval b covers.
+		wrap  = np.asarray(wrap,int)
+		swrap = np.where(wrap==0, 1, wrap)
+		first = np.where(a[...,2]<0, a[...,1]-a[...,2], a[...,0])
+		bmin  = np.where(b[...,2]<0, b[...,1]-b[...,2], b[...,0])
+		a[...,:2] -= ((first-bmin)//swrap*wrap)[...,None]
 	step  = a[...,2]//b[...,2]
 	num   = (a[...,1]-a[...,0])//a[...,2]
 	start = (a[...,0]-b[...,0])//b[...,2]
 	end   = start + step*num
-	res   = np.stack([start,end,step],-1)
-	if wrap:
-		wrap  = np.asarray(wrap,int)[...,None]
-		swrap = wrap.copy()
-		swrap[wrap==0] = 1
-		res[...,:2] -= res[...,0,None]//swrap*wrap
-	return res
+	return np.stack([start,end,step],-1)
 
 def sbox_mul(a,b):
 	"""Find c such that arr[c] = arr[a][b]"""
-- 
2.43.0


From 25fa0a4b9a9b1aed6c512c979438dfefecc39360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:48 +0000
Subject: [PATCH 060/200] fix: distance_from with points that are not at the
 center of a pixel, outside the map or in the same pixel as another

---
 cython/distances_core.c | 51 ++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/cython/distances_core.c b/cython/distances_core.c
index 276a5fc..eca39b4 100644
--- a/cython/distances_core.c
+++ b/cython/distances_core.c
@@ -206,9 +206,12 @@ void distance_from_points_bubble(int ny, int nx, double * posmap, inum npoint, d
 		int y = point_y[i], x = point_x[i];
 		inum pix = (inum)y*nx+x;
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], pix_ra[pix], cos(pix_dec[pix]), sin(pix_dec[pix]));
-		pointvec_push(curr, y, x);
-		dists[y*nx+x]   = dist;
-		domains[y*nx+x] = i;
+		// There may be several points in the same pixel
+		if(dist < dists[(inum)y*nx+x]) {
+			pointvec_push(curr, y, x);
+			dists[(inum)y*nx+x]   = dist;
+			domains[(inum)y*nx+x] = i;
+		}
 	}
 
 	inum it = 0;
@@ -290,9 +293,12 @@ void distance_from_points_bubble_separable(int ny, int nx, double * ypos, double
 	for(inum i = 0; i < npoint; i++) {
 		int y = point_y[i], x = point_x[i];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], xpos[x], pix_cos_dec[y], pix_sin_dec[y]);
-		pointvec_push(curr, y, x);
-		dists[y*nx+x]   = dist;
-		domains[y*nx+x] = i;
+		// There may be several points in the same pixel
+		if(dist < dists[(inum)y*nx+x]) {
+			pointvec_push(curr, y, x);
+			dists[(inum)y*nx+x]   = dist;
+			domains[(inum)y*nx+x] = i;
+		}
 	}
 
 	inum it = 0;
@@ -681,9 +687,16 @@ void distance_from_points_cellgrid(int ny, int nx, double * ypos, double * xpos,
 		int y1 = by*bsize_y, yrel = point_y[i]-y1;
 		int x1 = bx*bsize_x, xrel = point_x[i]-x1;
 		int pixrel = yrel*grid.cells[ci].nx+xrel;
-		pointvec_push(grid.cells[ci].current, yrel, xrel);
-		grid.cells[ci].domains[pixrel] = i;
-		grid.cells[ci].dists[pixrel] = 0;
+		// The point does not need to be in the center of the pixel (or even inside the map),
+		// and there may be several points in the same pixel
+		inum ypix = separable ? point_y[i] : (inum)point_y[i]*nx+point_x[i];
+		inum xpix = separable ? point_x[i] : (inum)point_y[i]*nx+point_x[i];
+		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], xpos[xpix], cos(ypos[ypix]), sin(ypos[ypix]));
+		if(dist < grid.cells[ci].dists[pixrel]) {
+			pointvec_push(grid.cells[ci].current, yrel, xrel);
+			grid.cells[ci].domains[pixrel] = i;
+			grid.cells[ci].dists[pixrel] = dist;
+		}
 	}
 	// Initialize them
 	#pragma omp parallel for
@@ -1032,9 +1045,12 @@ void distance_from_points_bubble_healpix(healpix_info * geo, inum npoint, double
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
-		pointvec_push(curr, y, x);
-		dists[pix]   = dist;
-		domains[pix] = i;
+		// There may be several points in the same pixel
+		if(dist < dists[pix]) {
+			pointvec_push(curr, y, x);
+			dists[pix]   = dist;
+			domains[pix] = i;
+		}
 	}
 
 	inum it = 0;
@@ -1167,10 +1183,13 @@ void distance_from_points_heap_healpix(healpix_info * geo, inum npoint, double *
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
-		HeapEntry entry = { dist, y, x };
-		pointheap_push(heap, entry);
-		dists[pix]   = dist;
-		domains[pix] = i;
+		// There may be several points in the same pixel
+		if(dist < dists[pix]) {
+			HeapEntry entry = { dist, y, x };
+			pointheap_push(heap, entry);
+			dists[pix]   = dist;
+			domains[pix] = i;
+		}
 	}
 
 	inum it = 0;
-- 
2.43.0


From 294a7412cef34efe0eb42a6d054a98aafbe45582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:45 +0000
Subject: [PATCH 061/200] fix: labeled_distance_transform with a supplied
 domain map and rmax

---
 pixell/enmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index bcc76af..c44ce27 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2115,6 +2115,7 @@ def labeled_distance_transform(labels, omap=None, odomains=None, rmax=None, meth
 		# Get the edge_pix to label mapping
 		mapping = labels.preflat[i][edge_pix[0],edge_pix[1]]
 		mask    = domains >= 0
+		odomains.preflat[i] = 0
 		odomains.preflat[i,mask] = mapping[domains[mask]]
 		# Distance is always zero inside each labeled region
 		mask    = labels.preflat[i] != 0
@@ -2218,6 +2219,7 @@ def labeled_distance_transform_healpix(labels, omap=None, odomains=None, rmax=No
 		# Get the edge_pix to label mapping
 		mapping = lflat[i][edge_pix]
 		mask    = domains >= 0
+		odomains[i] = 0
 		odomains[i,mask] = mapping[domains[mask]]
 		# Distance is always zero inside each labeled region
 		mask = lflat[i] != 0
-- 
2.43.0


From 03d848f54bba95cb6f175b0044c45b39e49de186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:45 +0000
Subject: [PATCH 062/200] fix: healpix distance transforms with nothing masked

---
 cython/distances.pyx | 22 ++++++++++++++++++----
 pixell/enmap.py      |  2 +-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/cython/distances.pyx b/cython/distances.pyx
index b648b17..7e4f4e2 100644
--- a/cython/distances.pyx
+++ b/cython/distances.pyx
@@ -382,8 +382,12 @@ def find_edges_healpix(healpix_info info, mask, flat=True):
 	cdef uint8_t[::1] mask_ = mask
 	nedge = c.find_edges_healpix(info.info, &mask_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view  = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
@@ -408,8 +412,12 @@ def find_edges_labeled_healpix(healpix_info info, labels, flat=True):
 	cdef int[::1] labels_ = labels.reshape(-1)
 	nedge = c.find_edges_labeled_healpix(info.info, &labels_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view  = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
@@ -439,6 +447,11 @@ def distance_from_points_healpix(healpix_info info, point_pos, point_pix, rmax=N
 	assert omap.ndim == 1 and omap.size == info.npix and omap.dtype==np.float64, "omap must be [npix] float64"
 	if odomains is None: odomains = np.empty(info.npix, dtype=np.int32)
 	assert odomains.ndim == 1 and odomains.size == info.npix and odomains.dtype==np.int32, "odomains must be [npix] int32"
+	# Handle case where no points are specified
+	if point_pos.size == 0:
+		omap[:]     = np.inf if rmax is None else rmax
+		odomains[:] = -1
+		return (omap, odomains) if domains else omap
 	# Prepare to call C
 	cdef inum npoint = point_pos.shape[1]
 	cdef double      rmax_   = (0 if rmax is None else rmax)
@@ -458,6 +471,7 @@ def unravel_healpix(healpix_info info, pix1d):
 	pix1d = np.asanyarray(pix1d).astype(np.int64, order="C", copy=False)
 	pix2d = np.empty((2,)+pix1d.shape, np.int32)
 	cdef npoint = pix1d.size
+	if npoint == 0: return pix2d
 	cdef inum[::1] pix1d_ = pix1d.reshape(-1)
 	cdef int[::1]  pix2d_ = pix2d.reshape(-1)
 	c.unravel_healpix(info.info, npoint, &pix1d_[0], &pix2d_[0])
diff --git a/pixell/enmap.py b/pixell/enmap.py
index c44ce27..0afbe35 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2196,7 +2196,7 @@ def distance_transform_healpix(mask, omap=None, rmax=None, method="heap"):
 		distances.distance_from_points_healpix(info, edge_pos, edge_pix, omap=omap[i], rmax=rmax, method=method)
 	omap = omap.reshape(mask.shape)
 	# Distance is always zero inside mask
-	omap *= mask
+	omap[mask==0] = 0
 	return omap
 
 def labeled_distance_transform_healpix(labels, omap=None, odomains=None, rmax=None, method="heap"):
-- 
2.43.0


From 7df08247f5d0f3b72aa5d3d0d1ef2c4dff720ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:50 +0000
Subject: [PATCH 063/200] fix: srcsim skipped pixels when objects wrapped
 around maps that aren't a whole number of cells

---
 cython/srcsim_core.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 65af39b..b203202 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -141,7 +141,7 @@ void estimate_bounding_box(
 		float * pix_ras,  //
 		int * box         // {y1,y2,x1,x2} in pixels.
 	);
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox);
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int * cellbox);
 void wrap_box(int * box, int ny, int nx);
 
 typedef struct IntList { int n, cap; int * vals; } IntList;
@@ -369,8 +369,10 @@ int assign_cells(
 		// This means that the sloppy wrapping we do that doesn't know about
 		// the real wrapping length of the sky will not cover any tile more than
 		// once.
-		pixbox2cellbox(pixbox, csize, ncy, ncx, cellboxes+4*oi);
-		wrap_box(cellboxes+4*oi, ncy, ncx);
+		// The wrapping must be done in pixels, since the map isn't necessarily a
+		// whole number of cells long
+		wrap_box(pixbox, ny, nx);
+		pixbox2cellbox(pixbox, csize, ny, nx, cellboxes+4*oi);
 	}
 	// 3. For each cell in each object's cell box, register the object in that cell.
 	for(int oi = 0; oi < nobj; oi++) {
@@ -427,17 +429,23 @@ int assign_cells(
 }
 
 int mod(int a, int b) { int c = a % b; return c < 0 ? c+b : c; }
-int floor_div(int a, int b) { int c = a / b; return c*b > a ? c-1 : c; }
+
+// Convert the half-open pixel range [p1,p2), which must start inside [0,n) and be at most
+// n long, but can wrap past n, to the half-open range of cells it overlaps. If it wraps
+// then the cell range will extend past the number of cells, but never by so much that any
+// cell is covered more than once.
+void pixrange2cellrange(int p1, int p2, int csize, int n, int * c1, int * c2) {
+	int nc = (n+csize-1)/csize;
+	*c1 = p1/csize;
+	*c2 = p2 <= n ? (p2-1)/csize+1 : nc+(p2-n-1)/csize+1;
+	if(*c2 > *c1+nc) *c2 = *c1+nc;
+}
 
 // Convert y1 y2 x1 x2 -> cy1 cy2 cx1 cx2. The ranges are
-// half-open like in python
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox) {
-	// Go from raw pixel bounds to raw cell bounds
-	int cy1 = floor_div(pixbox[0], csize), cy2 = floor_div(pixbox[1]-1, csize)+1;
-	int cx1 = floor_div(pixbox[2], csize), cx2 = floor_div(pixbox[3]-1, csize)+1;
-	// Put into output
-	cellbox[0] = cy1; cellbox[1] = cy2;
-	cellbox[2] = cx1; cellbox[3] = cx2;
+// half-open like in python. The pixbox must have been wrapped with wrap_box
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int * cellbox) {
+	pixrange2cellrange(pixbox[0], pixbox[1], csize, ny, &cellbox[0], &cellbox[1]);
+	pixrange2cellrange(pixbox[2], pixbox[3], csize, nx, &cellbox[2], &cellbox[3]);
 }
 
 // wrap an integer box such that the start point is >= 1, and
-- 
2.43.0


From ff3bd07f7fc756aa746fd08aa453ae4381ddc02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:50 +0000
Subject: [PATCH 064/200] fix: srcsim truncated profiles before they had fallen
 below vmin

---
 cython/srcsim_core.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index b203202..9d9de8e 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -270,7 +270,7 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 		for(int li = prof_levels-2; li > 0; li--) {
 			float vlim = vmax * powf(prof_base, -li);
 			for(; ri > imax && fabsf(prof_vs[i][ri]) < vlim; ri--);
-			prof_info[i*prof_levels+li] = ri;
+			prof_info[i*prof_levels+li] = ri+1;
 		}
 	}
 	return prof_info;
@@ -303,7 +303,9 @@ float * measure_rmax(int nobj, float * amaxs, int * prof_ids, int * prof_ns, flo
 		// this loop could use that to reduce the loop range for the individual objects.
 		int i = prof_info ? prof_info_lookup(prof_info, pid, vrel)-1 : n-1;
 		for(; i > 0 && fabsf(vs[i]) < vrel; i--);
-		rmaxs[oi] = rs[i];
+		// The profile is interpolated, so it doesn't drop below the limit until somewhere before
+		// the next sample
+		rmaxs[oi] = i+1 < n ? rs[i+1] : rs[i];
 		if(rmax > 0) rmaxs[oi] = fminf(rmaxs[oi], rmax);
 	}
 	return rmaxs;
-- 
2.43.0


From 2d487df9c032a1cefdfc9e723c2500be6e4f9e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:50 +0000
Subject: [PATCH 065/200] fix: radial_sum lost all or part of the outermost bin

---
 cython/srcsim_core.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 9d9de8e..1d9d6a7 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -640,7 +640,7 @@ int binary_search(int n, float * rs, float r) {
 int equi_search(int n, float * rs, float r) {
 	int i = (int)(r/rs[1]);
 	if(i < 0) return -1;
-	if(r >= n) return n;
+	if(i >= n) return n;
 	return i;
 }
 
@@ -817,7 +817,7 @@ void radial_sum(
 		double * times    // Time taken in the different steps
 	) {
 	// 1. Figure out how far away we need to consider each object
-	float rmax    = rs[nbin-1];
+	float rmax    = rs[nbin];
 	// 2. Loop over each object
 	double t1     = wall_time();
 	#pragma omp parallel for
@@ -835,7 +835,7 @@ void radial_sum(
 				if(separable) { dec = pix_decs[y];      ra = pix_ras[x];      }
 				else          { dec = pix_decs[y*nx+x]; ra = pix_ras[y*nx+x]; }
 				float r = calc_dist(dec, ra, obj_decs[oi], obj_ras[oi]);
-				int i   = equi ? equi_search(nbin, rs, r) : binary_search(nbin, rs, r);
+				int i   = equi ? equi_search(nbin+1, rs, r) : binary_search(nbin+1, rs, r);
 				if(i < 0 || i >= nbin) continue;
 				for(int ci = 0; ci < ncomp; ci++)
 					bins[oi][ci][i] += imap[ci][y*nx+x];
-- 
2.43.0


From 8593a12bc2cd034e857da9b13380957bd2c0df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:50 +0000
Subject: [PATCH 066/200] fix: srcsim transpose leaked its work buffers

---
 cython/srcsim_core.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 1d9d6a7..34145b4 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -772,7 +772,6 @@ float *** calloc_pppf(int n1, int n2, int n3) {
 
 void free_pppf(float *** a, int n1, int n2) {
 	for(int i1 = 0; i1 < n1; i1++) {
-		a[i1] = calloc(n2, sizeof(float*));
 		for(int i2 = 0; i2 < n2; i2++)
 			free(a[i1][i2]);
 		free(a[i1]);
-- 
2.43.0


From 79160b1909071b02fd4b0a1bc74f9c3170e854a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:50 +0000
Subject: [PATCH 067/200] fix: sim_objects and sim_srcs ignored op and
 pixwin_order

---
 pixell/pointsrcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index c039927..7eca171 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -115,7 +115,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
+	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
@@ -235,8 +235,8 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		assert smul == 1, "method 'c' does not support smul != 1. Use method='python' if you need this"
 		if vmin is None: vmin = np.exp(-0.5*nsigma**2)
 		if   op == np.add or op == np.ndarray.__iadd__ or op == "add": op_ = "add"
-		elif op == np.max or op == "max": op_ = "max"
-		elif op == np.min or op == "min": op_ = "min"
+		elif op == np.max or op == np.maximum or op == "max": op_ = "max"
+		elif op == np.min or op == np.minimum or op == "min": op_ = "min"
 		else: raise ValueError("method 'c' only supports op add, max or min. Use method='python' if you need more")
 		if return_padded: raise ValueError("method 'c' does not support return_padded. Use method=='python' if you need this")
 		ncomp = np.prod(shape[:-2], dtype=int)
@@ -247,7 +247,7 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		amps  = amps.reshape(shape[:-2]+(nobj,))
 		# Handle beam = float, in which case a gaussian beam is made
 		beam  = expand_beam(beam, nsigma, rmax)
-		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op, pixwin=pixwin, pixwin_order=0, separable=separable, cache=cache)
+		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=pixwin_order, separable=separable, cache=cache)
 	elif method == "python":
 		return sim_srcs_python(shape, wcs, srcs, beam, omap=omap, dtype=dtype, nsigma=nsigma, rmax=rmax, smul=smul, return_padded=return_padded, pixwin=pixwin, pixwin_order=pixwin_order, op=op, wrap=wrap, verbose=verbose, cache=cache, separable=separable)
 
-- 
2.43.0


From 739af6e795101d66a35c478502a0b5be4e2377ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:26 +0000
Subject: [PATCH 068/200] fix: sim_srcs_python used interpol arguments that no
 longer exist

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 7eca171..f534511 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -333,7 +333,7 @@ def eval_srcs_loop(posmap, poss, amps, beam, cres, nhit, cell_srcs, dtype=np.flo
 			r      = utils.angdist(pixpos[::-1,None,:,:],srcpos[::-1,:,None,None])
 			bpix   = (r - beam[0,0])/(beam[0,1]-beam[0,0])
 			# Evaluate the beam at these locations
-			bval   = utils.interpol(beam[1], bpix[None], mode="constant", order=1, mask_nan=False) # [nsrc,ry,rx]
+			bval   = utils.interpol(beam[1], bpix[None], border="constant", order=1) # [nsrc,ry,rx]
 			cmodel = srcamp[:,:,None,None]*bval
 			cmodel = op.reduce(cmodel,-3)
 			op(model[:,y1:y2,x1:x2], cmodel, model[:,y1:y2,x1:x2])
-- 
2.43.0


From 9c65582305bb05e7b44addf10d9f5b583517c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:27 +0000
Subject: [PATCH 069/200] fix: srcsim truncated everything when vmin was zero
 and there were many objects

---
 cython/srcsim_core.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 34145b4..576ba5e 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -279,6 +279,8 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 int prof_info_lookup(int * prof_info, int prof, float vrel) {
 	// Calculate what power of our base (e.g. power of ten) we are
 	// away from the profile peak
+	// If there is no lower limit, then the whole profile is relevant
+	if(!(vrel > 0)) return prof_info[prof_levels*prof+prof_levels-1];
 	int ind = (int)ceilf(-logf(vrel)/logf(prof_base));
 	// Cap to [0:nlevel]
 	if(ind < 0) ind = 0;
-- 
2.43.0


From ec084724025e84d549604bde155d95b1e81ba5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:57 +0000
Subject: [PATCH 070/200] fix: srcsim missed pixels of objects outside the map
 or close to the poles

---
 cython/srcsim_core.c | 56 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 576ba5e..2fb2481 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -132,6 +132,7 @@ float calc_grad(int i, int n, int s, float * v);
 
 void calc_pix_shape(int y, int x, int ny, int nx, int separable, float * pix_decs, float * pix_ras, float * ysize, float * xsize);
 void estimate_bounding_box(
+		float obj_dec,    // object declination
 		int   obj_y,      // object pixel coordinates
 		int   obj_x,      //
 		float rmax,       // max relevant radius for object
@@ -367,7 +368,7 @@ int assign_cells(
 	#pragma omp parallel for
 	for(int oi = 0; oi < nobj; oi++) {
 		int pixbox[4];
-		estimate_bounding_box(obj_ys[oi], obj_xs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
+		estimate_bounding_box(obj_decs[oi], obj_ys[oi], obj_xs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
 		// This also handles wrapping such that the start will always be
 		// positive, and the end will be at most start beyond the end.
 		// This means that the sloppy wrapping we do that doesn't know about
@@ -667,12 +668,14 @@ float calc_dist(float dec1, float ra1, float dec2, float ra2) {
 
 float calc_grad(int i, int n, int s, float * v) {
 	float dv, di;
+	// Can't measure the gradient if there's only one element
+	if(n < 2) return 0;
 	// Handle edge cases
 	if     (i <= 0  ) { dv = v[s      ]-v[0      ]; di = 1; }
 	else if(i >= n-1) { dv = v[s*(n-1)]-v[s*(n-2)]; di = 1; }
 	else              { dv = v[s*(i+1)]-v[s*(i-1)]; di = 2; }
 	// Handle angle cut
-	dv = fmod(dv + M_PI, 2*M_PI) - M_PI;
+	dv = remainder(dv, 2*M_PI);
 	return dv/di;
 }
 
@@ -706,7 +709,42 @@ void calc_pix_shape(int y, int x, int ny, int nx, int separable, float * pix_dec
 	else          return calc_pix_shape_general  (y, x, ny, nx, pix_decs, pix_ras, ysize, xsize);
 }
 
+// Convert a distance in pixels to a whole number of pixels that's big enough,
+// and small enough that it can be added to pixel coordinates without overflowing.
+int cap_pix(float v) { return v < 1e8 ? (int)v+1 : 100000000; }
+
+// Index of the first element of the monotonic array v[n] that is on the far side of val
+int monotonic_search(int n, float * v, float val) {
+	int a = 0, b = n, inc = v[n-1] >= v[0];
+	while(a < b) {
+		int c = (a+b)/2;
+		if(inc ? v[c] < val : v[c] > val) a = c+1;
+		else b = c;
+	}
+	return a;
+}
+
+// For cylindrical coordinates the bounding box can be calculated exactly, including for
+// objects outside the map
+void calc_bounding_box_separable(float obj_dec, int obj_x, float rmax, int ny, int nx, float * pix_decs, float * pix_ras, int * box) {
+	// Margin for roundoff
+	float r  = rmax + 1e-6;
+	float d1 = obj_dec - r, d2 = obj_dec + r;
+	int inc  = pix_decs[ny-1] >= pix_decs[0];
+	box[0] = monotonic_search(ny, pix_decs, inc ? d1 : d2)-1;
+	box[1] = monotonic_search(ny, pix_decs, inc ? d2 : d1)+1;
+	if(box[0] <  0) box[0] =  0;
+	if(box[1] > ny) box[1] = ny;
+	float dx = fabsf(calc_grad(obj_x < 0 ? 0 : obj_x >= nx ? nx-1 : obj_x, nx, 1, pix_ras));
+	int   Dx = nx;
+	if(fabsf(obj_dec)+r < M_PI/2 && dx > 0)
+		Dx = cap_pix(asinf(fminf(sinf(r)/cosf(obj_dec),1))/dx);
+	box[2] = obj_x - Dx;
+	box[3] = obj_x + Dx+1;
+}
+
 void estimate_bounding_box(
+		float obj_dec,    // object declination
 		int   obj_y,      // object pixel coordinates
 		int   obj_x,      //
 		float rmax,       // max relevant radius for object
@@ -716,12 +754,16 @@ void estimate_bounding_box(
 		float * pix_ras,  //
 		int * box         // {y1,y2,x1,x2} in pixels.
 	) {
+	if(separable) {
+		calc_bounding_box_separable(obj_dec, obj_x, rmax, ny, nx, pix_decs, pix_ras, box);
+		return;
+	}
 	// 1. Find the height and width of the object's pixel
 	float dy0, dx0;
 	calc_pix_shape(obj_y, obj_x, ny, nx, separable, pix_decs, pix_ras, &dy0, &dx0);
 	// 2. Use this to define a preliminary rectangle
-	int Dy = (int)fabsf(rmax/dy0)+1;
-	int Dx = (int)fabsf(rmax/dx0)+1;
+	int Dy = cap_pix(fabsf(rmax/dy0));
+	int Dx = cap_pix(fabsf(rmax/dx0));
 	// 3. and visit its four corners, measuring the smallest dy
 	//    and dx for all of them
 	float dy = dy0, dx = dx0;
@@ -735,8 +777,8 @@ void estimate_bounding_box(
 	dy = fmaxf(dy, tol);
 	dx = fmaxf(dx, tol);
 	// 4. Use this to define a final rectangle
-	Dy = (int)(rmax/dy)+1;
-	Dx = (int)(rmax/dx)+1;
+	Dy = cap_pix(rmax/dy);
+	Dx = cap_pix(rmax/dx);
 	box[0] = obj_y - Dy;
 	box[1] = obj_y + Dy+1;
 	box[2] = obj_x - Dx;
@@ -825,7 +867,7 @@ void radial_sum(
 	for(int oi = 0; oi < nobj; oi++) {
 		// 3. Figure out which pixels are relevant
 		int pixbox[4];
-		estimate_bounding_box(obj_ys[oi], obj_xs[oi], rmax, ny, nx, separable, pix_decs, pix_ras, pixbox);
+		estimate_bounding_box(obj_decs[oi], obj_ys[oi], obj_xs[oi], rmax, ny, nx, separable, pix_decs, pix_ras, pixbox);
 		wrap_box(pixbox, ny, nx);
 		for(int y_ = pixbox[0]; y_ < pixbox[1]; y_++) {
 			// We only need to handle upper wrapping due to wrap_box
-- 
2.43.0


From e3c18602ba89c03486af24239db82a0f2705757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:16 +0000
Subject: [PATCH 071/200] fix: interpolation with zero borders dropped the rest
 of the stencil after the first outside point

---
 fortran/interpol.F90 | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 92c2da8..f11d143 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -469,8 +469,13 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 		!  D20*W20*W01 D21*W20*W11 D22*W20*W21
 		! So loop through each cell of context
 		if(.not. trans) res  = 0
-		inds = 0
 		cloop: do ci = 1, ncon
+			! Get the indices of this cell of context
+			j = ci-1
+			do i = ndim,1,-1
+				inds(i) = modulo(j, nw)
+				j = j/nw
+			end do
 			! Get the value of this cell of context, taking into
 			! account boundary conditions
 			dind = 0
@@ -504,12 +509,6 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 					idata(dind+1,j) = idata(dind+1,j) + v(j)
 				end do
 			end if
-			! Advance to next cell
-			do i = ndim,1,-1
-				inds(i) = inds(i) + 1
-				if(inds(i) < nw) exit
-				inds(i) = 0
-			end do
 		end do cloop
 		if(.not. trans) odata(si,:) = res
 	end do
@@ -555,8 +554,13 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 		!  D20*W20*W01 D21*W20*W11 D22*W20*W21
 		! So loop through each cell of context
 		if(.not. trans) res  = 0
-		inds = 0
 		cloop: do ci = 1, ncon
+			! Get the indices of this cell of context
+			j = ci-1
+			do i = ndim,1,-1
+				inds(i) = modulo(j, nw)
+				j = j/nw
+			end do
 			! Get the value of this cell of context, taking into
 			! account boundary conditions
 			dind = 0
@@ -599,12 +603,6 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 					end do
 				end do
 			end if
-			! Advance to next cell
-			do i = ndim,1,-1
-				inds(i) = inds(i) + 1
-				if(inds(i) < nw) exit
-				inds(i) = 0
-			end do
 		end do cloop
 		if(.not. trans) odata(si,:,:) = res
 	end do
-- 
2.43.0


From 938b590fc560951226e11693d4bf3710388b6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:16 +0000
Subject: [PATCH 072/200] fix: spline filtering and mirrored interpolation
 crashed or read out of bounds for length-1 axes

---
 fortran/interpol.F90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index f11d143..61c9aba 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -98,6 +98,8 @@ subroutine spline_filter1d(data, dims, axis, order, border, trans)
 
 	ndim   = size(dims)
 	n      = dims(axis+1)
+	! Nothing to filter along a length-1 axis
+	if(n < 2) return
 	nblock = product(dims(1:axis))
 	noff   = product(dims(axis+2:ndim))
 
@@ -409,7 +411,7 @@ pure function map_border(border, n, i) result(v)
 			case(2) ! cyclic
 				v = modulo(i, n)
 			case(3) ! mirrored
-				v = modulo(i, 2*n-2)
+				v = modulo(i, max(1,2*n-2))
 				if(v >= n) v = 2*n-2-v
 			case default
 				v = -1
-- 
2.43.0


From 467a1afc4a712f20ac64cf41f26d2f2e79820784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:16 +0000
Subject: [PATCH 073/200] fix: spline interpolation did not accept the reflect
 border

---
 pixell/interpol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index d6aaaf9..21e11d8 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -107,7 +107,7 @@ def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
 	to turn off the internal filtering."""
 	data = np.array(data)
 	core = get_core(data.dtype)
-	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3}[border]
+	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3, "reflect":3}[border]
 	if ndim is None: ndim = data.ndim
 	for axis in range(data.ndim-ndim,data.ndim)[::-1 if trans else 1]:
 		core.spline_filter1d(data.reshape(-1), data.shape, axis, order, iborder, trans)
-- 
2.43.0


From 0a36644a44e73ed23728b7b97ced381fce90a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:16 +0000
Subject: [PATCH 074/200] fix: derivatives of interpolation, and their
 transpose, were wrong

---
 fortran/interpol.F90 | 45 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 61c9aba..d813eeb 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -24,7 +24,7 @@ pure function dsinc(x)
 	real(_), parameter :: cut = 1e-4, pi = 3.14159265358979323846d0
 	y = abs(pi*x)
 	if(y < cut) then
-		dsinc = -sin(y)/2
+		dsinc = -pi*y/3
 	else
 		dsinc = cos(y)/x - sin(y)/(x*y)
 	end if
@@ -374,17 +374,16 @@ pure subroutine calc_weights_deriv(type, order, p, weights, off)
 							if    (x < 0.5) then; weights(j,i) = -2*x
 							elseif(x < 1.5) then; weights(j,i) = -(1.5-x); end if
 						case(3)
-							if    (x < 1.0) then; weights(j,i) = x**2 - x*2/3
+							if    (x < 1.0) then; weights(j,i) = x**2*3/2 - x*2
 							elseif(x < 2.0) then; weights(j,i) = -(2-x)**2/2; end if
 						case(4)
 							if    (x < 0.5) then; weights(j,i) = 2*x * (x**2 * 0.25-0.625d0) + x**2 * 2*x * 0.25
 							elseif(x < 1.5) then; weights(j,i) = x**2*5/2 - x**3*2/3  - 2*x*1.25 + 5d0/24
 							elseif(x < 2.5) then; weights(j,i) = (x-2.5)**3/6; end if
 						case(5)
-							! Not computed yet
-							!if    (x < 1.0) then; weights(j,i) = x**2*(x**2*(0.25d0-x/12)-0.5d0)+0.55d0
-							!elseif(x < 2.0) then; weights(j,i) = x*(x*(x*(x*(x/24-0.375d0)+1.25d0)-1.75d0)+0.625d0)+0.425d0
-							!elseif(x < 3.0) then; weights(j,i) = (3-x)**5/120d0; end if
+							if    (x < 1.0) then; weights(j,i) = x*(x**2*(1-x*5/12)-1)
+							elseif(x < 2.0) then; weights(j,i) = x*(x*(x*(x*5/24-1.5d0)+3.75d0)-3.5d0)+0.625d0
+							elseif(x < 3.0) then; weights(j,i) = -(3-x)**4/24; end if
 					end select
 				case(2) ! lanczos
 					if(order == 0) then
@@ -576,32 +575,26 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 				dind = dind * n + xi
 			end do
 			if(.not. trans) then
-				! Standard interpolation
-				v = idata(dind+1,:)
-				! Now multiply this value by all the relevant weights, one
-				! for each dimension
+				! Standard interpolation. Deriv of v1 v2 v3 ... = dv1 v2 v3 ... + v1 dv2 v3 ... + ...
 				do i = 1, ndim
-					v = v * weights(inds(i)+1,i)
-				end do
-				! Deriv of v1 v2 v3 ... = (dv1/v1 + dv2/v2 + ...)*v1*v2*v3 ...
-				do j = 1, npre
-					if(v(j) == 0) cycle
-					do i = 1, ndim
-						res(j,i) = res(j,i) + v(j) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
+					v = idata(dind+1,:)
+					do j = 1, ndim
+						if(j == i) then; v = v * dweights(inds(j)+1,j)
+						else;            v = v * weights(inds(j)+1,j); end if
 					end do
+					res(:,i) = res(:,i) + v
 				end do
 			else
 				! Transposed interpolation
-				res = odata(si,:,:)
 				do i = 1, ndim
-					res(i,:) = res(i,:) * weights(inds(i)+1,i)
-				end do
-				do j = 1, npre
-					do i = 1, ndim
-						if(weights(j,i) .ne. 0) then
-							!$omp atomic
-							idata(dind+1,j) = idata(dind+1,j) + res(j,i) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
-						end if
+					v = odata(si,:,i)
+					do j = 1, ndim
+						if(j == i) then; v = v * dweights(inds(j)+1,j)
+						else;            v = v * weights(inds(j)+1,j); end if
+					end do
+					do j = 1, npre
+						!$omp atomic
+						idata(dind+1,j) = idata(dind+1,j) + v(j)
 					end do
 				end do
 			end if
-- 
2.43.0


From 11d10cd020fb24d4136ef3396e3d46e4a5f2d65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:02 +0000
Subject: [PATCH 075/200] fix: wrapped interpolation had a period one sample
 too short

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index c1740e5..4ebf76d 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -604,7 +604,8 @@ class SplineInterpolator:
 		self.mode, self.order = _ip_get_mode(mode, order)
 		self.npre = npre % arr.ndim
 		self.cval = cval
-		self.border = border
+		# scipy's "wrap" mode has a period one too short. "grid-wrap" is the periodic one.
+		self.border = "grid-wrap" if border == "wrap" else border
 		if self.mode != "spline": raise ValueError("Unrecognized spline interpolation mode '%s'" % str(mode))
 		arr = np.asanyarray(arr)
 		if self.order > 1:
-- 
2.43.0


From cd414e1e1d93b3b91f49dde5e218831deed7c189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:02 +0000
Subject: [PATCH 076/200] fix: make_equispaced used interpol arguments that no
 longer exist

---
 pixell/resample.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index c7dda20..5a3e177 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -135,5 +135,10 @@ def make_equispaced(d, t, quantile=0.1, order=3, mask_nan=False):
 	# To interpolate, we need the input sample number as a function of time
 	samples = np.interp(tout, t, np.arange(len(t)))
 	# Now that we have the samples we can finally evaluate the function
-	dout = utils.interpol(d, samples[None], mode="nearest", order=order, mask_nan=mask_nan)
+	if mask_nan:
+		bad  = ~np.isfinite(d)
+		d    = np.where(bad, 0, d)
+	dout = utils.interpol(d, samples[None], border="nearest", order=order)
+	if mask_nan:
+		dout[utils.interpol(bad.astype(np.int32), samples[None], mode="nearest", border="nearest")!=0] = np.nan
 	return dout, tout
-- 
2.43.0


From 002e58baeee362c70654bdd371625c9b04aa0575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:02 +0000
Subject: [PATCH 077/200] fix: interpol.build only worked for some output
 sizes, and reported the wrong output range

---
 pixell/interpol.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index 21e11d8..1397fb8 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -149,7 +149,7 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 		depth += 1
 		if maxsize and np.prod(n) > maxsize:
 			if return_status:
-				return ip if not return_obox else ip, np.array(obox), False, err
+				return (ip, False, err) if not return_obox else (ip, np.array(obox), False, err)
 			raise OverflowError("Maximum refinement mesh size exceeded")
 		nok = 0
 		# Consider accuracy for each input parameter by tentatively doubling
@@ -159,7 +159,7 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 			if any(errs[i] > errlim):
 				if maxtime and time.time() - t0 > maxtime:
 					if return_status:
-						return ip if not return_obox else ip, np.array(obox), False, err
+						return (ip, False, err) if not return_obox else (ip, np.array(obox), False, err)
 					raise OverflowError("Maximum refinement time exceeded")
 				# Grid may not be good enough in this direction.
 				# Try doubling resolution
@@ -172,10 +172,6 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 				if np.any(np.isnan(ytrue)):
 					raise ValueError("Function to interpolate returned invalid value")
 				err = np.max(np.abs((ytrue-yinter).reshape(ytrue.shape[0],-1)), 1)
-				# Find the worst failure:
-				ytrue_flat = ytrue.reshape(4,-1)
-				yinter_flat= yinter.reshape(4,-1)
-				badi = np.argmax(np.abs((ytrue_flat[2]-yinter_flat[2])))
 				if verbose: print(x.shape, x.size, err/errlim)
 				if any(err > errlim):
 					# Not good enough, so accept improvement
@@ -185,7 +181,7 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 				errs[i] = err
 				# update output box
 				obox[0] = np.minimum(obox[0], np.min(ytrue.reshape(ytrue.shape[0],-1),1))
-				obox[1] = np.maximum(obox[0], np.max(ytrue.reshape(ytrue.shape[0],-1),1))
+				obox[1] = np.maximum(obox[1], np.max(ytrue.reshape(ytrue.shape[0],-1),1))
 			else: nok += 1
 		if nok >= idim: break
 	res = (ip,)
-- 
2.43.0


From 7856b9e1446448eda352b5e1d236e1d64d8adafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:02 +0000
Subject: [PATCH 078/200] fix: ndmap.at ignored cval

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0afbe35..690a244 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -104,7 +104,7 @@ class ndmap(np.ndarray):
 	def extract_pixbox(self, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None, reverse=False): return extract_pixbox(self, pixbox, omap=omap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=reverse)
 	def insert(self, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert(self, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
 	def insert_at(self, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert_at(self, pix, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
-	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=0, unit=unit, safe=safe, ip=ip)
+	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=cval, unit=unit, safe=safe, ip=ip)
 	def argmax(self, unit="coord"): return argmax(self, unit=unit)
 	def autocrop(self, method="plain", value="auto", margin=0, factors=None, return_info=False): return autocrop(self, method, value, margin, factors, return_info)
 	def apod(self, width, profile="cos", fill="zero"): return apod(self, width, profile=profile, fill=fill)
-- 
2.43.0


From 093543b1ff301ee7cd726be394a1ee70c52bceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:02 +0000
Subject: [PATCH 079/200] fix: project ignored the output shape when the wcs
 was unchanged, and the border and cval vertically

---
 pixell/enmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 690a244..33f7cf4 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -608,7 +608,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	  one go, ignoring bsize"""
 	# Skip expensive operation if map is compatible
 	if not force:
-		if wcsutils.equal(map.wcs, wcs) and tuple(shape[-2:]) == tuple(shape[-2:]):
+		if wcsutils.equal(map.wcs, wcs) and tuple(map.shape[-2:]) == tuple(shape[-2:]):
 			return map.copy()
 		elif wcsutils.is_compatible(map.wcs, wcs) and border == "constant":
 			return extract(map, shape, wcs, cval=cval)
@@ -624,14 +624,14 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 		i2     = min(i1+bsize, shape[-2])
 		somap  = omap[...,i1:i2,:]
 		pix    = map.sky2pix(somap.posmap(), safe=safe)
-		if ip:
-			# Can't subdivide interpolator
+		if ip or border != "constant":
+			# Can't subdivide interpolator, and other borders need the real edges of the map
 			band = map
 		else:
 			y1     = np.min(pix[0]).astype(int)-context
 			y2     = np.max(pix[0]).astype(int)+context+1
 			pix[0]-= y1
-			band   = map.extract_pixbox([[y1,0],[y2,map.shape[-1]]])
+			band   = extract_pixbox(map, [[y1,0],[y2,map.shape[-1]]], cval=cval)
 			# Apodize if necessary
 			if context > 1:
 				band = apod(band, width=(context,0), fill="crossfade")
-- 
2.43.0


From f9c1a5ceb92f66758e5895c0dc4e2178bdf48496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:43 +0000
Subject: [PATCH 080/200] fix: lens_map_flat always failed

---
 pixell/lensing.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 9145a85..c7661f2 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -68,11 +68,8 @@ def displace_map(imap, pix, order=3, mode="spline", border="cyclic", trans=False
 # its gradient as an argument.
 def lens_map_flat(cmb_map, phi_map):
 	raw_pix  = cmb_map.pixmap() + enmap.grad_pix(phi_map)
-	# And extract the interpolated values. Because of a bug in map_pixels with
-	# mode="wrap", we must handle wrapping ourselves.
-	npad = int(np.ceil(max(np.max(-raw_pix),np.max(raw_pix-np.array(cmb_map.shape[-2:])[:,None,None]))))
-	pmap = enmap.pad(cmb_map, npad, wrap=True)
-	return enmap.samewcs(utils.interpol(pmap, raw_pix+npad, order=4, mode="wrap"), cmb_map)
+	# And extract the interpolated values
+	return enmap.samewcs(utils.interpol(cmb_map, raw_pix, order=4, border="wrap"), cmb_map)
 
 ######## Curved sky lensing ########
 
-- 
2.43.0


From 5c719aabea7d4bce41f9ae713327705374c79b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:43 +0000
Subject: [PATCH 081/200] fix: lens_map_curved failed for blocks of a single
 row

---
 pixell/lensing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index c7661f2..c78865b 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -187,10 +187,10 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 	if len(oshape) == 2: shape = (1,)+tuple(shape)
 	if delta_theta is None: bsize = shape[-2]
 	else:
-		bsize = utils.nint(abs(delta_theta/utils.degree/wcs.wcs.cdelt[1]))
+		bsize = max(utils.nint(abs(delta_theta/utils.degree/wcs.wcs.cdelt[1])),1)
 		# Adjust bsize so we don't get any tiny blocks at the end
 		nblock= shape[-2]//bsize
-		bsize = int(shape[-2]/(nblock+0.5))
+		bsize = max(int(shape[-2]/(nblock+0.5)),1)
 	# Allocate output maps
 	if "p" in output: phi_map   = enmap.empty(shape[-2:], wcs, dtype=dtype)
 	if "k" in output:
-- 
2.43.0


From 79bf9f23f598766fe5bfe4946223f337b9d62d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:43 +0000
Subject: [PATCH 082/200] fix: lens_map_curved returned an uninitialized
 unlensed map if the lensed map was not asked for too

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index c78865b..69e914d 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -213,15 +213,15 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		if "a" in output: grad = grad_map[...,i1:i2,:]
 		else: grad = enmap.zeros((2,)+lshape[-2:], lwcs, dtype=dtype)
 		curvedsky.alm2map(phi_alm, grad, deriv=True)
+		if "u" in output:
+			if verbose: print("Computing unlensed map")
+			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
 		if "l" not in output: continue
 		if verbose: print("Computing observed coordinates")
 		obs_pos = enmap.posmap(lshape, lwcs)
 		if verbose: print("Computing alpha map")
 		raw_pos = enmap.samewcs(offset_by_grad(obs_pos, grad, pol=shape[-3]>1, geodesic=geodesic), obs_pos)
 		del obs_pos, grad
-		if "u" in output:
-			if verbose: print("Computing unlensed map")
-			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
 		if verbose: print("Computing lensed map")
 		cmb_obs[...,i1:i2,:] = curvedsky.alm2map_pos(cmb_alm, raw_pos[:2], spin=spin)
 		if raw_pos.shape[0] > 2 and np.any(raw_pos[2]):
-- 
2.43.0


From f477d0de41a681ab419b31950c6a56aed989097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:43 +0000
Subject: [PATCH 083/200] fix: lens_map_curved ignored phi_ainfo when
 evaluating the lensing potential

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 69e914d..ae8ac59 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -197,7 +197,7 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		kappa_map = enmap.empty(shape[-2:], wcs, dtype=dtype)
 		kappa_alm = phi_to_kappa(phi_alm,phi_ainfo=phi_ainfo)
 		for i1 in range(0, shape[-2], bsize):
-			curvedsky.alm2map(kappa_alm, kappa_map[...,i1:i1+bsize,:])
+			curvedsky.alm2map(kappa_alm, kappa_map[...,i1:i1+bsize,:], ainfo=phi_ainfo)
 		del kappa_alm
 	if "a" in output: grad_map  = enmap.empty((2,)+shape[-2:], wcs, dtype=dtype)
 	if "u" in output: cmb_raw   = enmap.empty(shape, wcs, dtype=dtype)
@@ -208,11 +208,11 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		lshape, lwcs = enmap.slice_geometry(shape, wcs, (slice(i1,i2),slice(None)))
 		if "p" in output:
 			if verbose: print("Computing phi map")
-			curvedsky.alm2map(phi_alm, phi_map[...,i1:i2,:])
+			curvedsky.alm2map(phi_alm, phi_map[...,i1:i2,:], ainfo=phi_ainfo)
 		if verbose: print("Computing grad map")
 		if "a" in output: grad = grad_map[...,i1:i2,:]
 		else: grad = enmap.zeros((2,)+lshape[-2:], lwcs, dtype=dtype)
-		curvedsky.alm2map(phi_alm, grad, deriv=True)
+		curvedsky.alm2map(phi_alm, grad, deriv=True, ainfo=phi_ainfo)
 		if "u" in output:
 			if verbose: print("Computing unlensed map")
 			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
-- 
2.43.0


From 528f0ac77f3cd74f5b5f81e5d3f0d646f043b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:43 +0000
Subject: [PATCH 084/200] fix: lensing.rand_alm with phi_seed left the highest
 m=0 mode complex, and needed ncomp

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index ae8ac59..1239725 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -251,13 +251,13 @@ def rand_alm(ps_lensinput, lmax=None, dtype=np.float64, seed=None, phi_seed=None
 	else:
 		# We want separate seeds for cmb and phi. This means we have to do things a bit more manually
 		wps, ainfo = curvedsky.prepare_ps(ps_lensinput, lmax=lmax)
-		alm = np.empty([1+ncomp,ainfo.nelem],ctype)
+		alm = np.empty([len(wps),ainfo.nelem],ctype)
 		curvedsky.rand_alm_white(ainfo, alm=alm[:1], seed=phi_seed)
 		curvedsky.rand_alm_white(ainfo, alm=alm[1:], seed=seed)
 		ps12 = enmap.multi_pow(wps, 0.5)
 		ainfo.lmul(alm, (ps12/2**0.5).astype(dtype), alm)
-		alm[:,:ainfo.lmax].imag  = 0
-		alm[:,:ainfo.lmax].real *= 2**0.5
+		alm[:,:ainfo.lmax+1].imag  = 0
+		alm[:,:ainfo.lmax+1].real *= 2**0.5
 		del wps, ps12
 		
 	# Return phi_alm and cmb_alm
-- 
2.43.0


From fbc80ba4dbf5561a006199099295458a35f1dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:24 +0000
Subject: [PATCH 085/200] fix: offset_by_grad could return nan for positions at
 or next to a pole

---
 pixell/lensing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 1239725..58ebfc5 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -336,9 +336,12 @@ def offset_by_grad_helper(ipos, grad, pol):
 	# trigonometry
 	cosd, sind = np.cos(d), np.sin(d)
 	cost, sint = np.cos(ipos[0]), np.sin(ipos[0])
-	ocost  = cosd*cost-sind*sint*grad[0]
+	# Rounding can take us slightly outside the valid range, and the
+	# longitude is arbitrary if we end up exactly at a pole
+	ocost  = np.clip(cosd*cost-sind*sint*grad[0],-1,1)
 	osint  = (1-ocost**2)**0.5
-	ophi   = ipos[1] + np.arcsin(sind*grad[1]/osint)
+	sinphi = np.divide(sind*grad[1], osint, out=np.zeros_like(osint), where=osint!=0)
+	ophi   = ipos[1] + np.arcsin(np.clip(sinphi,-1,1))
 	if not pol:
 		return np.array([np.arccos(ocost), ophi]), None
 	# Compute the induced polarization rotation.
-- 
2.43.0


From aa141c7aabd647046d661534e62be8fe540042e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:24 +0000
Subject: [PATCH 086/200] fix: lensing.rand_map added an extra axis for
 two-dimensional shapes

---
 pixell/lensing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 58ebfc5..d753621 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -266,9 +266,7 @@ def rand_alm(ps_lensinput, lmax=None, dtype=np.float64, seed=None, phi_seed=None
 
 def rand_map(shape, wcs, ps_lensinput, lmax=None, maplmax=None, dtype=np.float64, seed=None, phi_seed=None, spin=[0,2], output="l", geodesic=True, verbose=False, delta_theta=None):
 	# Restrict to target number of components
-	oshape  = shape[-3:]
-	if len(oshape) == 2: shape = (1,)+tuple(shape)
-	ncomp   = shape[-3]
+	ncomp   = shape[-3] if len(shape) > 2 else 1
 	phi_alm, cmb_alm, ainfo = rand_alm(ps_lensinput=ps_lensinput,
 		lmax=lmax, dtype=dtype, seed=seed, phi_seed=phi_seed, verbose=verbose, ncomp=ncomp)
 
-- 
2.43.0


From 779eea0687dc5ecf32bc99eb552ecdc9958e8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:41 +0000
Subject: [PATCH 087/200] fix: offset_by_grad rotated the polarization at the
 pole without any offset

---
 pixell/lensing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index d753621..6cea733 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -327,7 +327,8 @@ def offset_by_grad_helper(ipos, grad, pol):
 	# Decompose grad into direction and length.
 	# Fix zero-length gradients first, to avoid
 	# division by zero.
-	grad[:,np.all(grad==0,0)] = 1e-20
+	zero = np.all(grad==0,0)
+	grad[:,zero] = 1e-20
 	d = np.sum(grad**2,0)**0.5
 	grad  /=d
 	# Perform the position offset using spherical
@@ -351,6 +352,8 @@ def offset_by_grad_helper(ipos, grad, pol):
 	denom  = 1+A**2
 	cosgam = 2*nom1**2/denom-1
 	singam = 2*nom1*(grad[1]-grad[0]*A)/denom
+	# Without an offset there is no rotation, not even at the poles
+	cosgam[zero], singam[zero] = 1, 0
 	res = np.array([np.arccos(ocost), ophi]), np.array([cosgam,singam])
 	return res
 
-- 
2.43.0


From 760e891e8d3d67645d5410a65a5625bb30239a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:40 +0000
Subject: [PATCH 088/200] fix: resample_fft also shifted what was already
 present in the output map

---
 pixell/enmap.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 33f7cf4..aac5c1c 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3191,14 +3191,19 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	def transfer(dest, source, norm, op):
 		if norm != 1: source = source*norm
 		dest[:] = op(dest, source)
-	transfer(fomap[...,:hny,:hnx],fimap[...,:hny,:hnx], norm, op)
-	transfer(fomap[...,:hny,onx:],fimap[...,:hny,inx:], norm, op)
-	transfer(fomap[...,ony:,:hnx],fimap[...,iny:,:hnx], norm, op)
-	transfer(fomap[...,ony:,onx:],fimap[...,iny:,inx:], norm, op)
+	def transfer_all(fomap, fimap, iny, inx, norm, op):
+		transfer(fomap[...,:hny,:hnx],fimap[...,:hny,:hnx], norm, op)
+		transfer(fomap[...,:hny,onx:],fimap[...,:hny,inx:], norm, op)
+		transfer(fomap[...,ony:,:hnx],fimap[...,iny:,:hnx], norm, op)
+		transfer(fomap[...,ony:,onx:],fimap[...,iny:,inx:], norm, op)
 	if np.any(off != 0):
-		# It's fastest to do this here when downsampling, but when upsampling
-		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
-		fomap[:] = enfft.shift(fomap, off, axes=(-2,-1), nofft=True)
+		# Shift a copy, so that only what we transfer is affected, not what's already in fomap
+		tmp = zeros(oshape, fomap.wcs, fomap.dtype)
+		transfer_all(tmp, fimap, iny, inx, norm, lambda a,b:b)
+		tmp = enfft.shift(tmp, off, axes=(-2,-1), nofft=True)
+		transfer_all(fomap, tmp, ony, onx, 1, op)
+	else:
+		transfer_all(fomap, fimap, iny, inx, norm, op)
 	return fomap
 
 def spin_helper(spin, n):
-- 
2.43.0


From dca38e3c446ae4d6a95cae7cb2dc50c7b6fa36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:40 +0000
Subject: [PATCH 089/200] fix: the flat-sky wavelet filters were evaluated for
 phase shifted multipoles

---
 pixell/wavelets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 1c954f2..054d815 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -385,7 +385,8 @@ class WaveletTransform:
 		"""Get the multipole indices for wavelet scale i. This will be an enmap
 		in if the uht is flat, otherwise it's a 1d array"""
 		if self.uht.mode == "flat":
-			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=True)
+			# corner=False because these are just numbers, and shouldn't be phase shifted
+			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=False)
 		else:
 			return self.uht.l
 	def get_variance_transform(self):
-- 
2.43.0


From 4460b748fa8497188285bcad04c20153d6b493e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:40 +0000
Subject: [PATCH 090/200] fix: WaveletTransform.wcs was the shape

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 054d815..4890fcf 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -299,7 +299,7 @@ class WaveletTransform:
 	@property
 	def shape(self): return self.uht.shape
 	@property
-	def wcs(self): return self.uht.shape
+	def wcs(self): return self.uht.wcs
 	@property
 	def geometry(self): return self.shape, self.wcs
 	@property
-- 
2.43.0


From a4635938135572191e8c3f6f6c007502a4f6c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:40 +0000
Subject: [PATCH 091/200] fix: flat-sky map2wave ignored the value of
 fill_value

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 4890fcf..5a46ff0 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -338,7 +338,7 @@ class WaveletTransform:
 					owave.maps[i] = enmap.ifft(fsmall, normalize=False).real
 				else:
 					owave.maps[i] = enmap.zeros(shape,wcs)
-					if fill_value is not None: owave.maps[i][:] = np.nan
+					if fill_value is not None: owave.maps[i][:] = fill_value
 					
 		else:
 			ainfo = curvedsky.alm_info(lmax=self.basis.lmax)
-- 
2.43.0


From 83419d2bf4a3c7c1c781d67eeae7bcebff3b9761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:08 +0000
Subject: [PATCH 092/200] fix: the wavelet bases failed when lmax is less than
 one step above lmin

---
 pixell/wavelets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 5a46ff0..2a56395 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -39,7 +39,7 @@ class Butterworth:
 	def kernel(self, i, l):
 		return 1/(1 + (l/(self.lmin*self.step**(i+0.5)))**(self.shape/np.log(self.step)))
 	def _finalize(self):
-		self.n        = int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step))
+		self.n        = max(1,int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step)))
 		# 1+(l/(lmin*(step**(i+0.5))))**a = 1/tol =>
 		# l = (1/tol-1)**(1/a) * lmin*(step**(i+0.5))
 		self.lmaxs    = np.round(self.lmin * (1/self.tol-1)**(np.log(self.step)/self.shape) * self.step**(np.arange(self.n)+0.5)).astype(int)
@@ -68,7 +68,7 @@ class ButterTrim:
 	def kernel(self, i, l):
 		return trim_kernel(1/(1 + (l/(self.lmin*self.step**(i+0.5)))**(self.shape/np.log(self.step))), self.trim)
 	def _finalize(self):
-		self.n        = int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step))
+		self.n        = max(1,int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step)))
 		# 1/(1+(l/(lmin*(step**(i+0.5))))**a)*(1+2*trim)-trim = 0
 		# => l = ((1+2*trim)/trim-1)**(1/a) * (lmin*(step**(i+0.5)))
 		self.lmaxs    = np.ceil(self.lmin * ((1+2*self.trim)/self.trim-1)**(np.log(self.step)/self.shape) * self.step**(np.arange(self.n)+0.5)).astype(int)
@@ -95,7 +95,7 @@ class DigitalButterTrim:
 	def kernel(self, i, l):
 		return trim_kernel(1/(1 + (l/(self.lmin*self.step**(i+0.5)))**(self.shape/np.log(self.step))), self.trim)
 	def _finalize(self):
-		self.n     = int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step))
+		self.n     = max(1,int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step)))
 		# 1/(1+(l/(lmin*(step**(i+0.5))))**a)*(1+2*trim)-trim = 0
 		# => l = ((1+2*trim)/trim-1)**(1/a) * (lmin*(step**(i+0.5)))
 		self.lmaxs = np.ceil(self.lmin * ((1+2*self.trim)/self.trim-1)**(np.log(self.step)/self.shape) * self.step**(np.arange(self.n)+0.5)).astype(int)
-- 
2.43.0


From 42f9fb5e86b5285a6ab7061fa3e1178265ca0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:08 +0000
Subject: [PATCH 093/200] fix: the last CosineNeedlet was zero at its own peak

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 2a56395..bf4d436 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -147,7 +147,7 @@ class CosineNeedlet:
 		out = l*0.
 		if i>0:
 			lpeakim1 = self.lpeaks[i-1]
-			sel1 = np.logical_and(l>=lpeakim1,l<lpeaki)
+			sel1 = np.logical_and(l>=lpeakim1,l<=lpeaki)
 			out[sel1] = np.cos(np.pi*(lpeaki-l[sel1])/(lpeaki-lpeakim1)/2.)
 		if i<(self.n-1):
 			lpeakip1 = self.lpeaks[i+1]
-- 
2.43.0


From 31f61fa8bc5cf0453e216c9175380d9a24ba8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:40 +0000
Subject: [PATCH 094/200] fix: WaveletTransform failed if ores was given

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index bf4d436..12d29e4 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -285,7 +285,7 @@ class WaveletTransform:
 			if ores is None:
 				oress = np.maximum(np.pi/self.basis.lmaxs, ires)
 			else:
-				oress = np.zeros(self.nlevel)+ores
+				oress = np.zeros(self.basis.n)+ores
 			# Build the geometries for each wavelet scale
 			if uht.mode == "flat":
 				self.geometries = [make_wavelet_geometry_flat(uht.shape, uht.wcs, ires, ores) for ores in oress[:-1]] + [(uht.shape, uht.wcs)]
-- 
2.43.0


From 1c632423907567a323e864364633dcfcedae201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 095/200] fix: negative indices into ndmaps.maps selected the
 wrong pixels

---
 pixell/multimap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index b7002bb..13edba7 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -53,12 +53,12 @@ class _map_view:
 	def __getitem__(self, sel):
 		sel1, sel2 = utils.split_slice(sel, [1,self.multimap.ndim+2-1])
 		if len(sel1) == 0: return self.multimap
-		i    = sel1[0]
+		i    = range(self.multimap.nmap)[sel1[0]]
 		return enmap.ndmap(self.multimap[...,self.offs[i]:self.offs[i+1]].reshape(self.multimap.pre + self.multimap.geometries[i].shape[-2:]), self.multimap.geometries[i].wcs)[sel2]
 	def __setitem__(self, sel, val):
 		sel1, sel2 = utils.split_slice(sel, [1,self.multimap.ndim+2-1])
 		if len(sel1) == 0: return self.multimap
-		i    = sel1[0]
+		i    = range(self.multimap.nmap)[sel1[0]]
 		# This assumes that the slicing and reshaping won't cause copies. This should be the case if
 		# self.multimap is contiguous. To be robust I should detect if a copy would be made, and fall back
 		# on something slower in that case
-- 
2.43.0


From 139748564f9e7e52d142531f3082a45d39ed59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 096/200] fix: multimap pixmap, lmap and modlmap failed, and
 posmap and modrmap ignored arguments

---
 pixell/multimap.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 13edba7..c82933e 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -37,11 +37,11 @@ class ndmaps(np.ndarray):
 	@property
 	def maps(self):
 		return _map_view(self)
-	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, corner=corner, separable=separable, dtype=dtype)
+	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, safe=safe, corner=corner, separable=separable, dtype=dtype)
 	def pixmap(self, dtype=np.float64): return pixmap(self.geometries, dtype=dtype)
 	def pixsize(self, dtype=np.float64): return pixsize(self.geometries, dtype=dtype)
 	def lmap(self, oversample=1, dtype=np.float64): return lmap(self.geometries, oversample=oversample, dtype=dtype)
-	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample)
+	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample, dtype=dtype)
 	def modrmap(self, ref="center", safe=True, corner=False, dtype=np.float64): return modrmap(self.geometries, ref=ref, safe=safe, corner=corner, dtype=dtype)
 
 class _map_view:
@@ -127,23 +127,23 @@ def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float
 
 def pixmap(geometries, dtype=np.float64):
 	"""Return a multimap containing the pixel map for the given geometries"""
-	return multimap([enmap.pixmap(*geo, dtype=dtype) for geo in geometries])
+	return multimap([enmap.pixmap(*geo).astype(dtype) for geo in geometries])
 
-def lmap(geometries, dtype=np.float64):
+def lmap(geometries, oversample=1, dtype=np.float64):
 	"""Return a mapmultimap of all the wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.lmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.lmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
-def modlmap(geometries, dtype=np.float64):
+def modlmap(geometries, oversample=1, dtype=np.float64):
 	"""Return a mapmultimap of all the abs wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.modlmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.modlmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
 def modrmap(geometries, ref="center", safe=True, corner=False, dtype=np.float64):
 	"""Return a multimap where each entry is the distance from center
 	of that entry. Results are returned in radians, and if safe is true
 	(default), then sharp coordinate edges will be avoided."""
-	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe).astype(dtype) for geo in geometries])
+	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe, corner=corner).astype(dtype) for geo in geometries])
 
 def pixsize(geometries, dtype=np.float64):
 	return np.array([enmap.pixsize(*geo).astype(dtype) for geo in geometries])
-- 
2.43.0


From 6b58e72a90aa10fb8a3c68ee5761ad7fd5c048fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 097/200] fix: multimaps of no maps failed

---
 pixell/multimap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index c82933e..352a4b9 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -66,7 +66,7 @@ class _map_view:
 
 def multimap(maps):
 	"""Construct a multimap (ndmaps instance) from a list of enmaps. These must have compatible pre-dimensions."""
-	if len(maps) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(maps) == 0: return ndmaps(np.zeros(0), [])
 	for i, map in enumerate(maps):
 		if map.shape[:-2] != maps[0].shape[:-2]:
 			raise ValueError("Map %d in multimaps constructor has pre-shape %s, incompatible with map 0 with %s" % (i, str(map.shape[:-2]), str(maps[0].shape[:-2])))
@@ -85,14 +85,14 @@ def _geo_helper(geometries):
 
 def zeros(geometries, dtype=np.float64):
 	"""Construct a zero-initialized multimap with the given geometries and data type"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	flat = np.zeros(geometries[0].shape[:-2]+(ntot,), dtype)
 	return ndmaps(flat, geometries)
 
 def empty(geometries, dtype=np.float64):
 	"""Construct an uninitialized multimap with the given geometries and data type"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	flat = np.empty(geometries[0].shape[:-2]+(ntot,), dtype)
 	return ndmaps(flat, geometries)
@@ -103,7 +103,7 @@ def full(geometries, val, dtype=None):
 	geometries[0].shape[:-2]+(len(geometries),). This allows one to initialize each map with a
 	separate constant.
 	"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	# Broadcast val and geometries
 	pre  = geometries[0].shape[:-2]
-- 
2.43.0


From 39ad07b720674883031554c1ff4ab87752d4d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 098/200] fix: multimap.dct and idct failed

---
 pixell/multimap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 352a4b9..2f6c65c 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -202,11 +202,11 @@ def std(mmap):
 	return np.array([np.std(m,(-2,-1)) for m in mmap.maps])
 
 def fft(mmap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=False):
-	if omap is None: omap = mmap*0j
+	if omap is None: omap = mmap*0j if not dct else mmap*0.0
 	return multimap([enmap.fft(im.astype(om.dtype), omap=om, nthread=nthread, normalize=normalize, adjoint_ifft=adjoint_ifft, dct=dct) for im, om in zip(mmap.maps, omap.maps)])
 
 def ifft(mmap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=False):
-	mmap = utils.ascomplex(mmap)
+	if not dct: mmap = utils.ascomplex(mmap)
 	if omap is None: omap = mmap.copy()
 	return multimap([enmap.ifft(im, omap=om, nthread=nthread, normalize=normalize, adjoint_fft=adjoint_fft, dct=dct) for im, om in zip(mmap.maps, omap.maps)])
 
-- 
2.43.0


From 8fa2b77ec939e83b763ae3d8b34bf89be8e8c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 099/200] fix: multimap.harm2map ignored keep_imag

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 2f6c65c..a134fdc 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -231,7 +231,7 @@ def map2harm(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], adjoint_har
 	return multimap([enmap.map2harm(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_harm2map=adjoint_harm2map) for m in mmap.maps])
 
 def harm2map(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False, adjoint_map2harm=False):
-	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
+	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
 
 def map2harm_adjoint(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False):
 	return harm2map(mmap, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=True)
-- 
2.43.0


From d676b2c1304d536c0546daeeca4776881c9a3287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:30 +0000
Subject: [PATCH 100/200] fix: finding the data type of a fits map could
 byteswap its first value

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index aac5c1c..c91a413 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3007,9 +3007,9 @@ class ndmap_proxy_fits(ndmap_proxy):
 		# Note that 'section' is not part of some HDU types, such as CompImageHDU.
 		self.use_section = hasattr(hdu, 'section')
 		if self.use_section:
-			dtype    = fix_endian(hdu.section[(slice(0,1),)*hdu.header["NAXIS"]]).dtype
+			dtype    = fix_endian(np.array(hdu.section[(slice(0,1),)*hdu.header["NAXIS"]])).dtype
 		else:
-			dtype    = fix_endian(hdu.data[(slice(0,1),)*hdu.header["NAXIS"]]).dtype
+			dtype    = fix_endian(np.array(hdu.data[(slice(0,1),)*hdu.header["NAXIS"]])).dtype
 		self.stokes_flips = get_stokes_flips(hdu)
 		def slist(vals):
 			return ",".join([str(v) for v in vals])
-- 
2.43.0


From b471330bdace1cabf723917c4b0c3e763f99fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:30 +0000
Subject: [PATCH 101/200] fix: multimap.full did not work with leading
 dimensions

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index a134fdc..a1024e2 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -118,7 +118,7 @@ def full(geometries, val, dtype=None):
 	omaps= ndmaps(flat, geometries)
 	# Fill with target values
 	for i, map in enumerate(omaps.maps):
-		map[:] = val[...,i]
+		map[:] = val[...,i,None,None]
 	return omaps
 
 def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float64):
-- 
2.43.0


From 50631faa514950697eae06ae3132455cdb0bc0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:48 +0000
Subject: [PATCH 102/200] fix: alm_info.get_map, and therefore UHT.hprof2harm,
 was not implemented

---
 pixell/curvedsky.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 195c6a9..457415c 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -440,7 +440,12 @@ class alm_info:
 		return (self.mstart[m].astype(int, copy=False)+l*self.stride).astype(int, copy=False)
 	def get_map(self):
 		"""Return the explicit [nelem,{l,m}] mapping this alm_info represents."""
-		raise NotImplementedError
+		mapping = np.zeros((self.nelem,2),int)
+		for m in range(self.mmax+1):
+			l = np.arange(m, self.lmax+1)
+			mapping[self.lm2ind(l,np.full(l.shape,m)),0] = l
+			mapping[self.lm2ind(l,np.full(l.shape,m)),1] = m
+		return mapping
 	def transpose_alm(self, alm, out=None):
 		"""In order to accomodate l-major ordering, which is not directly
 		supported, this function efficiently transposes Alm into
-- 
2.43.0


From 2de426af053d44158a8f161b10851d61ef51d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:48 +0000
Subject: [PATCH 103/200] fix: UHT.harm2map_adjoint ignored spin on the curved
 sky

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 285dcd7..72602eb 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -106,7 +106,7 @@ class UHT:
 		if self.mode == "flat":
 			return enmap.harm2map_adjoint(map, spin=spin, normalize="phys")
 		else:
-			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo)
+			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo, spin=spin)
 	def map2harm_adjoint(self, harm, spin=0):
 		if self.mode == "flat":
 			return enmap.map2harm_adjoint(harm, spin=spin, normalize="phys")
-- 
2.43.0


From eeca2e6f4c0802469d8c1b36d8d0fdacc3ba0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:48 +0000
Subject: [PATCH 104/200] fix: harm2profile_flat_2d did not return the radii

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 72602eb..2f961e8 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -252,7 +252,7 @@ def harm2profile_flat_2d(harm, r=None):
 	cpos = bmap.pix2sky(cpix)
 	bmap = enmap.shift(bmap, cpix, keepwcs=True)
 	wbr, wr = bmap.rbin(center=cpos)
-	if r is None: return wbr, r
+	if r is None: return wbr, wr
 	else:         return utils.interp(r, wr, wbr, right=0)
 
 def beam2res(br, r):
-- 
2.43.0


From 3f12ab9f71a6400cfe5e5a385fd7f13f9f2ff6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 105/200] fix: maps with pixels centered on a pole were
 considered flat by UHT

---
 pixell/uharm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 2f961e8..c40b666 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -271,7 +271,8 @@ def res2lmax(res):
 
 def estimate_distortion(shape, wcs):
 	"""Get the maximum distortion in the map, assuming a cylindrical projection"""
-	dec1, dec2 = enmap.corners(shape, wcs)[:,0]
+	# The outermost pixels can extend past the poles
+	dec1, dec2 = np.clip(enmap.corners(shape, wcs)[:,0], -np.pi/2, np.pi/2)
 	rmin = min(np.cos(dec1),np.cos(dec2))
 	rmax = 1 if not dec1*dec2 > 0 else max(np.cos(dec1),np.cos(dec2))
 	return rmax/rmin-1
-- 
2.43.0


From 5f04fb112bdf9aeba9ddf13d4804b089d570b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 106/200] fix: utils.find failed for empty arrays and for
 scalars with a default, and find_any for no values

---
 pixell/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4ebf76d..be3ee43 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -106,15 +106,19 @@ def streq(x, s):
 
 def find(array, vals, default=None):
 	"""Return the indices of each value of vals in the given array."""
-	if np.asarray(vals).size == 0: return []
+	vals    = np.asarray(vals)
+	if vals.size == 0: return np.zeros(vals.shape, int)
 	array   = np.asarray(array)
+	if array.size == 0:
+		if default is None: raise ValueError("Value not found in array")
+		else: return np.full(vals.shape, default)
 	order   = np.argsort(array)
 	cands   = np.minimum(np.searchsorted(array, vals, sorter=order),len(array)-1)
 	res     = order[cands]
 	bad     = array[res] != vals
 	if np.any(bad):
 		if default is None: raise ValueError("Value not found in array")
-		else: res[bad] = default
+		else: res = np.where(bad, default, res)
 	return res
 
 def find_any(array, vals):
-- 
2.43.0


From 61ae28acba6e0bdd9f062cf5b768e343fd79f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 107/200] fix: utils.nearest_ind returned -1 for single-element
 sorted arrays

---
 pixell/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index be3ee43..558c769 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -141,6 +141,8 @@ def nearest_ind(arr, vals, sorted=False):
 	diff2= np.abs(arr[inds  ]-vals)
 	# Entries where diff1 is smallest should point one earlier
 	inds -= diff1 <= diff2
+	# In a single-element array that element is always the closest
+	inds = np.maximum(inds, 0)
 	# Undo sorting if necessary
 	if not sorted:
 		inds = order[inds]
-- 
2.43.0


From 59ebb778bb452fc7e5bad2624dd6d5f06b32901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 108/200] fix: utils.contains failed if there were no values to
 look for

---
 pixell/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 558c769..e555468 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -153,6 +153,7 @@ def contains(array, vals):
 	for any element in array that is also in vals, and False otherwise."""
 	array = np.asarray(array)
 	vals  = np.asarray(vals)
+	if vals.size == 0: return np.zeros(array.shape, bool)
 	vals  = np.sort(vals)
 	inds  = np.searchsorted(vals, array)
 	# If a value would be inserted after the end, it wasn't
-- 
2.43.0


From 88469ee148c202d25beb5290f562b6628e931cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 109/200] fix: utils.complement_inds failed for empty index
 lists

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e555468..55de5c4 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -211,7 +211,7 @@ def complement_inds(inds, n):
 	E.g. complement_inds([0,2,4],7) => [1,3,5,6]"""
 	if inds is None: inds = np.arange(n)
 	mask = np.ones(n, bool)
-	mask[np.array(inds)] = False
+	mask[np.array(inds,int)] = False
 	return np.where(mask)[0]
 
 def unmask(arr, mask, axis=0, fill=0):
-- 
2.43.0


From bb14532ff356e76c168ea1af61f78dda8fb7d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 110/200] fix: utils.unmask failed for arrays with axes after
 the masked one

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 55de5c4..c8808eb 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -220,7 +220,7 @@ def unmask(arr, mask, axis=0, fill=0):
 	mask. Values that were not selected by mask in the first place will be
 	filled with the fill value."""
 	axis  %= arr.ndim
-	result = np.full(arr.shape[:axis]+mask.shape, fill, arr.dtype)
+	result = np.full(arr.shape[:axis]+mask.shape+arr.shape[axis+1:], fill, arr.dtype)
 	result[(slice(None),)*axis+(mask,)] = arr
 	return result
 
-- 
2.43.0


From 0b928c91d00a1132742027fc1d81714396e0f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 111/200] fix: utils.medmean returned nan when nothing was to
 be cut

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index c8808eb..309e83d 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -356,7 +356,7 @@ def medmean(x, axis=None, frac=0.5):
 	else:            x = np.moveaxis(x, axis, -1)
 	x = np.sort(x, -1)
 	i = int(x.shape[-1]*frac)//2
-	return np.mean(x[...,i:-i],-1)
+	return np.mean(x[...,i:x.shape[-1]-i],-1)
 
 def medmean2(x, axis=None, frac=0.1, bsize=None):
 	"""This is what medmean should have bean. This should be faster and have
-- 
2.43.0


From 25b7f78782da3f0c30fab8b2f4abfcfa68bff174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 112/200] fix: utils.addaxes and delaxes always failed

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 309e83d..ec313fd 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -491,7 +491,7 @@ def addaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds.insert(ax, None)
-	return a[inds]
+	return a[tuple(inds)]
 
 def delaxes(a, axes):
 	axes = np.array(axes,int)
@@ -499,7 +499,7 @@ def delaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds[ax] = 0
-	return a[inds]
+	return a[tuple(inds)]
 
 class flatview:
 	"""Produce a read/writable flattened view of the given array,
-- 
2.43.0


From 5e2b60016265ac2c14d43ec7edd07c1f959ab706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 113/200] fix: utils.grid returned nan along axes with a single
 sample

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ec313fd..5dc7ec1 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -737,7 +737,8 @@ def grid(box, shape, endpoint=True, axis=0, flat=False):
 	box  = asfarray(box)
 	off  = -1 if endpoint else 0
 	inds = np.rollaxis(np.indices(n),0,len(n)+1) # (d1,d2,d3,...,indim)
-	res  = inds * (box[1]-box[0])/(n+off) + box[0]
+	# The only sample along an axis of length one is at the start of the box
+	res  = inds * (box[1]-box[0])/np.maximum(n+off,1) + box[0]
 	if flat: res = res.reshape(-1, res.shape[-1])
 	return np.rollaxis(res, -1, axis)
 
-- 
2.43.0


From 02ba5a0ec585891f7c4e68011d69995af17c9fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 114/200] fix: utils.nearest_product above 1 was not 1

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 5dc7ec1..0336434 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -788,7 +788,7 @@ def nearest_product(n, factors, direction="below"):
 	# a keeps track of all the visited multiples
 	a = np.zeros(nmax+1,dtype=bool)
 	a[1] = True
-	best = 1 if below and n >= 1 else None
+	best = 1 if (n >= 1 if below else n <= 1) else None
 	for i in range(ni+1):
 		if not a[i]: continue
 		for f in factors:
-- 
2.43.0


From 4b4421ccc0173c77574f0993e498d6a373d35dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 115/200] fix: utils.preflat and postflat flattened everything
 for negative n

---
 pixell/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 0336434..b41e674 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1132,14 +1132,14 @@ def preflat(a, n):
 	"""Flatten the first n dimensions of a. If n is negative,
 	flatten all but the last -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape((-1,)+a.shape[n:])
 
 def postflat(a, n):
 	"""Flatten the last n dimensions of a. If n is negative,
-	flatten all but the last -n dimensions."""
+	flatten all but the first -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape(a.shape[:a.ndim-n]+(-1,))
 
 def between_angles(a, range, period=2*np.pi):
-- 
2.43.0


From 5741ef5872490bccd39065152eab1c0621f5e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 116/200] fix: utils.box_slice and box_overlap only worked for
 two-dimensional boxes

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index b41e674..1798ffb 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1316,10 +1316,11 @@ def box_slice(a, b):
 	fa = a.reshape(-1,2,a.shape[-1])
 	fb = b.reshape(-1,2,b.shape[-1])
 	s  = np.minimum(np.maximum(0,fb[None,:]-fa[:,None,0,None]),fa[:,None,1,None]-fa[:,None,0,None])
-	return s.reshape(a.shape[:-2]+b.shape[:-2]+(2,2))
+	return s.reshape(a.shape[:-2]+b.shape[:-2]+(2,a.shape[-1]))
 
 def box_area(a):
 	"""Compute the area of a [{from,to},ndim] box, or an array of such boxes."""
+	a = np.asarray(a)
 	return np.abs(np.prod(a[...,1,:]-a[...,0,:],-1))
 
 def box_overlap(a, b):
-- 
2.43.0


From 3006e32ef9837ec4e513f7cf7a915649a8f7edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 117/200] fix: utils.unwrap_range modified its input, and
 failed for integers

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1798ffb..6b9a3ee 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1361,7 +1361,7 @@ def unwrap_range(range, nwrap=2*np.pi):
 	doesn't assume that ranges are shorter than half the
 	sky. But it still shortens ranges that are longer than
 	a whole wrapping period."""
-	range = np.asanyarray(range)
+	range = np.array(range, dtype=np.result_type(range, nwrap))
 	range[1] -= np.floor((range[1]-range[0])/nwrap)*nwrap
 	range    -= np.floor(range[1,None]/nwrap)*nwrap
 	return range
-- 
2.43.0


From b45369de8017b33ac9a4d5ea04fde6eafd017108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 118/200] fix: utils.pole_wrap did nothing for single positions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 6b9a3ee..eac41af 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1381,7 +1381,7 @@ def pole_wrap(pos):
 	range are mirrored around the poles, and for each mirroring a phase
 	of pi is added to lon."""
 	pos = pos.copy()
-	lat, lon  = pos # references to columns of pos
+	lat, lon  = pos[0,...], pos[1,...] # references to columns of pos
 	halforbit = np.floor((lat+np.pi/2)/np.pi).astype(int)
 	front     = halforbit % 2 == 0
 	back      = ~front
-- 
2.43.0


From 771dc245ea0d1684e649026266bc8a0e569b9ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 119/200] fix: utils.label_multi gave different values the same
 label

---
 pixell/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index eac41af..a6acaae 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2037,12 +2037,10 @@ def label_multi(valss):
 
 	Example: label_multi([[0,0,1,1,2],["a","b","b","b","b"]]) → [0,1,2,2,3]"""
 	oinds = 0
-	nprev = 1
 	for vals in valss:
 		# remap arbitrary values in vals to integers in inds
 		uvals, inds = np.unique(vals, return_inverse=True)
-		oinds = oinds*nprev + inds
-		nprev = len(uvals)
+		oinds = oinds*len(uvals) + inds
 	# At this point oinds has unique indices, but there could be gaps.
 	# Remove those
 	oinds = np.unique(oinds, return_inverse=True)[1]
-- 
2.43.0


From d919b81e88428d76a82c241955f5157d21d0fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 120/200] fix: utils.pathsplit added empty components for / and
 //

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a6acaae..182c856 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2053,7 +2053,7 @@ def pathsplit(path):
 	path = os.path.normpath(path)
 	# This is to handle the common special case of a path starting with /
 	if path.startswith("/"):
-		return ["/"] + path.split("/")[1:]
+		return ["/"] + [tok for tok in path.split("/") if tok]
 	else:
 		return path.split("/")
 
-- 
2.43.0


From 731c1dbe45e6f8a9516badfd5212b23b7a27cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 121/200] fix: utils.point_in_polygon was wrong for points
 level with a vertex

---
 pixell/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 182c856..2857a2b 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2139,12 +2139,14 @@ def point_in_polygon(points, polys):
 	# position of that crossing, and seeing if that x is within the
 	# poly's bounds.
 	for i in range(verts.shape[-2]):
-		x1, y1 = verts[...,i-1,:].T
-		x2, y2 = verts[...,i,:].T
+		x1, y1 = np.moveaxis(verts[...,i-1,:],-1,0)
+		x2, y2 = np.moveaxis(verts[...,i,:],-1,0)
 		with nowarn():
 			x = -y1*(x2-x1)/(y2-y1) + x1
-		ncross += ((y1*y2 < 0) & (x > 0)).T
-	return ncross.T % 2 == 1
+		# Vertices at exactly y=0 count as being above it, so that passing
+		# through one is seen as exactly one crossing
+		ncross += ((y1 < 0) != (y2 < 0)) & (x > 0)
+	return ncross % 2 == 1
 
 def poly_edge_dist(points, polygons):
 	"""Given points [...,2] and a set of polygons [...,nvertex,2], return
-- 
2.43.0


From a7a7201e5b2a3551509b1ea9d99a644c72b0befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 122/200] fix: utils.bins2edges used the end of the second bin
 as the end of the last one

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 2857a2b..26de96c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2495,7 +2495,7 @@ def edges2bins(edges):
 	return res
 
 def bins2edges(bins):
-	return np.concatenate([bins[:,0],bins[1,-1:]])
+	return np.concatenate([bins[:,0],bins[-1:,1]])
 
 def linbin(n, nbin=None, nmin=None, bsize=None):
 	"""Given a number of points to bin and the number of approximately
-- 
2.43.0


From e8933fb370b8dd95bbe8e9321d2955ae01f9c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 123/200] fix: utils.expbin never returned if the last bin was
 smaller than nmin

---
 pixell/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 26de96c..01b5bce 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2520,11 +2520,13 @@ def expbin(n, nbin=None, nmin=8, nmax=0):
 	tmp  = np.array(np.exp(np.arange(nbin+1)*np.log(n+1)/nbin)-1,dtype=int)
 	fixed = [tmp[0]]
 	i = 0
-	while i < nbin:
-		for j in range(i+1,nbin+1):
-			if tmp[j]-tmp[i] >= nmin:
-				fixed.append(tmp[j])
-				i = j
+	for j in range(1,nbin+1):
+		if tmp[j]-tmp[i] >= nmin:
+			fixed.append(tmp[j])
+			i = j
+	# What's left at the end is too small to form a bin of its own
+	if len(fixed) == 1: fixed.append(n)
+	fixed[-1] = n
 	# Optionally split too large bins
 	if nmax:
 		tmp = [fixed[0]]
@@ -2534,7 +2536,6 @@ def expbin(n, nbin=None, nmin=8, nmax=0):
 			tmp += [tmp[-1]+dv*(i+1)//nsplit for i in range(nsplit)]
 		fixed = tmp
 	tmp = np.array(fixed)
-	tmp[-1] = n
 	return np.vstack((tmp[:-1],tmp[1:])).T
 
 def bin_data(bins, d, op=np.mean):
-- 
2.43.0


From 116db5e156e4885c6634ef4b7e07c1e6190a39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 124/200] fix: utils.ndigit was two for single-digit numbers

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 01b5bce..6d10e95 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2751,7 +2751,7 @@ class Printer:
 
 def ndigit(num):
 	"""Returns the number of digits in non-negative number num"""
-	with nowarn(): return np.int32(np.floor(np.maximum(1,np.log10(num))))+1
+	return np.int32(np.floor(np.log10(np.maximum(1,num))))+1
 
 def contains_any(a, bs):
 	"""Returns true if any of the strings in list bs are found
-- 
2.43.0


From f9b346cd9de3de907dfd84403566463e7478b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 125/200] fix: utils.count_variable_basis yielded the same list
 every time, and counted through empty digits

---
 pixell/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 6d10e95..88fa6df 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2825,7 +2825,8 @@ def count_variable_basis(bases):
 	N = bases
 	n = len(bases)
 	I = [0 for i in range(n)]
-	yield I
+	if any([v <= 0 for v in N]): return
+	yield list(I)
 	while True:
 		for i in range(n-1,-1,-1):
 			I[i] += 1
@@ -2833,7 +2834,7 @@ def count_variable_basis(bases):
 			else:
 				for j in range(i,n): I[j] = 0
 		else: break
-		yield I
+		yield list(I)
 
 def list_combination_iter(ilist):
 	"""Given a list of lists of values, yields every combination of
-- 
2.43.0


From 8e373b2437e59171ca46fa85411db545c1c41565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 126/200] fix: utils.nditer yielded an invalid index for empty
 shapes

---
 pixell/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 88fa6df..8f123ce 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3442,6 +3442,8 @@ def nditer(shape, axes=None):
 	axes = tuple(range(ndim)) if axes is None else tuple(sorted([ax%ndim for ax in axes]))
 	axes = axes[::-1] # will iterate backwards below
 	I = [slice(None)]*ndim
+	# There's nothing to iterate over if there are no elements
+	if any([shape[ax] == 0 for ax in axes]): return
 	for ax in axes: I[ax] = 0
 	while True:
 		yield tuple(I)
-- 
2.43.0


From 704641e39477cccbc6d1b181b3892c383d5ab970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 127/200] fix: utils.split_esc lost escaped escapes and an
 empty last token

---
 pixell/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 8f123ce..3f19fa7 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3544,12 +3544,11 @@ def split_esc(string, delim, esc='\\'):
 	one as an iterator."""
 	if len(delim) != 1: raise ValueError("delimiter must be one character")
 	if len(esc)   != 1: raise ValueError("escape character must be one character")
-	if len(string) == 0: yield ""
 	inesc = False
 	ostr  = ""
 	for i, c in enumerate(string):
 		if inesc:
-			if c != esc: ostr += c
+			ostr += c
 			inesc = False
 		elif c == esc:
 			inesc = True
@@ -3558,8 +3557,7 @@ def split_esc(string, delim, esc='\\'):
 			ostr = ""
 		else:
 			ostr += c
-	if len(ostr) > 0:
-		yield ostr
+	yield ostr
 
 def getenv(name, default=None):
 	"""Return the value of the named environment variable, or default if it's not set"""
-- 
2.43.0


From a927595d3c7a8533707424d87258064b76b15047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 128/200] fix: utils.bin_expand failed for data with leading
 dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 3f19fa7..25b4d5e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2551,7 +2551,7 @@ def bin_data(bins, d, op=np.mean):
 def bin_expand(bins, bdata):
 	res = np.zeros(bdata.shape[:-1]+(bins[-1,1],),bdata.dtype)
 	for bi, b in enumerate(bins):
-		res[...,b[0]:b[1]] = bdata[...,bi]
+		res[...,b[0]:b[1]] = bdata[...,bi,None]
 	return res
 
 def is_int_valued(a): return a%1 == 0
-- 
2.43.0


From 6f79bfc55399e0e0a4511dfb308fa801c4f38f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:07 +0000
Subject: [PATCH 129/200] fix: unwind with mask_nan did not remove jumps next
 to nans

---
 pixell/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 25b4d5e..e7da162 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -254,10 +254,14 @@ def unwind(a, period=2*np.pi, axes=[-1], ref=0, refmode="left", mask_nan=False):
 	for axis in axes:
 		with flatview(res, axes=[axis]) as flat:
 			if mask_nan:
-				# Avoid trying to sum nans
+				# Avoid trying to sum nans. We replace them by the last good value (or the
+				# first good value for nans at the start), so that they don't introduce jumps
 				mask = ~np.isfinite(flat)
 				bad = flat[mask]
-				flat[mask] = 0
+				last = np.maximum.accumulate(np.where(mask, -1, np.arange(flat.shape[-1])),-1)
+				last = np.where(last < 0, np.argmin(mask,-1)[:,None], last)
+				flat[mask] = np.take_along_axis(flat, last, -1)[mask]
+				flat[~np.isfinite(flat)] = 0
 			# step[i] = val[i+1]-val[i]
 			steps = nint((flat[:,1:]-flat[:,:-1])/period)
 			# I want to use the middle element as the reference point that won't be changed
-- 
2.43.0


From bf65e9b7eb1eb6eb446e4c40e77a5ff8095886d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:07 +0000
Subject: [PATCH 130/200] fix: vec_angdist could return nan for parallel and
 antiparallel vectors

---
 pixell/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e7da162..ebebfd7 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1874,9 +1874,13 @@ def vec_angdist(v1, v2, axis=0):
 	a  = np.sum(v1**2,axis)**0.5
 	b  = np.sum(v2**2,axis)**0.5
 	c  = np.sum((v1-v2)**2,axis)**0.5
+	# The formula requires a >= b
+	a, b = np.maximum(a,b), np.minimum(a,b)
 	mu = np.where(b>=c, c-(a-b), b-(a-c))
-	ang= 2*np.arctan(((((a-b)+c)*mu)/((a+(b+c))*((a-c)+b)))**0.5)
-	return ang
+	# These are non-negative, but rounding can make them negative for (anti)parallel vectors
+	y2 = np.maximum(((a-b)+c)*mu, 0)
+	x2 = np.maximum((a+(b+c))*((a-c)+b), 0)
+	return 2*np.arctan2(y2**0.5, x2**0.5)
 
 def rotmatrix(ang, raxis, axis=-1, dtype=None):
 	"""Construct a 3d rotation matrix representing a rotation of
-- 
2.43.0


From c260cc8de933729d46695d8028f661a5b9f0d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:07 +0000
Subject: [PATCH 131/200] fix: recenter and decenter could modify their center
 argument

---
 pixell/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index 037c5c2..d274d3a 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -301,14 +301,14 @@ def recenter(angs, center, restore=False):
 	# lon_from,lat_from,lon_to,lat_to
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra1,dec0-dec1,-ra0], angs, kind="zyz")
 
 def decenter(angs, center, restore=False):
 	"""Inverse operation of recenter."""
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra0,dec1-dec0,-ra1],  angs, kind="zyz")
 
 def nohor(sys): return sys if sys not in ["altaz","tele","bore"] else "icrs"
-- 
2.43.0


From 8dbd71136b9e87bcfccf6acf46a2eccb36061507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:31 +0000
Subject: [PATCH 132/200] fix: unwrap_range failed for integers with an integer
 period

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ebebfd7..91a9106 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1365,7 +1365,7 @@ def unwrap_range(range, nwrap=2*np.pi):
 	doesn't assume that ranges are shorter than half the
 	sky. But it still shortens ranges that are longer than
 	a whole wrapping period."""
-	range = np.array(range, dtype=np.result_type(range, nwrap))
+	range = np.array(range, dtype=np.result_type(asfarray(range), nwrap))
 	range[1] -= np.floor((range[1]-range[0])/nwrap)*nwrap
 	range    -= np.floor(range[1,None]/nwrap)*nwrap
 	return range
-- 
2.43.0


From 43ef859f5bb5c7f628f0ec438b0d7ee7a9d37eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:31 +0000
Subject: [PATCH 133/200] fix: coordinates.transform_raw truncated integer
 coordinates

---
 pixell/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index d274d3a..aad4fea 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -133,10 +133,10 @@ def transform_raw(from_sys, to_sys, coords, time=None, site=default_site, bore=N
 	as coords*time[None]."""
 	# Prepare input and output arrays
 	if time is None:
-		coords = np.array(coords)[:2]
+		coords = utils.asfarray(np.array(coords)[:2])
 	else:
 		time   = np.asarray(time)
-		coords = np.asarray(coords)
+		coords = utils.asfarray(coords)
 		# Broadasting. A bit complicated because we want to handle
 		# both time needing to broadcast and coords needing to
 		time   = time + np.zeros(coords[0].shape,time.dtype)
-- 
2.43.0


From f9bbf443e7f7fd86bcec8a155c61c4eb13742867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:31 +0000
Subject: [PATCH 134/200] fix: disk_overlap_curved lost most of its precision
 at small separations

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 91a9106..aaca01c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3714,7 +3714,7 @@ def disk_overlap_curved(d, R, tol_flat=1e-4, tol_tiny=1e-10):
 
 def _disk_overlap_curved_main(d, R):
 	sinR, cosR = np.sin(R), np.cos(R)
-	return 2*np.arccos((1-np.cos(d))/sinR**2-1)-4*cosR*np.arccos(cosR/sinR*np.tan(d/2))
+	return 4*np.arccos(np.sin(d/2)/sinR)-4*cosR*np.arccos(cosR/sinR*np.tan(d/2))
 
 def _disk_overlap_curved_tiny(d, R):
 	"""Curved sky disk overlap in limit of tiny separations.
-- 
2.43.0


From 074b91e14931cbaf6c44715de1984e06b962b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:28 +0000
Subject: [PATCH 135/200] fix: CG failed to converge when the preconditioner
 returns its argument

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index aaca01c..6986224 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3354,7 +3354,7 @@ class CG:
 		z = self.M(self.r)
 		self.rz  = self.dot(self.r, z)
 		self.rz0 = float(self.rz)
-		self.p   = z
+		self.p   = z.copy() # M is allowed to return its argument
 		self.i   = 0
 		self.err = np.inf
 	def step(self):
-- 
2.43.0


From d36a5f722c85b78014d1c91954dc88113591aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 136/200] fix: CG.load turned enmap vectors into plain arrays,
 so A and M failed after resuming

---
 pixell/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 6986224..81c1961 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3389,8 +3389,14 @@ class CG:
 		object normally."""
 		import h5py
 		with h5py.File(fname, "r") as hfile:
-			for key in ["i","rz","rz0","x","r","p","err"]:
+			for key in ["i","rz","rz0","err"]:
 				setattr(self, key, hfile[key][()])
+			# Keep the type of the vectors, e.g. enmaps
+			for key in ["x","r","p"]:
+				val = hfile[key][()]
+				vec = np.empty_like(getattr(self, key), dtype=val.dtype)
+				vec[...] = val
+				setattr(self, key, vec)
 
 class Minres:
 	"""A simple Minres solver. Solves the equation system Ax=b."""
-- 
2.43.0


From 30c5caf2360894d3e16b6c4bec324e3eb09f3f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 137/200] fix: CG passed plain arrays instead of enmaps to A
 when no preconditioner was given

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 81c1961..587d23e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3319,7 +3319,7 @@ def astuple(num_or_list):
 
 # Conjugate gradients
 
-def default_M(x):     return np.copy(x)
+def default_M(x):     return x.copy()
 def default_dot(a,b): return a.dot(np.conj(b))
 
 class CG:
-- 
2.43.0


From 61a6bb2080926a1f9577f25dd06eee0b44c5ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 138/200] fix: copy.copy of a Bunch shared its contents with
 the original

---
 pixell/bunch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/bunch.py b/pixell/bunch.py
index ef490d8..62af12d 100644
--- a/pixell/bunch.py
+++ b/pixell/bunch.py
@@ -44,6 +44,7 @@ class Bunch:
 	def items(self): return self._dict.items()
 	def iteritems(self): return self._dict.iteritems()
 	def copy(self): return Bunch(self._dict.copy())
+	def __copy__(self): return self.copy()
 	def update(self, val): return self._dict.update(val)
 	def __repr__(self):
 		keys = sorted(self._dict.keys())
-- 
2.43.0


From b26946557f9d85340a0fd6e70cfcb2011ce31be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 139/200] fix: bunch.concatenate truncated values to the type
 of the first one

---
 pixell/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/bunch.py b/pixell/bunch.py
index 62af12d..3893a21 100644
--- a/pixell/bunch.py
+++ b/pixell/bunch.py
@@ -166,7 +166,7 @@ def concatenate(bunches):
 		if len(res[key]) > 0:
 			first = res[key][0]
 			tmp   = np.array(res[key])
-			new   = np.empty_like(first, shape=tmp.shape)
+			new   = np.empty_like(first, dtype=tmp.dtype, shape=tmp.shape)
 			new[:] = tmp
 			res[key] = new
 			del first, tmp, new
-- 
2.43.0


From a427ab0bb0dab4dd290ed1a1765e7390879ee15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 140/200] fix: Bunch.iteritems always failed in python 3

---
 pixell/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/bunch.py b/pixell/bunch.py
index 3893a21..fa62a9c 100644
--- a/pixell/bunch.py
+++ b/pixell/bunch.py
@@ -42,7 +42,7 @@ class Bunch:
 		return len(self._dict)
 	def keys(self): return self._dict.keys()
 	def items(self): return self._dict.items()
-	def iteritems(self): return self._dict.iteritems()
+	def iteritems(self): return iter(self._dict.items())
 	def copy(self): return Bunch(self._dict.copy())
 	def __copy__(self): return self.copy()
 	def update(self, val): return self._dict.update(val)
-- 
2.43.0


From 6358c4d0eadfcd852a7c3ea83cb86c068e41fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 141/200] fix: eigpow mixed up the eigenvalue limits of
 different matrices for arrays with more than 3 dimensions

---
 pixell/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 587d23e..4956359 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2619,10 +2619,7 @@ def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
 			mask |= E < 0
 		if e < 0:
 			aE = np.abs(E)
-			if A.ndim > 2:
-				mask |= (aE < np.max(aE,1)[:,None]*rlim) | (aE < alim)
-			else:
-				mask |= (aE < np.max(aE)*rlim) | (aE < alim)
+			mask |= (aE < np.max(aE,-1)[...,None]*rlim) | (aE < alim)
 		E[~mask] **= e
 		E[mask]    = 0
 		if A.ndim > 2:
-- 
2.43.0


From fe11462499e577e1ee6f8b3ee5064a94292f4634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 142/200] fix: utils.solve failed for vectors with numpy 2, and
 overwrote or truncated b when masked

---
 pixell/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4956359..951d8fd 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2576,13 +2576,17 @@ def solve(A, b, axes=[-2,-1], masked=False):
 	baxes = axes if A.ndim == b.ndim else [axes[0]%A.ndim]
 	fA = partial_flatten(A, axes)
 	fb = partial_flatten(b, baxes)
+	# Make fb an explicit stack of matrices, since numpy 2 doesn't
+	# recognize a stack of vectors
+	if len(baxes) == 1: fb = fb[...,None]
 	if masked:
 		mask = fA[...,0,0] != 0
-		fb[~mask] = 0
-		fb[mask]  = np.linalg.solve(fA[mask],fb[mask])
+		fx   = np.zeros(fb.shape, np.result_type(fA, fb, np.float32))
+		fx[mask] = np.linalg.solve(fA[mask],fb[mask])
 	else:
-		fb = np.linalg.solve(fA,fb)
-	return partial_expand(fb, b.shape, baxes)
+		fx = np.linalg.solve(fA,fb)
+	if len(baxes) == 1: fx = fx[...,0]
+	return partial_expand(fx, b.shape, baxes)
 
 def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
 	"""Compute the e'th power of the matrix A (or the last
-- 
2.43.0


From 943fc61e6102b4d81f8dc5a357ef25fa1597613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 143/200] fix: build_conditional truncated the result to
 integers for integer covariances

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 951d8fd..7eb3aba 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2652,7 +2652,7 @@ def build_conditional(ps, inds, axes=[0,1]):
 	vtot = np.concatenate([vknown,vrest]) should have the same distribution
 	as a sample drawn directly from the full C.
 	"""
-	ps   = np.asarray(ps)
+	ps   = asfarray(np.asarray(ps))
 	# Make the matrix parts the last axes, so we have [:,ncomp,ncomp]
 	C = partial_flatten(ps,   axes)
 	# Define masks for what is known and unknown
-- 
2.43.0


From 9a841bcf3055a67ee1cff14cd67f994ce19a6f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 144/200] fix: rotate_pol truncated the result for integer maps

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c91a413..669e459 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1367,7 +1367,7 @@ def rotate_pol(emap, angle, comps=[-2,-1], spin=2, axis=-3):
 	if spin == 0: return emap
 	axis %= emap.ndim
 	c, s  = np.cos(spin*angle), np.sin(spin*angle)
-	res   = emap.copy()
+	res   = utils.asfarray(emap.copy())
 	pre   = (slice(None),)*axis
 	res[pre+(comps[0],)] = c*emap[pre+(comps[0],)] - s*emap[pre+(comps[1],)]
 	res[pre+(comps[1],)] = s*emap[pre+(comps[0],)] + c*emap[pre+(comps[1],)]
-- 
2.43.0


From 6ce4cb57d7675e769f5436c7dc400b88054b8fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 145/200] fix: roll_rows wrote outside the map for offsets
 larger than the row length

---
 fortran/array_ops.F90 | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/fortran/array_ops.F90 b/fortran/array_ops.F90
index f45b528..cc7f201 100644
--- a/fortran/array_ops.F90
+++ b/fortran/array_ops.F90
@@ -119,12 +119,7 @@ subroutine roll_rows(imap, offsets, omap)
 	!$omp parallel do private(ix,ox)
 	do y = 1, ny
 		do ix = 1, nx
-			ox = ix + offsets(y)
-			if    (ox < 1 ) then
-				ox = ox + nx
-			elseif(ox > nx) then
-				ox = ox - nx
-			end if
+			ox = modulo(ix-1+offsets(y),nx)+1
 			omap(ox,y) = imap(ix,y)
 		end do
 	end do
-- 
2.43.0


From ce8f8e7fe5e9ee58703c7e6468faeadb448e7866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:57 +0000
Subject: [PATCH 146/200] fix: sym_compress and sym_expand used the wrong axes
 unless the matrix axes were first

---
 pixell/powspec.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index b9d80d9..0e874f2 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -12,12 +12,13 @@ def sym_compress(mat, which=None, n=None, scheme=None, axes=[0,1], combined=Fals
 	elements). The 'axes' argument indicates which axes to operate on."""
 	if n is None: n = mat.shape[axes[0]]*(mat.shape[axes[0]]+1)//2
 	if which==None: which = compressed_order(n, scheme)
-	m = np.rollaxis(np.rollaxis(mat, axes[1]), axes[0])
+	axes = [ax%mat.ndim for ax in axes]
+	m = np.moveaxis(mat, axes, [0,1])
 	if combined:
 		res = np.array([m[w[0],w[1]]+m[w[1],w[0]]*(w[1]!=w[0]) for w in which])
 	else:
 		res = np.array([m[w[0],w[1]] for w in which])
-	return np.rollaxis(res, 0, axes[0])
+	return np.moveaxis(res, 0, min(axes))
 
 def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False):
 	"""The inverse of sym_compress. Expands a flat array of numbers
@@ -25,7 +26,8 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	mapping which (or construct one using the given scheme)."""
 	if which==None: which = compressed_order(mat.shape[axis], scheme=scheme)
 	if ncomp==None: ncomp = np.max(which)+1
-	m = np.rollaxis(mat, axis)
+	axis %= mat.ndim
+	m = np.moveaxis(mat, axis, 0)
 	shape = [ncomp,ncomp] + list(m.shape[1:])
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
@@ -33,7 +35,7 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 		res[w[0],w[1]] = m[i]
 		if w[0] != w[1]:
 			res[w[1],w[0]] = m[i]
-	return np.rollaxis(np.rollaxis(res, 1, axis), 0, axis)
+	return np.moveaxis(res, [0,1], [axis,axis+1])
 
 def sym_expand_camb_full_lens(a):
 	# This complicated ordering doesn't fit into any of our expansion patterns,
-- 
2.43.0


From d20daa5b51ca5d4910726008586bb33bf56a6ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:57 +0000
Subject: [PATCH 147/200] fix: sym_expand ignored the combined argument

---
 pixell/powspec.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index 0e874f2..9b9b1ee 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -28,13 +28,14 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	if ncomp==None: ncomp = np.max(which)+1
 	axis %= mat.ndim
 	m = np.moveaxis(mat, axis, 0)
+	if combined: m = utils.asfarray(m)
 	shape = [ncomp,ncomp] + list(m.shape[1:])
-	res = np.zeros(shape,dtype=mat.dtype)
+	res = np.zeros(shape,dtype=m.dtype)
 	for i, w in enumerate(which):
 		val = m[i]/2 if combined and w[0]!=w[1] else m[i]
-		res[w[0],w[1]] = m[i]
+		res[w[0],w[1]] = val
 		if w[0] != w[1]:
-			res[w[1],w[0]] = m[i]
+			res[w[1],w[0]] = val
 	return np.moveaxis(res, [0,1], [axis,axis+1])
 
 def sym_expand_camb_full_lens(a):
-- 
2.43.0


From 9448b48a11f84a32b073a63b3c0fe2d967c5dcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:57 +0000
Subject: [PATCH 148/200] fix: scale_spectrum and scale_camb_scalar_phi zeroed
 the first multipole even when it was not the monopole, and failed for
 integers

---
 pixell/powspec.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index 9b9b1ee..dc394f7 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -122,17 +122,19 @@ def expand_inds(x, y):
 	return res
 
 def scale_spectrum(a, direction, extra=0, l=None):
-	a = np.array(a)
-	if l is None: l = np.arange(a.shape[-1])
-	a[...,1:] *= (2*np.pi/(l[1:]*(l[1:]+1))**(1+extra))**direction
-	a[...,0] = 0
+	a = utils.asfarray(np.array(a))
+	l = np.arange(a.shape[-1]) if l is None else np.asarray(l)
+	good = l > 0
+	a[...,good] *= (2*np.pi/(l[good]*(l[good]+1))**(1+extra))**direction
+	a[...,~good] = 0
 	return a
 
 def scale_camb_scalar_phi(a, direction, l=None):
-	a = np.array(a)
-	if l is None: l = np.arange(a.shape[-1])
-	a[...,1:] /= (l[1:]**4*2.726e6**2)**direction
-	a[...,0] = 0
+	a = utils.asfarray(np.array(a))
+	l = np.arange(a.shape[-1]) if l is None else np.asarray(l)
+	good = l > 0
+	a[...,good] /= (l[good]**4*2.726e6**2)**direction
+	a[...,~good] = 0
 	return a
 
 def read_spectrum(fname, inds=True, scale=True, expand="diag", ncol=None, ncomp=None):
-- 
2.43.0


From cee34491ba12c0f11f9cecd316857aa578e8a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:57 +0000
Subject: [PATCH 149/200] fix: read_spectrum could not read files with a single
 row

---
 pixell/powspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index dc394f7..8ac52fa 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -146,7 +146,7 @@ def read_spectrum(fname, inds=True, scale=True, expand="diag", ncol=None, ncomp=
 	valid expansion schemes from compressed_order, and will
 	cause the returned array to be cl[ncomp,ncomp,lmax+1]
 	instead."""
-	a = np.atleast_2d(np.loadtxt(fname).T)
+	a = np.loadtxt(fname, ndmin=2).T
 	if inds: a = expand_inds(np.array(a[0],dtype=int), a[1:])
 	if scale: a = scale_spectrum(a, 1)
 	if ncol: a = a[:ncol]
-- 
2.43.0


From 93730d6c6e248a4788c57285ba15edb1082aa240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 150/200] fix: read_camb_scalar always failed with expand=False

---
 pixell/powspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index 8ac52fa..bb6fe4c 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -163,7 +163,7 @@ def read_camb_scalar(fname, inds=True, scale=True, expand=True, ncmb=3):
 	"""Read the information in the camb scalar outputs. This contains
 	the cmb and lensing power spectra, but not their correlation. They
 	are therefore returned as two separate arrays."""
-	if expand: expand = "diag"
+	expand  = "diag" if expand else None
 	ps_cmb  = read_spectrum(fname, inds=inds, scale=scale, expand=expand, ncol=ncmb, ncomp=3)
 	ps_lens = read_phi_spectrum(fname, inds=inds, scale=scale, expand=expand, coloff=ncmb)
 	return ps_cmb, ps_lens
-- 
2.43.0


From f1530e257fa85eff641769bbdf3c18ed4bd92f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:12 +0000
Subject: [PATCH 151/200] fix: enmap.autocrop ignored its factors argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 669e459..48eeffa 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2320,7 +2320,7 @@ def autocrop(m, method="plain", value="auto", margin=0, factors=None, return_inf
 	if method == "plain":
 		goodshape = minshape
 	elif method == "fft":
-		goodshape = np.array([enfft.fft_len(l, direction="above", factors=None) for l in minshape])
+		goodshape = np.array([enfft.fft_len(l, direction="above", factors=factors) for l in minshape])
 	else:
 		raise ValueError("Unknown autocrop method %s!" % method)
 	# Pad if necessary
-- 
2.43.0


From 9f6a4c5b1f8c5517e462f27b7625914ed2875251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:25 +0000
Subject: [PATCH 152/200] fix: ndmap.fillbad discarded its result

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 48eeffa..3075211 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -118,7 +118,7 @@ class ndmap(np.ndarray):
 	def center(self): return center(self.shape,self.wcs)
 	def downgrade(self, factor, op=np.mean, ref=None, off=None): return downgrade(self, factor, op=op, ref=ref, off=off)
 	def upgrade(self, factor,  off=None, oshape=None, inclusive=False): return upgrade(self, factor, off=off, oshape=oshape, inclusive=inclusive)
-	def fillbad(self, val=0, inplace=False): fillbad(self, val=val, inplace=inplace)
+	def fillbad(self, val=0, inplace=False): return fillbad(self, val=val, inplace=inplace)
 	def to_healpix(self, nside=0, order=3, omap=None, chunk=100000, destroy_input=False):
 		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk, destroy_input=destroy_input)
 	def to_flipper(self, omap=None, unpack=True): return to_flipper(self, omap=omap, unpack=unpack)
-- 
2.43.0


From 68b3b75c1955268198552574da87d2b52199a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:03 +0000
Subject: [PATCH 153/200] fix: find_blank_edges always failed for maps with
 several components

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 3075211..a92e413 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2283,14 +2283,14 @@ def find_blank_edges(m, value="auto"):
 	"value" determines which value is considered blank. Can be a float value,
 	or the strings "auto" or "none". Auto will choose the value that maximizes
 	the edge area considered blank. None will result in nothing being consideered blank."""
-	if value == "auto":
+	if isinstance(value, str) and value == "auto":
 		# Find the median value along each edge
 		medians = [np.median(m[...,:,i],-1) for i in [0,-1]] + [np.median(m[...,i,:],-1) for i in [0,-1]]
 		bs = [find_blank_edges(m, med) for med in medians]
 		nb = [np.prod(np.sum(b,0)) for b in bs]
 		blanks = bs[np.argmax(nb)]
 		return blanks
-	elif value == "none":
+	elif isinstance(value, str) and value == "none":
 		# Don't use any values for cropping, so no cropping is done
 		return np.zeros([2,2],dtype=int)
 	else:
-- 
2.43.0


From 5d304cd3012ebcb11d7ef30781c4ee1973b01221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:03 +0000
Subject: [PATCH 154/200] fix: find_blank_edges overlooked blank edges when
 only one axis had them

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index a92e413..7e4ec69 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2287,7 +2287,7 @@ def find_blank_edges(m, value="auto"):
 		# Find the median value along each edge
 		medians = [np.median(m[...,:,i],-1) for i in [0,-1]] + [np.median(m[...,i,:],-1) for i in [0,-1]]
 		bs = [find_blank_edges(m, med) for med in medians]
-		nb = [np.prod(np.sum(b,0)) for b in bs]
+		nb = [np.prod(m.shape[-2:])-np.prod(m.shape[-2:]-np.sum(b,0)) for b in bs]
 		blanks = bs[np.argmax(nb)]
 		return blanks
 	elif isinstance(value, str) and value == "none":
-- 
2.43.0


From 281781bfaa28758e1856a3a2bdcfe269dee9734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:07 +0000
Subject: [PATCH 155/200] fix: UHT.hrand failed or returned wrongly normalized
 noise in flat mode

---
 pixell/uharm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index c40b666..ac66ec7 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -166,8 +166,12 @@ class UHT:
 	def hrand(self, hprof):
 		"""Draw a random realization of the harmonic profile hprof"""
 		if self.mode == "flat":
-			noise = enmap.rand_gauss_harm(self.shape, self.wcs)
-			return enmap.map_mul(enmap.multi_pow(hprof/noise.pixsize(),0.5), noise)
+			# hprof can be [ny,nx] or [ncomp,ncomp,ny,nx]. Our harmonic coefficients are in
+			# physical units, so the variance of each mode is simply hprof
+			hprof = np.asanyarray(hprof)
+			noise = enmap.fft(enmap.rand_gauss(hprof.shape[-3:] if hprof.ndim > 2 else hprof.shape, self.wcs))
+			hroot = enmap.multi_pow(hprof, 0.5) if hprof.ndim > 3 else hprof**0.5
+			return enmap.map_mul(hroot, noise)
 		else:
 			return curvedsky.rand_alm(hprof, lmax=self.lmax)
 	def harm2powspec(self, harm, harm2=None, patch=False):
-- 
2.43.0


From 4d67921971e1997725f5fff18c503f636ad681fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:40 +0000
Subject: [PATCH 156/200] fix: neighborhood_pixboxes always failed for plain
 coordinate systems

---
 pixell/enmap.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 7e4ec69..354872b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -768,20 +768,21 @@ def neighborhood_pixboxes(shape, wcs, poss, r):
 	"""Given a set of positions poss[npos,{dec,ra}] in radians and a distance r in radians,
 	return pixboxes[npos][{from,to},{y,x}] corresponding to the regions within a
 	distance of r from each entry in poss."""
-	if wcsutils.is_plain(wcs):
-		rpix = r/pixsize(shape, wcs)
-		centers = sky2pix(poss.T).T
-		return np.moveaxis([centers-rpix,center+rpix+1],0,1)
+	plain   = wcsutils.is_plain(wcs)
 	poss, r = utils.broadcast_arrays(poss, r, npost=(1,0))
 	res     = np.zeros(poss.shape[:-1]+(2,2))
 	for I in utils.nditer(poss.shape[:-1]):
 		pos, r_ = poss[I], r[I]
 		# Find the coordinate box we need
 		dec, ra = pos[:2]
-		dec1, dec2 = max(dec-r_,-np.pi/2), min(dec+r_,np.pi/2)
-		with utils.nowarn():
-			scale = 1/min(np.cos(dec1), np.cos(dec2))
-		dra        = min(r_*scale, np.pi)
+		if plain:
+			# No curvature or wrapping in a plain coordinate system
+			dec1, dec2, dra = dec-r_, dec+r_, r_
+		else:
+			dec1, dec2 = max(dec-r_,-np.pi/2), min(dec+r_,np.pi/2)
+			with utils.nowarn():
+				scale = 1/min(np.cos(dec1), np.cos(dec2))
+			dra        = min(r_*scale, np.pi)
 		ra1, ra2   = ra-dra, ra+dra
 		box        = np.array([[dec1,ra1],[dec2,ra2]])
 		# And get the corresponding pixbox
-- 
2.43.0


From 2945138d3af757f5f2ccbe3593a284746c6da938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:22 +0000
Subject: [PATCH 157/200] fix: band_geometry2 returned an empty geometry when
 given a single declination

---
 pixell/enmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 354872b..cc3976f 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1601,7 +1601,9 @@ def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="ca
 
 	dims is an alias for pre provided for backwards compatibility"""
 	unit     = utils.degree if deg else 1
-	decrange = (np.zeros(2)+decrange)*unit
+	decrange = np.asarray(decrange)*unit
+	# A single number means a band symmetric around the equator, as in band_geometry
+	if decrange.ndim == 0: decrange = np.array([-decrange,decrange])
 	if decrange.shape != (2,): raise ValueError("decrange must be a number or (dec1,dec2)")
 	pos      = np.array([[decrange[0],np.pi],[decrange[1],-np.pi]])/unit
 	return geometry2(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
-- 
2.43.0


From 82b56c9a076b4a83468d6b0d05dbe901cbf0a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:46 +0000
Subject: [PATCH 158/200] fix: reading an npy map ignored the requested
 selection

---
 pixell/enmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index cc3976f..b3e830e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2946,7 +2946,8 @@ def read_hdf_dtype(fname, address=None):
 def read_npy(fname, hdu=None, sel=None, box=None, pixbox=None, geometry=None, wrap="auto", mode=None, sel_threshold=10e6, wcs=None, delayed=False, address=None, recenter=False):
 	"""Read an enmap from the specified npy file. Only minimal support.
 	No wcs information."""
-	return enmap(np.load(fname), wcs)
+	data = enmap(np.load(fname), wcs)
+	return read_helper(data, sel=sel, box=box, pixbox=pixbox, geometry=geometry, wrap=wrap, mode=mode, delayed=delayed, recenter=recenter)
 
 def fix_python3(s):
 	"""Convert "bytes" to string in python3, while leaving other types unmolested.
-- 
2.43.0


From 509474ea51513d39fa23e3434b1c70c849c9beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:24 +0000
Subject: [PATCH 159/200] fix: project gave slightly wrong values at block
 boundaries for the nearest and linear modes

---
 pixell/enmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index b3e830e..1ad3336 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -616,6 +616,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	# Save memory by looping over rows. This won't work for non-"prefiltered" interpolators
 	if ip and not ip.prefiltered: bsize=100000000
 	# Avoid unneccessary padding for local cases
+	mode, order = utils._ip_get_mode(mode, order)
 	if   ip or (mode == "spline" and order == 0): context = 0
 	elif        mode == "spline" and order == 1 : context = 1
 	# It would have been nice to be able to use padtiles here, but
-- 
2.43.0


From e93c0431cefd25130bc9ab7c9c3d2f151343e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:52 +0000
Subject: [PATCH 160/200] fix: nearest-neighbor project lost pixels at block
 boundaries

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 1ad3336..4e5e464 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -617,8 +617,8 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	if ip and not ip.prefiltered: bsize=100000000
 	# Avoid unneccessary padding for local cases
 	mode, order = utils._ip_get_mode(mode, order)
-	if   ip or (mode == "spline" and order == 0): context = 0
-	elif        mode == "spline" and order == 1 : context = 1
+	if   ip: context = 0
+	elif mode == "spline" and order <= 1: context = 1
 	# It would have been nice to be able to use padtiles here, but
 	# the input and output tilings are very different
 	for i1 in range(0, shape[-2], bsize):
-- 
2.43.0


From 66eb84b56eade003ce42d2762afd1e9edcb69cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:31 +0000
Subject: [PATCH 161/200] fix: full-sky CEA maps were transformed as if they
 were CAR maps

---
 pixell/curvedsky.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 457415c..a0e1669 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1305,6 +1305,8 @@ def get_ducc_geo(wcs, shape=None, tol=1e-6):
 	Returns None if the wcs doesn't correspond to a ducc geometry."""
 	def near(a, b): return np.abs(a-b)<tol
 	def hasoff(val, off): return utils.hasoff(val, off, tol=tol)
+	# All the ducc geometries are equi-spaced in declination
+	if wcsutils.get_proj(wcs) != "car": return None
 	# Check if we need flipping. Ducc assumes increasing phi and theta,
 	# which means increasing ra and decreasing dec. The rest of this
 	# function assumes that things are in ducc order, such that the north
-- 
2.43.0


From 84d7254fc865cb8cd44e92a3bc8beab88c65449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:31 +0000
Subject: [PATCH 162/200] fix: map2healpix with splines always failed when
 given an output map

---
 pixell/reproject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 577ec0d..9c82e9e 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -202,6 +202,7 @@ def map2healpix(imap, nside=None, lmax=None, out=None, rot=None, spin=[0,2], met
 			nside = restrict_nside(((4*np.pi/ires**2)/12)**0.5, nside_mode)
 		out = np.zeros(imap.shape[:-2]+(12*nside**2,), imap.dtype)
 	npix     = out.shape[-1]
+	nside    = curvedsky.npix2nside(npix)
 	opixsize = 4*np.pi/npix
 	# Might not be safe to go all the way to the Nyquist l, but looks that way to my tests.
 	if lmax is None: lmax = lnyq
-- 
2.43.0


From 01882a19dd562fcb387bbbcb6c5501c803b1f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:31 +0000
Subject: [PATCH 163/200] fix: centered_map, enmap_from_healpix_interp and
 ivar_hp_to_cyl always failed

---
 pixell/reproject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 9c82e9e..daaf172 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -1,5 +1,5 @@
 from __future__ import print_function
-import numpy as np
+import numpy as np, warnings
 from scipy import spatial
 from . import wcsutils, utils, enmap, coordinates, fft, curvedsky
 
-- 
2.43.0


From 60d3efd88dc71a0685402e6e4aeed180314a967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:31 +0000
Subject: [PATCH 164/200] fix: distribute could put more than nmax things in a
 cell

---
 pixell/reproject.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index daaf172..23f7413 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -828,11 +828,8 @@ def distribute(N,nmax):
 	Distribute N things into cells as equally as possible such that 
 	no cell has more than nmax things.
 	"""
-	actual_max = int(2.*(nmax+1)/3.)
-	numcells = int(round(N*1./actual_max))
-	each_cell = [actual_max]*(numcells-1)
-	rem = N-sum(each_cell)
-	if rem>0: each_cell.append(rem)
+	numcells  = (N+nmax-1)//nmax
+	each_cell = [N//numcells + (i < N%numcells) for i in range(numcells)]
 	assert sum(each_cell)==N
 	return each_cell
 
-- 
2.43.0


From 77a1a78025db9ab90215a15996c4958186916080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:31 +0000
Subject: [PATCH 165/200] fix: get_pixsize_rect returned the wrong area for
 maps with decreasing declination

---
 pixell/reproject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 23f7413..2619530 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -810,6 +810,7 @@ def get_pixsize_rect(shape, wcs):
 	number of rows in the image. All pixels on the same row have the same area."""
 	ymin = enmap.sky2pix(shape, wcs, [-np.pi / 2, 0])[0]
 	ymax = enmap.sky2pix(shape, wcs, [np.pi / 2, 0])[0]
+	if ymin > ymax: ymin, ymax = ymax, ymin
 	y = np.arange(shape[-2])
 	x = y * 0
 	dec1 = enmap.pix2sky(shape, wcs, [np.maximum(ymin, y - 0.5), x])[0]
-- 
2.43.0


From 2318db2ec2093543e9b79a7c6a1dc4a0c3cfa6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:48 +0000
Subject: [PATCH 166/200] fix: healpix2map with splines and rotation failed
 when all components were scalar

---
 pixell/reproject.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 2619530..bc1bddd 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -353,7 +353,8 @@ def healpix2map(iheal, shape=None, wcs=None, lmax=None, out=None, rot=None, spin
 			if rot is not None and iheal.ndim > 1:
 				# Update the polarization to account for the new coordinate system
 				for s, c1, c2 in enmap.spin_helper(spin, iheal.shape[-2]):
-					vals = enmap.rotate_pol(vals, -pos[2], spin=s, comps=[c1,c2-1], axis=-2)
+					if s != 0:
+						vals = enmap.rotate_pol(vals, -pos[2], spin=s, comps=[c1,c2-1], axis=-2)
 			out[...,i1:i2,:] = vals.reshape(vals.shape[:-1]+(i2-i1,-1))
 	else:
 		raise ValueError("Map reprojection method '%s' not recognized" % str(method))
-- 
2.43.0


From 46bd42c0830553ed469209fc68bdb0fcefb33804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:48 +0000
Subject: [PATCH 167/200] fix: centered_map confused the component axis with a
 pixel axis when finding the center

---
 pixell/reproject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index bc1bddd..26f2900 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -452,7 +452,7 @@ def centered_map(imap, res, box=None, pixbox=None, proj='car', rpix=None,
 		omap = imap
 	sshape, swcs = omap.shape, omap.wcs
 	# central pixel of source geometry
-	dec, ra = enmap.pix2sky(sshape, swcs, (sshape[0] / 2., sshape[1] / 2.))
+	dec, ra = enmap.pix2sky(sshape, swcs, (sshape[-2] / 2., sshape[-1] / 2.))
 	dims = enmap.extent(sshape, swcs)
 	dheight, dwidth = dims
 	if height is None:
-- 
2.43.0


From 7e3744514074ab01b12f820dab734b4aebbb910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:37 +0000
Subject: [PATCH 168/200] fix: fullsky boundary condition in aberration
 mirrored the wrong axis

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 771aca9..e2baec4 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -250,7 +250,7 @@ def interpol_map(imap, pixs, epsilon=None, nthread=None, ydouble=False):
 		# fullsky maps, but makes less sense for partial sky maps
 		dmap = enmap.zeros(imap.shape[:-2]+(2*ny,nx), imap.wcs, imap.dtype)
 		dmap[...,:ny,:] = imap
-		dmap[...,ny:,:] = np.roll(imap[...,::-1], nx//2, -1)
+		dmap[...,ny:,:] = np.roll(imap[...,::-1,:], nx//2, -1)
 	else:
 		dmap = imap
 	periodicity = np.array(dmap.shape[-2:])
-- 
2.43.0


From 384f8064d2f9a5414852a1c59049a5c65924c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:48 +0000
Subject: [PATCH 169/200] fix: aberrating maps not covering the whole sky
 looked up values in the wrong columns

---
 pixell/aberration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index e2baec4..4dcd27e 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -132,8 +132,9 @@ class Aberrator:
 		# enmap.sky2pix, but that's slow. Much faster for our typical projections.
 		# Probably worth it to make overrides.
 		pix = sky2pix(shape, wcs, [odec, ora]).astype(coord_dtype, copy=False)
-		# Make the x pixel 0:nphi, assuming it's at most one period away
-		fast_rewind(pix[1].reshape(-1), rinfo.nphi[0])
+		# Use the copy of the sky closest to the map. The period is that of the whole sky,
+		# which can be longer than the width of the map
+		pix[1] = utils.rewind(pix[1], shape[-1]/2, np.abs(360/wcs.wcs.cdelt[0]))
 		del odec, ora
 		# 5. Evaluate the map at these locations using nufft
 		# Boundary condition
-- 
2.43.0


From c9d4a8768deb72180d9a00ce5bc258dfe512d105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:48 +0000
Subject: [PATCH 170/200] fix: Modulator failed for maps with another data type

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 4dcd27e..e49a829 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -1,4 +1,4 @@
-import numpy as np, numba, ducc0, time
+import numpy as np, numba, ducc0, time, warnings
 from . import coordinates, enmap, utils, curvedsky, wcsutils
 
 beta    = 0.001235
-- 
2.43.0


From 7f6e460d53df8a51654f337640d62ce59d3dd59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:48 +0000
Subject: [PATCH 171/200] fix: lin2T modulation ignored the requested monopole
 temperature

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index e49a829..99b0926 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -351,7 +351,7 @@ def _modulate_lin2T(map, A, T0=utils.T_cmb, freq=150e9, map_unit=1e-6, spin=0, d
 			oval  = iplanck(freq, oval)
 			# Apply modulation
 			oval *= a
-			oval -= utils.T_cmb
+			oval -= T0
 			map[y,x] = oval/map_unit
 
 @numba.njit
-- 
2.43.0


From f2e36a67ebfb0fe4090150433208b7ea63fc6e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:48 +0000
Subject: [PATCH 172/200] fix: modulate_map overwrote its input

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 99b0926..1d4fa69 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -192,7 +192,7 @@ class Modulator:
 		if spin is None: spin = self.spin
 		if map.dtype != self.dtype:
 			warnings.warn("Modulator dtype does not match argument dtype")
-		return apply_modulation(map, self.A, spin=spin, T0=self.T0, freq=self.freq,
+		return apply_modulation(map.copy(), self.A, spin=spin, T0=self.T0, freq=self.freq,
 			map_unit=self.map_unit, mode=self.modulation, dipole=self.dipole)
 
 def calc_boost_1d(z, beta):
-- 
2.43.0


From 5bc1c39a5813b87ea7610ff845889b19fec0332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:49 +0000
Subject: [PATCH 173/200] fix: sim_srcs failed for non-integer nsigma

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index f534511..8941d6f 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -378,7 +378,7 @@ def expand_beam(beam, nsigma=5, rmax=None, nper=400):
 		# Build gaussian beam
 		sigma = beam.reshape(-1)[0]
 		if rmax is None: rmax = sigma*nsigma
-		r = np.linspace(0,rmax,nsigma*nper)
+		r = np.linspace(0,rmax,int(np.ceil(nsigma*nper)))
 		return np.array([r,np.exp(-0.5*(r/sigma)**2)])
 	elif beam.ndim == 2:
 		return beam
-- 
2.43.0


From 7c751ba54dcba0331197d874e58079c37feb21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 174/200] fix: calc_beam_area failed with current scipy, where
 simps is gone

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 7eb3aba..6be19a6 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2330,7 +2330,7 @@ def calc_beam_area(beam_profile):
 	r is in radians, b should have a peak of 1.."""
 	from scipy import integrate
 	r, b = beam_profile
-	return integrate.simps(2*np.pi*r*b,r)
+	return integrate.simpson(2*np.pi*r*b,x=r)
 
 def planck(f, T=T_cmb):
 	"""Return the Planck spectrum at the frequency f and temperature T in Jy/sr"""
-- 
2.43.0


From 3fcd32b38f7aedbed3c250628670a3ca58195de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 175/200] fix: NmatWavelet.matched_filter used multimap without
 importing it

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 4a0c9cf..97cb1fa 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -114,7 +114,7 @@ print("%-15s %8.3f %8.3f %8.3f" % ("lowcorr full emp", flux, dflux, flux/dflux))
 
 import numpy as np, time
 from scipy import ndimage
-from . import enmap, utils, uharm, wavelets, bunch
+from . import enmap, utils, uharm, wavelets, bunch, multimap
 
 # TODO: Figure out the proper way to handle fourier-space
 # linear operators. Currently I have a mess of map2harm, harm2map
-- 
2.43.0


From 8a7c1f9fa67930cd562019517bc351cc70f40cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 176/200] fix: MeasurerMulti used the wrong measurer when the
 catalog did not contain all cases

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 97cb1fa..424b58c 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -938,7 +938,7 @@ class MeasurerMulti(Measurer):
 		for i, ca in enumerate(uvals):
 			subicat = icat[order[edges[i]:edges[i+1]]]
 			if len(subicat) == 0: continue
-			subocat = self.measurers[i](map, subicat).cat
+			subocat = self.measurers[ca](map, subicat).cat
 			cat[order[edges[i]:edges[i+1]]] = subocat
 		return bunch.Bunch(cat=cat)
 
-- 
2.43.0


From 7edc6794fc940de5d61c33dbc2ea3698db7be162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 177/200] fix: FinderMulti and FinderMultiSafe failed without
 scalings

---
 pixell/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 424b58c..11e559f 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -593,7 +593,7 @@ class FinderMulti(Finder):
 		self.nmat     = nmat
 		self.beams    = beams
 		if scalings is None:
-			scalings = np.ones(len(beams))
+			scalings = [np.ones(len(beam)) for beam in beams]
 		self.scalings = scalings
 		self.order    = 3
 		self.r        = 2*utils.arcmin
@@ -699,7 +699,7 @@ class FinderMultiSafe(Finder):
 		self.nmat     = nmat
 		self.beams    = beams
 		if scalings is None:
-			scalings = np.ones(len(beams))
+			scalings = [np.ones(len(beam)) for beam in beams]
 		self.scalings = scalings
 		self.order    = 3
 		self.rs       = np.array([get_central_radius(beam, lknee=2000) for beam in self.beams])
-- 
2.43.0


From a2d4ab196805f47a0beec5e55943f2d360e5e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:32 +0000
Subject: [PATCH 178/200] fix: solve_mapsys failed for multi-component maps
 with current numpy

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 11e559f..6fd1f5e 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -1055,7 +1055,7 @@ def solve_mapsys(kappa, rho):
 		dflux = kappa**-0.5
 	else:
 		# Check if this is slow
-		flux  = enmap.samewcs(np.linalg.solve(kappa.T, rho.T).T, rho)
+		flux  = enmap.samewcs(np.linalg.solve(kappa.T, rho.T[...,None])[...,0].T, rho)
 		dflux = enmap.samewcs(np.einsum("aayx->ayx",np.linalg.inv(kappa.T).T)**0.5, kappa)
 	return flux, dflux
 
-- 
2.43.0


From 79fd53dd8ea2ec8419a43004cac3ffe2049d9041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:14 +0000
Subject: [PATCH 179/200] fix: NmatWavelet.matched_filter phase shifted the
 beam, biasing kappa low by up to 25%

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 6fd1f5e..8ffa0d4 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -494,7 +494,7 @@ class NmatWavelet(Nmat):
 		# Then get kappa
 		fkappa = enmap.zeros(self.wiN.pre + map.shape[-2:], map.wcs, utils.complex_dtype(map.dtype))
 		for i in range(self.wt.nlevel):
-			sub_Q  = self.wt.filters[i]*enmap.resample_fft(beam, self.wt.geometries[i][0], norm=None, corner=True)
+			sub_Q  = self.wt.filters[i]*enmap.resample_fft(beam, self.wt.geometries[i][0], norm=None, corner=False)
 			# Is it right to do this component-wise?
 			sub_Q2 = rop(sub_Q, op=lambda a: a[:,None]*a[None,:])
 			fsmall = sub_Q2*enmap.fft(self.wiN.maps[i], normalize=False)/self.wiN.npixs[i]
-- 
2.43.0


From 426265f2e81f69963956368274e77d9becca3962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:37 +0000
Subject: [PATCH 180/200] fix: matched_filter_constcorr_lowcorr with high_acc
 failed when map has more dimensions than ivar

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 8ffa0d4..1da5727 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -258,7 +258,7 @@ def matched_filter_constcorr_lowcorr(map, B, ivar, iC, uht=None, B2=None, high_a
 		u    = map*0; u[...,pix[0],pix[1]] = 1
 		kappa_ii = (uht.harm2map(uht.hmul(B,uht.harm2map_adjoint(V*uht.map2harm_adjoint(uht.hmul(iC,uht.map2harm(V*uht.harm2map(uht.hmul(B,uht.map2harm(u/pixarea)))))))))/pixarea)[...,pix[0],pix[1]]
 		alpha  = kappa[...,pix[0],pix[1]]/kappa_ii
-		kappa /= alpha[...,None,None]
+		kappa  = kappa/alpha[...,None,None]
 
 	return rho, kappa
 
-- 
2.43.0


From c827762fec6103b556f1bf2b4249d15045b48265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:26 +0000
Subject: [PATCH 181/200] fix: FFTLog used krange as if it were xrange

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 6be19a6..6e281d3 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3062,7 +3062,7 @@ class FFTLog:
 		for power laws. See https://jila.colorado.edu/~ajsh/FFTLog"""
 		if xrange is None and krange is None: raise ValueError("Either xrange xor krange must be given")
 		if xrange is not None and krange is not None: raise ValueError("Either xrange xor krange must be given")
-		if xrange is None: xrange = krange[::-1]
+		if xrange is None: xrange = [1/krange[1],1/krange[0]]
 		self.step = (np.log(xrange[1])-np.log(xrange[0]))/(n-1)
 		self.pad  = pad
 		self.n    = n
-- 
2.43.0


From 9e210529b351007917afa15c37f6439fb06eb235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:53 +0000
Subject: [PATCH 182/200] fix: format_to_glob and format_to_regex ignored
 formats without a name

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 6e281d3..4f353d9 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2686,7 +2686,7 @@ def floor(a):
 	"""Return a rounded to the previous integer, as an integer."""
 	return np.floor(a).astype(int)
 
-format_regex = r"%(\([a-zA-Z]\w*\)|\(\d+)\)?([ +0#-]*)(\d*|\*)(\.\d+|\.\*)?(ll|[lhqL])?(.)"
+format_regex = r"%(\([a-zA-Z]\w*\)|\(\d+\))?([ +0#-]*)(\d*|\*)(\.\d+|\.\*)?(ll|[lhqL])?(.)"
 def format_to_glob(format):
 	"""Given a printf format, construct a glob pattern that will match
 	its outputs. However, since globs are not very powerful, the resulting
-- 
2.43.0


From 396db61228c032126a1f969fc9ded8fd35109664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:23 +0000
Subject: [PATCH 183/200] fix: same_array considered different arrays with the
 same layout to be the same

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4f353d9..53b40f9 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1158,7 +1158,7 @@ def hasoff(val, off, tol=1e-6):
 
 def same_array(a, b):
 	"""Returns true if a and b are the same array"""
-	return a.shape == b.shape and a.dtype == b.dtype and repr(a.data) == repr(b.data) and a.strides == b.strides
+	return a.shape == b.shape and a.dtype == b.dtype and a.__array_interface__["data"][0] == b.__array_interface__["data"][0] and a.strides == b.strides
 
 def fix_zero_strides(a):
 	"""Given an array a, return the same array with any zero-stride along
-- 
2.43.0


From 16bf8e5a9babe6f59e856125729f9e4727427988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:55 +0000
Subject: [PATCH 184/200] fix: colorize: saturated values overflowed to black
 in direct rgb mode

The values were converted to 32-bit integers before being capped, so values
above about 8.4 million wrapped around and ended up as 0 instead of 255.
---
 fortran/colorize.f90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fortran/colorize.f90 b/fortran/colorize.f90
index 7dca1be..3638f32 100644
--- a/fortran/colorize.f90
+++ b/fortran/colorize.f90
@@ -43,7 +43,8 @@ subroutine direct(a, res)
 		if(v .ne. v) then
 			res(:,i) = 0
 		else
-			res(1:size(a,2),i)  = min(max(0,nint(a(i,:)*256)),255)
+			! Cap before converting to integer to avoid overflow for saturated values
+			res(1:size(a,2),i)  = min(nint(min(max(0d0,a(i,:)),1d0)*256),255)
 			res(size(a,2)+1:,i) = 255
 		end if
 	end do
@@ -79,7 +80,7 @@ subroutine direct_colorcap(a, res)
 			res(1:3,i)  = min(max(0,nint(color*256)),255)
 			! Alpha channel handled separately. We copy it from a if available,
 			! otherwise set it to 255
-			res(4:nc,i) = min(max(0,nint(a(i,4:nc)*256)),255)
+			res(4:nc,i) = min(nint(min(max(0d0,a(i,4:nc)),1d0)*256),255)
 			res(nc+1:4,i) = 255
 		end if
 	end do
-- 
2.43.0


From 16941911409d7aae5df4c192166d766ef9258ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:55 +0000
Subject: [PATCH 185/200] fix: colorize: data race between threads in
 direct_colorcap

The per-pixel temporaries hue, amp and color were shared between the threads,
so pixels got each other's colors.
---
 fortran/colorize.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/colorize.f90 b/fortran/colorize.f90
index 3638f32..9d43ce4 100644
--- a/fortran/colorize.f90
+++ b/fortran/colorize.f90
@@ -62,7 +62,7 @@ subroutine direct_colorcap(a, res)
 	real(8) :: v, hue(3), amp, color(3)
 	integer :: i, nc
 	nc = size(a,2)
-	!$omp parallel do private(i,v)
+	!$omp parallel do private(i,v,hue,amp,color)
 	do i = 1, size(a,1)
 		v = a(i,1)+a(i,2)+a(i,3)
 		if(v .ne. v) then
-- 
2.43.0


From ee4b5cd26fce56223553a609c5f9112e4f78d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:55 +0000
Subject: [PATCH 186/200] fix: colorize: make direct mode work with the python
 driver

The values were assigned with the wrong axis order, which failed, and the
result was not uint8 like for the other driver and mode.
---
 pixell/colorize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/colorize.py b/pixell/colorize.py
index e987e59..f24f5d6 100644
--- a/pixell/colorize.py
+++ b/pixell/colorize.py
@@ -140,10 +140,10 @@ def colorize_scalar_python(a, desc):
 
 def colorize_direct_python(a, desc):
 	nc  = a.shape[0]
-	res = np.empty((a.shape[1],4),dtype=np.uint16)
+	res = np.empty((a.shape[1],4),dtype=np.uint8)
 	good = np.isfinite(a[0])
 	res[~good] = 0
-	res[good,:nc] = np.maximum(0,np.minimum(255,a[:nc,good]*256))
+	res[good,:nc] = np.maximum(0,np.minimum(255,np.round(a[:nc,good].T*256)))
 	res[good,nc:] = 255
 	return res
 
-- 
2.43.0


From d81da66bb1b7769fff60d0305f8b33455ec50251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:56 +0000
Subject: [PATCH 187/200] fix: enplot: use the right color ranges from the
 second rgb image on

The index into the color ranges was advanced by one per image, not by the
number of components in it.
---
 pixell/enplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index df2d04d..17d49e2 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -187,7 +187,7 @@ def plot_iterator(*arglist, **kwargs):
 				yield bunch.Bunch(img=figure, name=oname, type="mpl", dpi=args.mpl_dpi, printer=subprint, **oinfo)
 			# Progress report
 			printer.write("\r%s %5d/%d" % (iname, i+1,ncomp), 2, exact=True, newline=False)
-			crange_ind += 1
+			crange_ind += ngroup
 		printer.write("",    2, exact=True)
 		printer.write(iname, 1, exact=True)
 
-- 
2.43.0


From 689782bf4cdda2ae66ff1f29270d22f2a86597dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:37 +0000
Subject: [PATCH 188/200] fix: enplot: make uniformly spaced contours work

The color range is an array with one column per field, which can't be
converted to an int with recent versions of numpy.
---
 pixell/enplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index 17d49e2..77343cd 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -718,6 +718,8 @@ def calc_contours(crange, args):
 	step: number (explicit), -number (relative)
 	"""
 	if args.contours is None: return None
+	# The contours are those of the first field
+	crange = np.reshape(crange, (2,-1))[:,0]
 	def setup_uniform(vals):
 		if len(vals) == 1:
 			base, step = 0, vals[0]
-- 
2.43.0


From 4051681531e24c6bfe250729b2a5fd4b80ac154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:44 +0000
Subject: [PATCH 189/200] fix: enplot: let -g in an argument string turn off
 the grid

The option toggles the grid by counting up from its default of 1, but argument
strings are parsed without defaults, so it set the grid option to 1, which is on.
---
 pixell/enplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index 77343cd..b51da5e 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -110,6 +110,8 @@ def plot_iterator(*arglist, **kwargs):
 		if isinstance(arg, basestring):
 			parsed = parse_args(arg, noglob=noglob, nodef=True)
 			imaps += parsed.ifiles
+			# The grid option is a toggle, so it's relative to the current value
+			if "grid" in parsed: parsed.grid += args.grid
 			args.update(parsed)
 		else:
 			imaps.append(arg)
-- 
2.43.0


From 0bed2827195b64b68c7a8e56a04412f6e7680597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:49 +0000
Subject: [PATCH 190/200] fix: device: count all allocations in the size of a
 memory pool

Memory handed out from an existing arena wasn't counted, so the capacity stayed
too small after the needs grew, and reset() never consolidated the pool into an
arena that was big enough.
---
 pixell/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/device.py b/pixell/device.py
index 02c63d8..aa47e6b 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -138,11 +138,11 @@ class Mempool:
 			self.arenas.append(self.allocator.alloc(n))
 			buf = self.arenas[-1][0:n]
 			self.pos   = effsize
-			self.size += effsize
 		else:
 			# We have room. Parsel out some more
 			buf       = self.arenas[-1][self.pos:self.pos+n]
 			self.pos += effsize
+		self.size    += effsize
 		self.capacity = max(self.capacity, self.size)
 		return buf
 	def totsize(self): return sum([arena.size for arena in self.arenas])
-- 
2.43.0


From 9b23f4c80aa40ef299c4761d0b81fdc4600555d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:49 +0000
Subject: [PATCH 191/200] fix: device: ArrayMultipool.size failed because the
 size of a pool is not a function

---
 pixell/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/device.py b/pixell/device.py
index aa47e6b..5da4161 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -252,7 +252,7 @@ class ArrayMultipool:
 				self.pools[name] = self.factory(name=name)
 			pools.append(self.pools[name])
 		return pools
-	def size(self): return sum([pool.size() for name, pool in self.pools.items()])
+	def size(self): return sum([pool.size for name, pool in self.pools.items()])
 	def totsize(self): return sum([pool.totsize() for name, pool in self.pools.items()])
 	def free(self):
 		for name in self.pools:
-- 
2.43.0


From 97b6b6efff6612211056e728d816730713cc57c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:49 +0000
Subject: [PATCH 192/200] fix: bench: make show respect its tfun argument

---
 pixell/bench.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/bench.py b/pixell/bench.py
index cd35988..f31dca9 100644
--- a/pixell/bench.py
+++ b/pixell/bench.py
@@ -69,7 +69,7 @@ class Bench:
 	@contextmanager
 	def show(self, name, tfun=None):
 		try:
-			with self.mark(name, tfun=None):
+			with self.mark(name, tfun=tfun):
 				yield
 		finally:
 			self.print(name)
-- 
2.43.0


From 9a9a734f1c3a1183f146b14c890f3d5e3f33b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:42 +0000
Subject: [PATCH 193/200] fix: pointsrcs: make read_nemo work for catalogs with
 a single source

---
 pixell/pointsrcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 8941d6f..879a85f 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -509,10 +509,10 @@ def read(fname, format="auto"):
 def read_nemo(fname):
 	"""Reads the nemo ascii catalog format, and returns it as a recarray."""
 	idtype = [("name","2S64"),("ra","d"),("dec","d"),("snr","d"),("npix","i"),("detfrac","d"),("template","S32"),("glat","d"),("I","d"), ("dI","d")]
-	try: icat = np.loadtxt(fname, dtype=idtype)
+	try: icat = np.loadtxt(fname, dtype=idtype, ndmin=1)
 	except (ValueError, IndexError) as e:
 		idtype = [("name","2S64"),("ra","d"),("dec","d"),("snr","d"),("npix","i"),("template","S32"),("glat","d"),("I","d"), ("dI","d")]
-		try: icat = np.loadtxt(fname, dtype=idtype)
+		try: icat = np.loadtxt(fname, dtype=idtype, ndmin=1)
 		except (ValueError, IndexError) as e:
 			raise IOError(e.args[0])
 	odtype = [("name","S64"),("ra","d"),("dec","d"),("snr","d"),("I","d"),("dI","d"),("npix","i"),("template","S32"),("glat","d")]
-- 
2.43.0


From 5e6fc05243d5c87edefa0de33fea6ead837de61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:42 +0000
Subject: [PATCH 194/200] fix: pointsrcs: let read find the format of generic
 fits catalogs

Trying them as dory catalogs raises an AttributeError for the missing columns,
which stopped the search before the right format was tried.
---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 879a85f..69225d1 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -503,7 +503,7 @@ def read(fname, format="auto"):
 			elif f == "nemo":     return read_nemo(fname)
 			elif f == "simple":   return read_simple(fname)
 			else: raise ValueError("Unrecognized point source format '%s' for file '%s'" % (f, fname))
-		except (ValueError, IOError, OSError) as e: pass
+		except (ValueError, IOError, OSError, AttributeError) as e: pass
 	raise IOError("Unable to read point source file '%s' with format '%s'" % (fname, f))
 
 def read_nemo(fname):
-- 
2.43.0


From e1f93af3fe401a708788b4bf957c5f51905dca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:42 +0000
Subject: [PATCH 195/200] fix: pointsrcs: make read_fits work for catalogs with
 vector columns

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 69225d1..c30b254 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -635,7 +635,7 @@ def read_sauron_txt(ifile, ncomp=3):
 	return ocat
 
 def translate_dtype_keys(d, translation):
-	descr = [(name if name not in translation else translation[name], char) for (name, char) in d.dtype.descr]
+	descr = [(translation.get(entry[0], entry[0]),)+tuple(entry[1:]) for entry in d.dtype.descr]
 	return np.asarray(d, descr)
 
 def src2param(srcs):
-- 
2.43.0


From 06ca624dfb768ee71795ba587d1573e9edf43a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 196/200] fix: medmean2 used blocks of zero length for short
 arrays

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 53b40f9..65b7078 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -370,7 +370,7 @@ def medmean2(x, axis=None, frac=0.1, bsize=None):
 	if axis is None:
 		x    = x.reshape(-1)
 		axis = 0
-	if bsize is None: bsize = nint(x.shape[axis]*frac)
+	if bsize is None: bsize = max(1,nint(x.shape[axis]*frac))
 	means = block_reduce(x, bsize, axis=axis)
 	return np.median(means, axis=axis)
 
-- 
2.43.0


From d3c3a43d60172f6706746a7097a9eb69c91341d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 197/200] fix: date2ctime depended on the local time zone and
 dropped fractions of a second

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 65b7078..f5d0079 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1269,7 +1269,7 @@ def nodiag(A):
 def date2ctime(dstr):
 	import dateutil.parser
 	d = dateutil.parser.parse(dstr, ignoretz=True, tzinfos=0)
-	return time.mktime(d.timetuple())
+	return (d-datetime.datetime(1970,1,1)).total_seconds()
 
 def bounding_box(boxes):
 	"""Compute bounding box for a set of boxes [:,2,:], or a
-- 
2.43.0


From 8550c792be446e33a2218f82162d067dbcefc626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 198/200] fix: format_sexa and jname lost the sign of angles
 between -1 and 0 degrees

---
 pixell/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index f5d0079..e280a22 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3179,14 +3179,15 @@ def from_sexa(sign, deg, min, sec):
 	"""Reconstruct a decimal number from the sexagesimal representation."""
 	return sign*(deg+min/60+sec/3600)
 
-def format_sexa(x, fmt="%(deg)+03d:%(min)02d:%(sec)06.2f"):
+def format_sexa(x, fmt="%(deg)+03.0f:%(min)02d:%(sec)06.2f"):
 	sign, deg, min, sec = to_sexa(x)
-	return fmt % {"deg": sign*deg, "min": min, "sec": sec}
+	# deg is a float so that the sign survives for deg = -0
+	return fmt % {"deg": sign*float(deg), "min": min, "sec": sec}
 
-def jname(ra, dec, fmt="J%(ra_H)02d%(ra_M)02d%(ra_S)02d%(dec_d)+02d%(dec_m)02d%(dec_s)02d", tag=None, sep=" "):
+def jname(ra, dec, fmt="J%(ra_H)02d%(ra_M)02d%(ra_S)02d%(dec_d)+02.0f%(dec_m)02d%(dec_s)02d", tag=None, sep=" "):
 	"""Build a systematic object name for the given ra/dec in degrees. The format
 	is specified using the format string fmt. The default format string is
-	'J%(ra_H)02d%(ra_M)02d%(ra_S)02d%(dec_d)+02d%(dec_m)02d%(dec_s)02d'. This is
+	'J%(ra_H)02d%(ra_M)02d%(ra_S)02d%(dec_d)+02.0f%(dec_m)02d%(dec_s)02d'. This is
 	not fully compliant with the IAU specification, but it's what is used in ACT.
 	Formatting uses standard python string interpolation. The available variables are
 	ra:  right ascension in decimal degrees
@@ -3208,8 +3209,8 @@ def jname(ra, dec, fmt="J%(ra_H)02d%(ra_M)02d%(ra_S)02d%(dec_d)+02d%(dec_m)02d%(
 		"ra": ra, "dec": dec,
 		"ra_d" :rad[0]*rad[1], "ra_m" : rad[2], "ra_s" : rad[3],
 		"ra_H" :rah[0]*rah[1], "ra_M" : rah[2], "ra_S" : rah[3],
-		"dec_d":ded[0]*ded[1], "dec_m": ded[2], "dec_s": ded[3],
-		"dec_H":deh[0]*deh[1], "dec_M": deh[2], "dec_S": deh[3]}
+		"dec_d":ded[0]*float(ded[1]), "dec_m": ded[2], "dec_s": ded[3],
+		"dec_H":deh[0]*float(deh[1]), "dec_M": deh[2], "dec_S": deh[3]}
 
 def ang2chord(ang):
 	"""Converts from the angle between two points on a circle to the length of the chord between them"""
-- 
2.43.0


From 12428f221152c52af8768abfe488aaa2fc84f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:25 +0000
Subject: [PATCH 199/200] fix: chararray_slice failed for some slices with a
 step

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e280a22..c13d8f1 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3149,7 +3149,7 @@ def encode_array_if_necessary(arr):
 
 def chararray_slice(a, sel):
 	b = a.view((a.dtype.kind,1)).reshape(len(a),-1)[:,sel]
-	return b.reshape(-1).view((a.dtype.kind,b.shape[1]))
+	return np.ascontiguousarray(b.reshape(-1)).view((a.dtype.kind,b.shape[1]))
 
 ### These functions deal with the conversion between decimal and sexagesimal ###
 
-- 
2.43.0


From bbd09fd729b90c8318a78ef17902744f6ee16e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:33 +0000
Subject: [PATCH 200/200] fix: enplot: rectangle annotations narrower than
 their lines made plotting fail

---
 pixell/enplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index b51da5e..b06aae2 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -827,6 +827,7 @@ def draw_annotations(map, annots, args):
 				if x2 < x1: x1,x2 = x2,x1
 				if y2 < y1: y1,y2 = y2,y1
 				for i in range(width):
+					if x2-i < x1+i or y2-i < y1+i: break
 					draw.rectangle((x1+i,y1+i,x2-i,y2-i), outline=color)
 		elif atype in ["t", "text"]:
 			x,y  = topix(annot[1:5])
-- 
2.43.0

