From de375d41c575dcbc1ab7cd53f29bc26eec105567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:22 +0000
Subject: [PATCH 001/151] fix: out-of-range and empty slices give geometries
 that match the data

utils.expand_slice did not cap out-of-range indices the way python slicing
does, so e.g. map[-100:] or map[100::-1] returned the right pixels with a
wrong wcs, and slice_geometry returned negative shapes for empty slices.
---
 pixell/enmap.py |  2 +-
 pixell/utils.py | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c3767b7..ec41012 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -277,7 +277,7 @@ def slice_geometry(shape, wcs, sel, nowrap=False):
 		wcs.wcs.crpix[j] /= s.step
 		wcs.wcs.cdelt[j] *= s.step
 		wcs.wcs.crpix[j] += 0.5
-		oshape[i] = (s.stop-s.start+s.step-np.sign(s.step))//s.step
+		oshape[i] = max(0,(s.stop-s.start+s.step-np.sign(s.step))//s.step)
 	# Convert this is a bit cumbersome, but ensures we get a tuple of
 	# plain python ints instead of numpy.int64s
 	oshape = tuple([int(a) for a in oshape])
diff --git a/pixell/utils.py b/pixell/utils.py
index a647e0a..4947ebf 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2836,14 +2836,13 @@ def expand_slice(sel, n, nowrap=False):
 	After this, all entries of the slice are guaranteed to be present in their final form.
 	Note, doing this twice may result in odd results, so don't send the result of this
 	into functions that expect an unexpanded slice. Might be replacable with slice.indices()."""
-	step = sel.step or 1
-	def cycle(i,n):
-		if nowrap: return i
-		else: return min(i,n) if i >= 0 else n+i
-	def default(a, val): return a if a is not None else val
+	step = 1 if sel.step is None else sel.step
 	if step == 0: raise ValueError("slice step cannot be zero")
-	if step > 0: return slice(cycle(default(sel.start,0),n),cycle(default(sel.stop,n),n),step)
-	else: return slice(cycle(default(sel.start,n-1), n), cycle(sel.stop,n) if sel.stop is not None else -1, step)
+	# Same rules as normal python slicing, including capping of out-of-range values
+	if not nowrap: return slice(*slice(sel.start, sel.stop, step).indices(n))
+	def default(a, val): return a if a is not None else val
+	if step > 0: return slice(default(sel.start,0),   default(sel.stop,n),  step)
+	else:        return slice(default(sel.start,n-1), default(sel.stop,-1), step)
 
 def split_slice(sel, ndims):
 	"""Splits a numpy-compatible slice "sel" into sub-slices sub[:], such that
-- 
2.43.0


From a58fac698b1d7f3737afd7035a84b80252d6c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:06 +0000
Subject: [PATCH 002/151] fix: strided boxes that start outside the map, and
 caller's box modified

---
 pixell/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4947ebf..1c7fa10 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1692,8 +1692,9 @@ def sbox_fix0(sbox):
 	return sbox
 
 def sbox_fix(sbox):
-	# Ensure that we have a step, setting it to 1 if missing
-	sbox = sbox_fix0(sbox)
+	# Ensure that we have a step, setting it to 1 if missing.
+	# Copy to avoid modifying the caller's array
+	sbox = np.array(sbox_fix0(sbox))
 	# Make sure our end point is a whole multiple of the step
 	# from the start
 	sbox[...,1] = sbox[...,0] + sbox_size(sbox)*sbox[...,2]
@@ -1747,7 +1748,8 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			boxes_1d = []
 			i = 0
 			while ibox[1] > 0:
-				npre = max((-ibox[0])//ibox[2],0)
+				# Number of samples before the start of the array (rounded up)
+				npre = max(-(ibox[0]//ibox[2]),0)
 				# ibox slice assuming all of the logical ibox is available
 				isub = sbox_fix([ibox[0]+npre*ibox[2],min(ibox[1],w),ibox[2]])
 				nsub = sbox_size(isub)
@@ -1768,8 +1770,8 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			# upwards and downwards capping. Find the number of samples to
 			# crop on each side
 			if c:
-				npre  = max((-ibox[0])//ibox[2],0)
-				npost = max((ibox[1]-ibox[2]-(c-1))//ibox[2],0)
+				npre  = max(-(ibox[0]//ibox[2]),0)
+				npost = max(-((c-1-(ibox[1]-ibox[2]))//ibox[2]),0)
 			else: npre, npost = 0, 0
 			# Don't produce a slice if it would be empty
 			if npre + npost < ilen:
-- 
2.43.0


From ba9d9cb2c00f4de36f9cb03d5f747bfb3df4b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:06 +0000
Subject: [PATCH 003/151] fix: sky boxes given in reverse order select the same
 pixels as in forward order

subinds rounded the bounds of a flipped box as if it were unflipped, so that the
result was shifted by one pixel (and inclusive/exclusive were swapped).
---
 pixell/enmap.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index ec41012..4841afa 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -242,9 +242,10 @@ def subinds(shape, wcs, box, mode=None, cap=True, noflip=False, epsilon=1e-4):
 	# Translate the box to pixels
 	bpix = skybox2pixbox(shape, wcs, box, include_direction=True)
 	bpix[:2] += epsilon
-	if noflip:
-		for b in bpix.T:
-			if b[2] < 0: b[:] = [b[1],b[0],-b[2]]
+	# Round with the bounds in increasing order, so that a box selects the same
+	# pixels regardless of the direction it's specified in
+	flip = bpix[2] < 0
+	bpix[:2,flip] = bpix[1::-1,flip]
 	if   mode == "round": bpix = np.round(bpix)
 	elif mode == "floor": bpix = np.floor(bpix)
 	elif mode == "ceil":  bpix = np.ceil(bpix)
@@ -252,6 +253,9 @@ def subinds(shape, wcs, box, mode=None, cap=True, noflip=False, epsilon=1e-4):
 	elif mode == "exclusive": bpix = [np.ceil (bpix[0]),np.floor(bpix[1]), bpix[2]]
 	else: raise ValueError("Unrecognized mode '%s' in subinds" % str(mode))
 	bpix = np.array(bpix, int)
+	# [a:b:1] covers the same pixels as [b-1:a-1:-1]
+	if noflip: bpix[2]       = np.abs(bpix[2])
+	else:      bpix[:2,flip] = bpix[1::-1,flip]-1
 	# A pixel goes from [i1-0.5:i2+0.5] with round(+eps) this becomes [i1:i2+1]
 	# We therefore don't need to add 1 to get a proper slice
 	if cap:
-- 
2.43.0


From dd95c03348b7a8495a2e710b5dc2e9d7e9d2f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:06 +0000
Subject: [PATCH 004/151] fix: enmap.insert ignored its wrap, cval and iwcs
 arguments

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 4841afa..602ceff 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -708,7 +708,7 @@ def extract_pixbox(map, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0,
 def insert(omap, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
 	"""Insert imap into omap based on their world coordinate systems, which
 	must be compatible. Essentially the reverse of extract."""
-	extract(omap, imap.shape, imap.wcs, imap, wrap="auto", op=op, cval=0, iwcs=None, reverse=True)
+	extract(omap, imap.shape, imap.wcs, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=True)
 	return omap
 
 def insert_at(omap, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
-- 
2.43.0


From 1b9ae5983e84b051309198d335baf471d2723b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:06 +0000
Subject: [PATCH 005/151] fix: enmap.overlap modified the pixbox it was given

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 602ceff..5992fa9 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -738,7 +738,7 @@ def overlap(shape, wcs, shape2_or_pixbox, wcs2=None, wrap="auto"):
 	# Is it a shape or a pixbox
 	tmp = np.asarray(shape2_or_pixbox)
 	if   tmp.ndim == 1: pixbox = pixbox_of(wcs, shape2_or_pixbox, wcs2)
-	elif tmp.ndim == 2: pixbox = shape2_or_pixbox
+	elif tmp.ndim == 2: pixbox = np.array(shape2_or_pixbox)
 	else: raise ValueError("3rd argument of overlap should be an enmap, a shape tuple or a pixbox")
 	# Handle wrapping
 	nphi = utils.nint(360/np.abs(wcs.wcs.cdelt[0]))
-- 
2.43.0


From 58cb2864c99c6d0196de51e9628cc404756d3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:06 +0000
Subject: [PATCH 006/151] fix: crop_geometry with a box given in the direction
 opposite to the pixels

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 5992fa9..18579f2 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2057,7 +2057,7 @@ def crop_geometry(shape, wcs, box=None, pixbox=None, oshape=None):
 		box    = np.asarray(box)
 		# Allow box and pixbox to be 1d, in which case we will
 		# crop around a central point
-		if box.ndim == 2: pixbox = subinds(shape, wcs, box)
+		if box.ndim == 2: pixbox = subinds(shape, wcs, box, noflip=True)[:2]
 		else:             pixbox = utils.nint(sky2pix(shape, wcs, box))
 	# We assume that the box selects pixel edges, so any pixel that is
 	# even partially inside the box should be included. This means that
-- 
2.43.0


From e949d13c418f788de3cd8ba772a410f6d8d7cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:48 +0000
Subject: [PATCH 007/151] fix: band_geometry refused declination ranges that
 reach the north pole

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 18579f2..2dff388 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1723,7 +1723,7 @@ def band_geometry(dec_cut, res=None, shape=None, dims=(), proj="car", variant="f
 	Ny,_ = ishape[-2:]
 	start = max(int(np.round(start)),0); stop = min(int(np.round(stop)),Ny)
 	assert start>=0 and start<Ny
-	assert stop>=0 and stop<Ny
+	assert stop>=0 and stop<=Ny
 	return slice_geometry(ishape,iwcs,np.s_[start:stop,:])
 
 def thumbnail_geometry(r=None, res=None, shape=None, dims=(), proj="tan"):
-- 
2.43.0


From e2dfe849b7be8dcc19e3105fbb5e4188072b0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:12 +0000
Subject: [PATCH 008/151] fix: pixshapebounds mixed up height and width for
 non-separable geometries

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 2dff388..9b1e688 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1196,7 +1196,7 @@ def pixshapebounds(shape, wcs, separable="auto"):
 	if separable == True or (separable == "auto" and wcsutils.is_separable(wcs)):
 		return utils.minmax(pixshapes_cyl(shape, wcs),1)
 	else:
-		return utils.minmax(pixshapemap(shape, wcs))
+		return utils.minmax(pixshapemap(shape, wcs),(-2,-1))
 
 def lmap(shape, wcs, oversample=1, method="auto"):
 	"""Return a map of all the wavenumbers in the fourier transform
-- 
2.43.0


From 9ba9f12e7324b7dd1636eb43cf5cb9c4599163e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:28 +0000
Subject: [PATCH 009/151] fix: enmap.pad(wrap=True) failed for zero padding and
 was wrong for padding wider than the map

---
 pixell/enmap.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 9b1e688..c7fa32b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2262,10 +2262,9 @@ def pad(emap, pix, return_slice=False, wrap=False, value=0):
 	mslice = (Ellipsis,slice(pix[0,0],res.shape[-2]-pix[1,0]),slice(pix[0,1],res.shape[-1]-pix[1,1]))
 	res[mslice] = emap
 	if wrap:
-		res[...,:pix[0,0],:]  = res[...,-pix[0,0]-pix[1,0]:-pix[1,0],:]
-		res[...,-pix[1,0]:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
-		res[...,:,:pix[0,1]]  = res[...,:,-pix[0,1]-pix[1,1]:-pix[1,1]]
-		res[...,:,-pix[1,1]:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
+		iy = (np.arange(res.shape[-2])-pix[0,0])%emap.shape[-2]
+		ix = (np.arange(res.shape[-1])-pix[0,1])%emap.shape[-1]
+		res[:] = np.asarray(emap)[...,iy[:,None],ix[None,:]]
 	return (res,mslice) if return_slice else res
 
 def find_blank_edges(m, value="auto"):
-- 
2.43.0


From 5c70e70a2e94a707b899dba22c9dd6034cd04ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:28 +0000
Subject: [PATCH 010/151] fix: Geometry(map), Geometry.downgrade and leading
 dimensions in downgrade_geometry

---
 pixell/enmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c7fa32b..b7871e6 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -305,7 +305,7 @@ class Geometry:
 	def __init__(self, shape, wcs=None):
 		try: self.shape, self.wcs = tuple(shape.shape), shape.wcs
 		except AttributeError: self.shape, self.wcs = tuple(shape), wcs
-		assert wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
+		assert self.wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
 	@property
 	def npix(self): return self.shape[-2]*self.shape[-1]
 	# Make it behave a bit like a tuple, so we can use it interchangably with a shape, wcs pair
@@ -329,7 +329,7 @@ class Geometry:
 		shape, wcs = scale_geometry(self.shape, self.wcs, scale)
 		return Geometry(shape, wcs)
 	def downgrade(self, factor, op=np.mean):
-		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor, op=op)
+		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor)
 		return Geometry(shape, wcs)
 	def copy(self):
 		return Geometry(tuple(self.shape), self.wcs.deepcopy())
@@ -2045,7 +2045,7 @@ def downgrade_geometry(shape, wcs, factor):
 	to scale_geometry, but truncates the same way as downgrade, and only
 	supports integer factors."""
 	factor = np.full(2, 1, dtype=int)*factor
-	oshape = tuple(shape[-2:]//factor)
+	oshape = tuple(shape[:-2])+tuple(shape[-2:]//factor)
 	owcs   = wcsutils.scale(wcs, 1.0/factor, rowmajor=True)
 	return oshape, owcs
 
-- 
2.43.0


From 5555aa5df69b2703098aaced395716be29757591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:24 +0000
Subject: [PATCH 011/151] fix: enmap.upgrade(inclusive=True) raised TypeError

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1c7fa10..d241a55 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2227,7 +2227,7 @@ def block_expand(a, bsize, osize, axis=-1, off=0, op="nearest", inclusive=True):
 	axis  %= a.ndim
 	if op == "nearest":
 		if inclusive:
-			pre, mid, tail = np.split(a, [off>0,(off>0)+nwhole], axis)
+			pre, mid, tail = np.split(a, [int(off>0),int(off>0)+nwhole], axis)
 			parts = []
 			if pre.size > 0: parts.append(np.repeat(pre, off,   axis))
 			if mid.size > 0: parts.append(np.repeat(mid, bsize, axis))
-- 
2.43.0


From df4375b3a1425658bb15108eabe43238c59cec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:08 +0000
Subject: [PATCH 012/151] fix: enmap.contains ignored half of the first pixels
 and included half a pixel beyond the last

---
 pixell/enmap.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index b7871e6..acb9ad1 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -558,8 +558,13 @@ def pixbox2skybox(shape, wcs, pixbox):
 def contains(shape, wcs, pos, unit="coord"):
 	"""For the points with coordinates pos[{dec,ra},...] return whether
 	each is inside the geometry given by shape, wcs"""
-	if unit == "coord": pix = sky2pix(shape, wcs, pos)
-	else:               pix = pos
+	# Pixel i covers the interval [i-0.5,i+0.5), so count from the corner of the first pixel
+	if unit == "coord":
+		pix = sky2pix(shape, wcs, pos, corner=True)
+		# Handle points in the half pixel next to the seam of maps that cover all longitudes
+		if not wcsutils.is_plain(wcs):
+			pix[1] = utils.rewind(pix[1], shape[-1]/2, np.abs(360./wcs.wcs.cdelt[0]))
+	else: pix = np.asarray(pos)+0.5
 	return np.all((pix>=0)&(pix.T<shape[-2:]).T,0)
 
 def project(map, shape, wcs, mode="spline", order=3, border="constant",
-- 
2.43.0


From dcf5bd5934b85cd4fafbe1d7c5d6dad4cb72433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:00 +0000
Subject: [PATCH 013/151] fix: ndmap.fillbad threw away its result

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index acb9ad1..6151dc4 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -118,7 +118,7 @@ class ndmap(np.ndarray):
 	def center(self): return center(self.shape,self.wcs)
 	def downgrade(self, factor, op=np.mean, ref=None, off=None): return downgrade(self, factor, op=op, ref=ref, off=off)
 	def upgrade(self, factor,  off=None, oshape=None, inclusive=False): return upgrade(self, factor, off=off, oshape=oshape, inclusive=inclusive)
-	def fillbad(self, val=0, inplace=False): fillbad(self, val=val, inplace=inplace)
+	def fillbad(self, val=0, inplace=False): return fillbad(self, val=val, inplace=inplace)
 	def to_healpix(self, nside=0, order=3, omap=None, chunk=100000, destroy_input=False):
 		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk, destroy_input=destroy_input)
 	def to_flipper(self, omap=None, unpack=True): return to_flipper(self, omap=omap, unpack=unpack)
-- 
2.43.0


From 1b75f8d9b04e358e89b5fd1ed820a95e59bace8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:00 +0000
Subject: [PATCH 014/151] fix: copy.copy and copy.deepcopy of a map shared its
 wcs object with the original

---
 pixell/enmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 6151dc4..fdfe97e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -64,6 +64,8 @@ class ndmap(np.ndarray):
 		self.wcs = wcs
 	def copy(self, order='K'):
 		return ndmap(np.copy(self,order), self.wcs)
+	def __copy__(self): return self.copy()
+	def __deepcopy__(self, memo): return self.copy()
 	def sky2pix(self, coords, safe=True, corner=False): return sky2pix(self.shape, self.wcs, coords, safe, corner)
 	def pix2sky(self, pix,    safe=True, corner=False): return pix2sky(self.shape, self.wcs, pix,    safe, corner)
 	def l2pix(self, ls):  return l2pix(self.shape, self.wcs, ls)
-- 
2.43.0


From 97cf500b30dfeb583b3376ce242fc93087e72964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:09 +0000
Subject: [PATCH 015/151] fix: TileMap.with_tiles failed or ignored strict when
 the number of active tiles differed

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index b126e64..e5263c9 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -116,7 +116,7 @@ class TileMap(np.ndarray):
 		should be considerably faster."""
 		try: active = other.geometry.active
 		except AttributeError: active = _parse_active(other, self.ntile)
-		if np.all(active == self.geometry.active):
+		if len(active) == self.nactive and np.all(active == self.geometry.active):
 			return self.copy()
 		# Construct the new geometry
 		if strict: new_geom = self.geometry.copy(active    =active)
-- 
2.43.0


From 35ba1ce798065b4743ed15893c862dac9b965ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:35 +0000
Subject: [PATCH 016/151] fix: reducing the leading axes of a TileMap kept a
 geometry with the old leading shape

---
 pixell/tilemap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index e5263c9..93f3a00 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -75,7 +75,8 @@ class TileMap(np.ndarray):
 		# In the future need to support `return_scalar`, but that is seemingly
 		# undocumented and not actually supported in numpy 2.0? So for now we
 		# just ignore it.
-		return TileMap(arr, self.geometry)
+		if arr.ndim == 0 or arr.shape[-1] != self.shape[-1]: return np.asarray(arr)
+		return TileMap(arr, self.geometry.copy(pre=arr.shape[:-1]))
 	def __getitem__(self, sel):
 		# Split sel into normal and wcs parts.
 		sel1, sel2 = utils.split_slice(sel, [self.ndim-1,1])
-- 
2.43.0


From 3855c7ead6073a69bc6504d5dfe8bd6183b655ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:35 +0000
Subject: [PATCH 017/151] fix: slicing the pixel axis of a TileMap returned a
 TileMap with the wrong geometry instead of a plain array

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 93f3a00..5b195ae 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -84,7 +84,7 @@ class TileMap(np.ndarray):
 			raise IndexError("too many indices")
 		elif len(sel2) == 1:
 			# Degrade to plain array if we index the last, special pixel/tile axis
-			return np.ndarray.__getitem__(self, sel)
+			return np.asarray(self)[sel]
 		else:
 			res  = np.ndarray.__getitem__(self, sel)
 			ogeo = self.geometry.copy()
-- 
2.43.0


From d18c4a29a64b1759a8e8b4e9b69483dc22baf0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:13 +0000
Subject: [PATCH 018/151] fix: tilemap.insert could return a map sharing memory
 with its input, or with the wrong leading shape

---
 pixell/tilemap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 5b195ae..90bece3 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -283,7 +283,8 @@ def insert(omap, imap, op=lambda a,b:b):
 	* omap is not modified. Use the result is returned. (enmap both modifies and returns)
 	* The maps must have the same geometry, only differing by the active tiles.
 	This may be generalized in the future."""
-	binop = make_binop(op)
+	# The result should be a new map with the full shape even if op just returns one of its arguments
+	binop = make_binop(lambda a,b: np.array(np.broadcast_arrays(op(a,b), a)[0]))
 	return binop(omap, imap)
 
 def map_mul(mat, vec):
-- 
2.43.0


From fe1e33f7a1420a2060e6265ad03af3fb74661e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:26 +0000
Subject: [PATCH 019/151] fix: utils.range_sub, range_union, range_normalize
 and dedup on empty ranges and empty lists

---
 pixell/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index d241a55..5aae5bc 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -531,6 +531,7 @@ class nowarn:
 def dedup(a):
 	"""Removes consecutive equal values from a 1d array, returning the result.
 	The original is not modified."""
+	if len(a) == 0: return a.copy()
 	return a[np.concatenate([[True],a[1:]!=a[:-1]])]
 
 def interpol(arr, inds, out=None, mode="spline", border="nearest",
@@ -967,13 +968,14 @@ def range_sub(a,b, mapping=False):
 			# so undo the previous increment. This may lead to
 			# the same b being added twice. We will handle that
 			# by removing duplicates at the end.
-			bi -= 1
+			# There is nothing to undo if an empty a comes before any b.
+			bi = max(bi-1,0)
 		# And advance to the next range in a
 		ai += 1
-	c = np.array(c)
+	c = np.array(c,a.dtype).reshape(-1,2)
 	# Remove duplicates if necessary
-	abmap=dedup(np.array(abmap))
-	rmap = np.array(rmap)
+	abmap=dedup(np.array(abmap,int))
+	rmap = np.array(rmap,int)
 	return (c, rmap, abmap) if mapping else c
 
 def range_union(a, mapping=False):
@@ -982,6 +984,7 @@ def range_union(a, mapping=False):
 	then the mapping from old to new ranges is also returned."""
 	# We will make a single pass through a in sorted order
 	a    = np.asarray(a)
+	if a.size == 0: a = np.zeros([0,2],int)
 	n    = len(a)
 	inds = np.argsort(a[:,0])
 	rmap = np.zeros(n,dtype=int)-1
@@ -1009,6 +1012,7 @@ def range_normalize(a):
 	order. Decreasing ranges are interpreted the same way as in a slice,
 	e.g. empty."""
 	a = np.asarray(a)
+	if a.size == 0: a = np.zeros([0,2],int)
 	n1 = len(a)
 	a = a[a[:,1]!=a[:,0]]
 	reverse = a[:,1]<a[:,0]
-- 
2.43.0


From 2af2f2b73ac46efaae3310e8296db75f6ef5e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:26 +0000
Subject: [PATCH 020/151] fix: utils.sbox_mul gave the wrong elements when the
 first sbox has a negative step

---
 pixell/utils.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 5aae5bc..79b7487 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1652,18 +1652,17 @@ def sbox_mul(a,b):
 	"""Find c such that arr[c] = arr[a][b]"""
 	a = sbox_fix(a).copy()
 	b = sbox_fix(b).copy()
-	# It's easiest to implement this for sboxes in normal ordering.
-	# So we will flip a and b as needed, and then flip back the result
-	# if necessary. First compute which  result entries must be flipped.
-	flip = (a[...,2] < 0)^(b[...,2] < 0)
-	# Then flip
-	a[a[...,2]<0] = sbox_flip(a[a[...,2]<0])
-	b[b[...,2]<0] = sbox_flip(b[b[...,2]<0])
-	# Now that everything is in the right order, we combine
+	# It's easiest to implement this for b in normal ordering.
+	# So we will flip b as needed, and then flip back the result.
+	flip = b[...,2] < 0
+	b[flip] = sbox_flip(b[flip])
+	# Cap b to the elements that a has
+	b[...,1] = np.maximum(np.minimum(b[...,1],sbox_size(a)),b[...,0])
+	# Now that b is in the right order, we combine
 	c0 = a[...,0] + b[...,0]*a[...,2]
-	c1 = np.minimum(a[...,0] + b[...,1]*a[...,2],a[...,1])
 	c2 = a[...,2]*b[...,2]
-	res = sbox_fix(np.stack([c0,c1,c2],-1))
+	c1 = c0 + sbox_size(b)*c2
+	res = np.stack([c0,c1,c2],-1)
 	# Flip back where necessary
 	res[flip] = sbox_flip(res[flip])
 	return res
-- 
2.43.0


From 24cdc5e7ec07e95924ee66fb2f99005c8ed600d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:26 +0000
Subject: [PATCH 021/151] fix: utils.sbox_intersect used np.object, which no
 longer exists in numpy

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 79b7487..d31daa6 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1582,7 +1582,7 @@ def sbox_intersect(a,b,wrap=0):
 	ndim = a.shape[-2]
 	wrap = np.zeros(ndim,int)+wrap
 	# Loop over all combinations
-	res = np.empty((fa.shape[0],fb.shape[0]),dtype=np.object)
+	res = np.empty((fa.shape[0],fb.shape[0]),dtype=object)
 	for ai, a1 in enumerate(fa):
 		for bi, b1 in enumerate(fb):
 			peraxis = [sbox_intersect_1d(a1[d],b1[d],wrap=wrap[d]) for d in range(ndim)]
-- 
2.43.0


From 01092ae4753699555b2a36387bdb3a879582dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:26 +0000
Subject: [PATCH 022/151] fix: utils.find, find_any, contains, complement_inds
 and nearest_ind on empty and one-element arrays

---
 pixell/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index d31daa6..32363c4 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -106,8 +106,12 @@ def streq(x, s):
 
 def find(array, vals, default=None):
 	"""Return the indices of each value of vals in the given array."""
-	if np.asarray(vals).size == 0: return []
+	vals    = np.asarray(vals)
 	array   = np.asarray(array)
+	if vals.size == 0: return np.zeros(vals.shape,int)
+	if array.size == 0:
+		if default is None: raise ValueError("Value not found in array")
+		return np.full(vals.shape, default)
 	order   = np.argsort(array)
 	cands   = np.minimum(np.searchsorted(array, vals, sorter=order),len(array)-1)
 	res     = order[cands]
@@ -136,7 +140,7 @@ def nearest_ind(arr, vals, sorted=False):
 	diff1= np.abs(arr[inds-1]-vals)
 	diff2= np.abs(arr[inds  ]-vals)
 	# Entries where diff1 is smallest should point one earlier
-	inds -= diff1 <= diff2
+	inds  = np.maximum(inds-(diff1 <= diff2), 0)
 	# Undo sorting if necessary
 	if not sorted:
 		inds = order[inds]
@@ -147,6 +151,7 @@ def contains(array, vals):
 	for any element in array that is also in vals, and False otherwise."""
 	array = np.asarray(array)
 	vals  = np.asarray(vals)
+	if vals.size == 0: return np.zeros(array.shape,bool)
 	vals  = np.sort(vals)
 	inds  = np.searchsorted(vals, array)
 	# If a value would be inserted after the end, it wasn't
@@ -204,7 +209,7 @@ def complement_inds(inds, n):
 	E.g. complement_inds([0,2,4],7) => [1,3,5,6]"""
 	if inds is None: inds = np.arange(n)
 	mask = np.ones(n, bool)
-	mask[np.array(inds)] = False
+	mask[np.array(inds,int)] = False
 	return np.where(mask)[0]
 
 def unmask(arr, mask, axis=0, fill=0):
-- 
2.43.0


From 3e3a51970022760e2696d2621b26c08b51fdba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:26 +0000
Subject: [PATCH 023/151] fix: utils.bins2edges took the last edge from the
 wrong bin

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 32363c4..ed2002f 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2490,7 +2490,7 @@ def edges2bins(edges):
 	return res
 
 def bins2edges(bins):
-	return np.concatenate([bins[:,0],bins[1,-1:]])
+	return np.concatenate([bins[:,0],bins[-1,1:]])
 
 def linbin(n, nbin=None, nmin=None, bsize=None):
 	"""Given a number of points to bin and the number of approximately
-- 
2.43.0


From 21de5294f426443ea0d81796fc82ba74ebfd6f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:47 +0000
Subject: [PATCH 024/151] fix: utils.expbin never returned when the last points
 do not fill a bin

---
 pixell/utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ed2002f..f4d7628 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2514,12 +2514,12 @@ def expbin(n, nbin=None, nmin=8, nmax=0):
 	if not nbin: nbin = int(np.round(n**0.5))
 	tmp  = np.array(np.exp(np.arange(nbin+1)*np.log(n+1)/nbin)-1,dtype=int)
 	fixed = [tmp[0]]
-	i = 0
-	while i < nbin:
-		for j in range(i+1,nbin+1):
-			if tmp[j]-tmp[i] >= nmin:
-				fixed.append(tmp[j])
-				i = j
+	for v in tmp[1:]:
+		if v-fixed[-1] >= nmin:
+			fixed.append(v)
+	# Any points left over go into the last bin
+	if len(fixed) == 1: fixed.append(n)
+	fixed[-1] = n
 	# Optionally split too large bins
 	if nmax:
 		tmp = [fixed[0]]
@@ -2529,7 +2529,6 @@ def expbin(n, nbin=None, nmin=8, nmax=0):
 			tmp += [tmp[-1]+dv*(i+1)//nsplit for i in range(nsplit)]
 		fixed = tmp
 	tmp = np.array(fixed)
-	tmp[-1] = n
 	return np.vstack((tmp[:-1],tmp[1:])).T
 
 def bin_data(bins, d, op=np.mean):
-- 
2.43.0


From 6e1b7d84439c2c50deae0c7af718564a83be3268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:13 +0000
Subject: [PATCH 025/151] fix: utils.nearest_product below returned the last
 product found instead of the largest

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index f4d7628..55c4561 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -785,14 +785,14 @@ def nearest_product(n, factors, direction="below"):
 	# a keeps track of all the visited multiples
 	a = np.zeros(nmax+1,dtype=bool)
 	a[1] = True
-	best = None
+	best = 1 if below else None
 	for i in range(ni+1):
 		if not a[i]: continue
 		for f in factors:
 			m = i*f
 			if below:
 				if m > n: continue
-				else: best = m
+				else: best = max(best, m)
 			else:
 				if m >= n and (best is None or best > m):
 					best = m
-- 
2.43.0


From 2b074ec50eb5f4fddbf5e8834f9d58c309bc6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:13 +0000
Subject: [PATCH 026/151] fix: utils.label_multi gave different value
 combinations the same label

---
 pixell/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 55c4561..956cc4d 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2032,12 +2032,10 @@ def label_multi(valss):
 
 	Example: label_multi([[0,0,1,1,2],["a","b","b","b","b"]]) → [0,1,2,2,3]"""
 	oinds = 0
-	nprev = 1
 	for vals in valss:
 		# remap arbitrary values in vals to integers in inds
 		uvals, inds = np.unique(vals, return_inverse=True)
-		oinds = oinds*nprev + inds
-		nprev = len(uvals)
+		oinds = oinds*len(uvals) + inds
 	# At this point oinds has unique indices, but there could be gaps.
 	# Remove those
 	oinds = np.unique(oinds, return_inverse=True)[1]
-- 
2.43.0


From d894139349c117a62e531575f4026029fcb80848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:13 +0000
Subject: [PATCH 027/151] fix: utils.addaxes and delaxes indexed with a list,
 which numpy no longer accepts

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 956cc4d..ee759be 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -489,7 +489,7 @@ def addaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds.insert(ax, None)
-	return a[inds]
+	return a[tuple(inds)]
 
 def delaxes(a, axes):
 	axes = np.array(axes,int)
@@ -497,7 +497,7 @@ def delaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds[ax] = 0
-	return a[inds]
+	return a[tuple(inds)]
 
 class flatview:
 	"""Produce a read/writable flattened view of the given array,
-- 
2.43.0


From 7632df1d50cf948ae69c5e2be5e3e5fad795603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:13 +0000
Subject: [PATCH 028/151] fix: utils.preflat and postflat with negative n

---
 pixell/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ee759be..afa7715 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1132,14 +1132,14 @@ def preflat(a, n):
 	"""Flatten the first n dimensions of a. If n is negative,
 	flatten all but the last -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape((-1,)+a.shape[n:])
 
 def postflat(a, n):
 	"""Flatten the last n dimensions of a. If n is negative,
-	flatten all but the last -n dimensions."""
+	flatten all but the first -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape(a.shape[:a.ndim-n]+(-1,))
 
 def between_angles(a, range, period=2*np.pi):
-- 
2.43.0


From 1633872f767249ef77bece816a0e945fb07cd77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:13 +0000
Subject: [PATCH 029/151] fix: utils.nditer visited index zero of empty axes

---
 pixell/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index afa7715..342851e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3431,6 +3431,8 @@ def nditer(shape, axes=None):
 	ndim = len(shape)
 	axes = tuple(range(ndim)) if axes is None else tuple(sorted([ax%ndim for ax in axes]))
 	axes = axes[::-1] # will iterate backwards below
+	# Nothing to visit if any of the axes is empty
+	if any([shape[ax] == 0 for ax in axes]): return
 	I = [slice(None)]*ndim
 	for ax in axes: I[ax] = 0
 	while True:
-- 
2.43.0


From 4a1f33194740cbcbc2a9c2c3d46d6cd56ae810b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:13 +0000
Subject: [PATCH 030/151] fix: utils.unwrap_range modified its argument

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 342851e..34de09c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1360,7 +1360,7 @@ def unwrap_range(range, nwrap=2*np.pi):
 	doesn't assume that ranges are shorter than half the
 	sky. But it still shortens ranges that are longer than
 	a whole wrapping period."""
-	range = np.asanyarray(range)
+	range = np.array(range, copy=True)
 	range[1] -= np.floor((range[1]-range[0])/nwrap)*nwrap
 	range    -= np.floor(range[1,None]/nwrap)*nwrap
 	return range
-- 
2.43.0


From e10308e7ace0c012295fcb8da24a87dbfa99fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:13 +0000
Subject: [PATCH 031/151] fix: utils.medmean gave nan for short arrays

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 34de09c..c723469 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -354,7 +354,7 @@ def medmean(x, axis=None, frac=0.5):
 	else:            x = np.moveaxis(x, axis, -1)
 	x = np.sort(x, -1)
 	i = int(x.shape[-1]*frac)//2
-	return np.mean(x[...,i:-i],-1)
+	return np.mean(x[...,i:x.shape[-1]-i],-1)
 
 def medmean2(x, axis=None, frac=0.1, bsize=None):
 	"""This is what medmean should have bean. This should be faster and have
-- 
2.43.0


From e4116d8854b999636a47dd93424f771d2ab9fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:37 +0000
Subject: [PATCH 032/151] fix: utils.bin_expand mixed up or refused arrays with
 leading dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index c723469..cf450be 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2542,7 +2542,7 @@ def bin_data(bins, d, op=np.mean):
 def bin_expand(bins, bdata):
 	res = np.zeros(bdata.shape[:-1]+(bins[-1,1],),bdata.dtype)
 	for bi, b in enumerate(bins):
-		res[...,b[0]:b[1]] = bdata[...,bi]
+		res[...,b[0]:b[1]] = bdata[...,bi,None]
 	return res
 
 def is_int_valued(a): return a%1 == 0
-- 
2.43.0


From 7a82a4a52a02a89b571ed1f9ab3051b023dd35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:38 +0000
Subject: [PATCH 033/151] fix: utils.partial_expand and flatview on
 non-contiguous arrays without kept axes

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index cf450be..9f94b9c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -478,7 +478,7 @@ def partial_expand(a, shape, axes=[-1], pos=0):
 	original array before flattening, and axes and pos should be
 	the same as those passed to the flatten operation."""
 	a = np.moveaxis(a, pos, -1)
-	axes = np.array(axes)%len(shape)
+	axes = np.array(axes,int)%len(shape)
 	rest = list(np.delete(shape, axes))
 	a = np.reshape(a, list(a.shape[:len(axes)])+rest)
 	return moveaxes(a, range(len(axes)), axes)
-- 
2.43.0


From 15249b939c7ec72a8768eb0eed943f5bdd8d90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:19 +0000
Subject: [PATCH 034/151] fix: utils.range_sub's mapping repeated a range of b
 after an empty range of a

---
 pixell/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 9f94b9c..b6dc03b 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -952,6 +952,7 @@ def range_sub(a,b, mapping=False):
 			bi += 1
 		# Now handle each b until the start of b is past the end of a
 		pstart = a[ai,0]
+		bstart = bi
 		while bi < len(b) and b[bi,0] <= a[ai,1]:
 			r=(pstart,min(a[ai,1],b[bi,0]))
 			if r[1]-r[0] > 0:
@@ -967,14 +968,13 @@ def range_sub(a,b, mapping=False):
 			abmap.append(len(c))
 			rmap.append(rainds[ai])
 			c.append(r)
-		else:
+		elif bi > bstart:
 			# If b extended beyond the end of a, then
 			# we need to consider it again for the next a,
 			# so undo the previous increment. This may lead to
 			# the same b being added twice. We will handle that
 			# by removing duplicates at the end.
-			# There is nothing to undo if an empty a comes before any b.
-			bi = max(bi-1,0)
+			bi -= 1
 		# And advance to the next range in a
 		ai += 1
 	c = np.array(c,a.dtype).reshape(-1,2)
-- 
2.43.0


From 1227ac7bc68b938a2f570ba4285124d055feb31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:37 +0000
Subject: [PATCH 035/151] fix: reading from a lazily opened map changed what
 later reads from it gave

---
 pixell/enmap.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index fdfe97e..fc710a3 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2975,6 +2975,11 @@ class ndmap_proxy:
 	def __repr__(self): return "ndmap_proxy(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (str(self.fname), str(self.shape), str(self.wcs), str(self.dtype))
 	def __getslice__(self, a, b=None, c=None): return self[slice(a,b,c)]
 	def __getitem__(self, sel): raise NotImplementedError("ndmap_proxy must be subclassed")
+	def _finish(self, res, psel):
+		# Copy, since res may be a view of the full map, which must stay as it is for later reads
+		res    = np.array(res, dtype=utils.native_dtype(res.dtype))
+		_, wcs = slice_geometry(self.shape[-2:], self.wcs, psel)
+		return ndmap(res, wcs)
 	def submap(self, box, mode=None, wrap="auto", recenter=False):
 		return submap(self, box, mode=mode, wrap=wrap, recenter=recenter)
 	def stamps(self, pos, shape, aslist=False): return stamps(self, pos, shape, aslist=aslist)
@@ -2991,9 +2996,9 @@ class ndmap_proxy_fits(ndmap_proxy):
 		# Note that 'section' is not part of some HDU types, such as CompImageHDU.
 		self.use_section = hasattr(hdu, 'section')
 		if self.use_section:
-			dtype    = fix_endian(hdu.section[(slice(0,1),)*hdu.header["NAXIS"]]).dtype
+			dtype    = utils.native_dtype(hdu.section[(slice(0,1),)*hdu.header["NAXIS"]].dtype)
 		else:
-			dtype    = fix_endian(hdu.data[(slice(0,1),)*hdu.header["NAXIS"]]).dtype
+			dtype    = utils.native_dtype(hdu.data.dtype)
 		self.stokes_flips = get_stokes_flips(hdu)
 		def slist(vals):
 			return ",".join([str(v) for v in vals])
@@ -3006,7 +3011,6 @@ class ndmap_proxy_fits(ndmap_proxy):
 	def __getitem__(self, sel):
 		_, psel = utils.split_slice(sel, [len(self.shape)-2,2])
 		if len(psel) > 2: raise IndexError("too many indices")
-		_, wcs = slice_geometry(self.shape[-2:], self.wcs, psel)
 		if (self.hdu.size > self.threshold) and self.use_section:
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-1,1])
 			res = self.hdu.section[sel1][(Ellipsis,)+sel2]
@@ -3021,8 +3025,9 @@ class ndmap_proxy_fits(ndmap_proxy):
 				if ind >= 0 and ind < self.shape[i]:
 					signs[(slice(None),)*i + (ind,)] *= -1
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-2,2])
-			res *= signs[sel1][...,None,None]
-		return ndmap(fix_endian(res), wcs)
+			# Avoid modifying res, since it may be a view of the full map
+			res = (res * signs[sel1][...,None,None]).astype(res.dtype)
+		return self._finish(res, psel)
 	def __repr__(self): return "ndmap_proxy_fits(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (str(self.fname), str(self.shape), str(self.wcs), str(self.dtype))
 
 class ndmap_proxy_hdf(ndmap_proxy):
@@ -3032,13 +3037,12 @@ class ndmap_proxy_hdf(ndmap_proxy):
 	def __getitem__(self, sel):
 		_, psel = utils.split_slice(sel, [self.ndim-2,2])
 		if len(psel) > 2: raise IndexError("too many indices")
-		_, wcs = slice_geometry(self.shape[-2:], self.wcs, psel)
 		if self.dset.size > self.threshold:
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-1,1])
 			res = self.dset[sel1][(Ellipsis,)+sel2]
 		else:
 			res = self.dset[sel]
-		return ndmap(fix_endian(res), wcs)
+		return self._finish(res, psel)
 	def __repr__(self): return "ndmap_proxy_hdf(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (self.fname, str(self.shape), str(self.wcs), str(self.dtype))
 
 def fix_endian(map):
-- 
2.43.0


From 2fa4865edab229632ddb874318ccda9e87cb51e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:37 +0000
Subject: [PATCH 036/151] fix: reading single rows or columns of a map with
 read_map's sel argument or a lazily opened map failed

---
 pixell/enmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index fc710a3..866895e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2978,6 +2978,8 @@ class ndmap_proxy:
 	def _finish(self, res, psel):
 		# Copy, since res may be a view of the full map, which must stay as it is for later reads
 		res    = np.array(res, dtype=utils.native_dtype(res.dtype))
+		# Like for ndmap, it's just a plain array if some of the pixel axes are gone
+		if any([type(s) is not slice for s in psel]): return res[()]
 		_, wcs = slice_geometry(self.shape[-2:], self.wcs, psel)
 		return ndmap(res, wcs)
 	def submap(self, box, mode=None, wrap="auto", recenter=False):
@@ -3026,7 +3028,8 @@ class ndmap_proxy_fits(ndmap_proxy):
 					signs[(slice(None),)*i + (ind,)] *= -1
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-2,2])
 			# Avoid modifying res, since it may be a view of the full map
-			res = (res * signs[sel1][...,None,None]).astype(res.dtype)
+			npix= 2 - sum([np.ndim(s) == 0 and type(s) is not slice for s in sel2])
+			res = (res * signs[sel1][(Ellipsis,)+(None,)*npix]).astype(res.dtype)
 		return self._finish(res, psel)
 	def __repr__(self): return "ndmap_proxy_fits(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (str(self.fname), str(self.shape), str(self.wcs), str(self.dtype))
 
-- 
2.43.0


From 781004ae751b9d6602f4fe477d75cb25002ed2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:37 +0000
Subject: [PATCH 037/151] fix: read_map_geometry failed for hdf files

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 866895e..af3548e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2921,7 +2921,7 @@ def read_hdf_geometry(fname, address=None):
 		hwcs = hfile["wcs"]
 		header = astropy.io.fits.Header()
 		for key in hwcs:
-			header[key] = hwcs[key][()]
+			header[key] = fix_python3(hwcs[key][()])
 		wcs   = wcsutils.WCS(header).sub(2)
 		shape = hfile["data"].shape
 	return shape, wcs
-- 
2.43.0


From eae91f9c023276a58f4b2bf181aa5a8f78b2edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:37 +0000
Subject: [PATCH 038/151] fix: read_map_dtype gave a different byte order than
 read_map for hdf files

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index af3548e..4a4351e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2931,7 +2931,7 @@ def read_hdf_dtype(fname, address=None):
 	with h5py.File(fname,"r") as hfile:
 		if address is not None:
 			hfile = hfile[address]
-		return hfile["data"].dtype
+		return utils.native_dtype(hfile["data"].dtype)
 
 def read_npy(fname, hdu=None, sel=None, box=None, pixbox=None, geometry=None, wrap="auto", mode=None, sel_threshold=10e6, wcs=None, delayed=False, address=None, recenter=False):
 	"""Read an enmap from the specified npy file. Only minimal support.
-- 
2.43.0


From e14f69f3ad276ddbe7cf5a2cc7bee0aa38b8b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:37 +0000
Subject: [PATCH 039/151] fix: read_fits_header only read the first 2880 bytes
 of the header

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 4a4351e..cc69b33 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2812,10 +2812,10 @@ def read_fits_header(fname, hdu=None, quick=True):
 		# Read header only, without body
 		if isinstance(fname, str):
 			with open(fname, "rb") as ifile:
-				header = astropy.io.fits.Header.fromstring(ifile.read(2880))
+				header = astropy.io.fits.Header.fromfile(ifile)
 		else:
 			# Handle the case where the user already has a file object
-			header = astropy.io.fits.Header.fromstring(fname.read(2880))
+			header = astropy.io.fits.Header.fromfile(fname)
 	else:
 		with utils.nowarn():
 			header = astropy.io.fits.open(fname)[hdu].header
-- 
2.43.0


From 66422934ee3c5756e37efce229daae86ee877f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:37 +0000
Subject: [PATCH 040/151] fix: read_map_dtype gave the wrong type for unsigned
 fits images

---
 pixell/enmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index cc69b33..892437a 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2838,8 +2838,12 @@ def read_fits_dtype(fname, hdu=None, quick=True):
 	header = read_fits_header(fname, hdu=hdu, quick=quick)
 	if "BITPIX" not in header: raise KeyError("BITPIX not defined in fits file")
 	bitpix = header["BITPIX"]
-	table  = {-32:np.float32, -64:np.float64, 8:np.int8, 16:np.int16, 32:np.int32, 64:np.int64}
+	table  = {-32:np.float32, -64:np.float64, 8:np.uint8, 16:np.int16, 32:np.int32, 64:np.int64}
 	if bitpix not in table: raise ValueError("Unrecognized BITPIX %d" % bitpix)
+	# Integers with the opposite signedness are represented using an offset
+	shifted = {(8,-2**7):np.int8, (16,2**15):np.uint16, (32,2**31):np.uint32, (64,2**63):np.uint64}
+	shift   = (bitpix, header.get("BZERO",0))
+	if header.get("BSCALE",1) == 1 and shift in shifted: return shifted[shift]
 	return table[bitpix]
 
 def write_hdf(fname, emap, address=None, extra={}):
-- 
2.43.0


From 68debdde681beae42c111f7f22dee52f32d39800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:37 +0000
Subject: [PATCH 041/151] fix: read_map_geometry misinterpreted slices in the
 file name for maps with leading dimensions

---
 pixell/enmap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 892437a..43617bd 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2720,8 +2720,11 @@ def read_map_geometry(fname, fmt=None, hdu=None, address=None):
 	else:
 		raise ValueError
 	if len(toks) > 1:
-		sel = eval("utils.sliceeval"+":".join(toks[1:]))[-2:]
-		shape, wcs = slice_geometry(shape, wcs, sel)
+		sel = eval("utils.sliceeval"+":".join(toks[1:]))
+		sel1, sel2 = utils.split_slice(sel, [len(shape)-2,2])
+		pre        = np.broadcast_to(0, shape[:-2])[sel1].shape
+		shape, wcs = slice_geometry(shape[-2:], wcs, sel2)
+		shape      = pre + shape
 	return shape, wcs
 
 def read_map_dtype(fname, fmt=None, hdu=None, address=None):
-- 
2.43.0


From b6df3bd217bca9f77e92d9543528e5bd9db9e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:37 +0000
Subject: [PATCH 042/151] fix: read_map ignored the mode argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 43617bd..92065cc 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2957,7 +2957,7 @@ def read_helper(data, sel=None, box=None, pixbox=None, geometry=None, wrap="auto
 	"""Helper function for map reading. Handles the slicing, sky-wrapping and capping, etc."""
 	if delayed: return data # Slicing not supported yet when we want to return a proxy object
 	if geometry is not None: data = extract(data, *geometry, wrap=wrap)
-	if box      is not None: data = submap(data, box, wrap=wrap, recenter=recenter)
+	if box      is not None: data = submap(data, box, mode=mode, wrap=wrap, recenter=recenter)
 	if pixbox   is not None: data = extract_pixbox(data, pixbox, wrap=wrap, recenter=recenter)
 	if sel      is not None: data = data[sel]
 	data = data[:] # Get rid of the wrapper if it still remains
-- 
2.43.0


From 32df94ac0861116ad58a6f3c236b70edb9607231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 043/151] fix: lazily opened hdf maps reported the file's byte
 order as their type, and gave empty cutouts with it

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 92065cc..d893518 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3043,7 +3043,7 @@ class ndmap_proxy_fits(ndmap_proxy):
 class ndmap_proxy_hdf(ndmap_proxy):
 	def __init__(self, dset, wcs, fname="<none>", threshold=1e7):
 		self.dset      = dset
-		ndmap_proxy.__init__(self, dset.shape, wcs, dset.dtype, fname=fname, threshold=threshold)
+		ndmap_proxy.__init__(self, dset.shape, wcs, utils.native_dtype(dset.dtype), fname=fname, threshold=threshold)
 	def __getitem__(self, sel):
 		_, psel = utils.split_slice(sel, [self.ndim-2,2])
 		if len(psel) > 2: raise IndexError("too many indices")
-- 
2.43.0


From d8180cbd191039657db5a2176da75c6f188a2543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:07 +0000
Subject: [PATCH 044/151] fix: partial reads of large fits maps gave wrong
 shapes for empty selections and for integers into length-1 axes

---
 pixell/enmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index d893518..d6eeb79 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3020,8 +3020,10 @@ class ndmap_proxy_fits(ndmap_proxy):
 	def __getitem__(self, sel):
 		_, psel = utils.split_slice(sel, [len(self.shape)-2,2])
 		if len(psel) > 2: raise IndexError("too many indices")
-		if (self.hdu.size > self.threshold) and self.use_section:
-			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-1,1])
+		sel1, sel2 = utils.split_slice(sel, [len(self.shape)-1,1])
+		# hdu.section does not handle empty selections or integer indices into length-1 axes
+		safe = np.broadcast_to(0, self.shape)[sel].size > 0 and all([type(s) is slice or n > 1 for s,n in zip(sel1, self.shape)])
+		if (self.hdu.size > self.threshold) and self.use_section and safe:
 			res = self.hdu.section[sel1][(Ellipsis,)+sel2]
 		else: res = self.hdu.data[sel]
 		# Apply stokes flips if necessary. This is a bit complicated because we have to
-- 
2.43.0


From 7cca6b6535742e461fe5ae1cc55a853555d8dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 045/151] fix: Mempool did not count allocations from an
 existing arena, so its capacity never grew to what a cycle needs

---
 pixell/device.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/device.py b/pixell/device.py
index 02c63d8..58aa44d 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -143,6 +143,7 @@ class Mempool:
 			# We have room. Parsel out some more
 			buf       = self.arenas[-1][self.pos:self.pos+n]
 			self.pos += effsize
+			self.size += effsize
 		self.capacity = max(self.capacity, self.size)
 		return buf
 	def totsize(self): return sum([arena.size for arena in self.arenas])
-- 
2.43.0


From c6dccc950be514ce15bc787623e9f7540d4902b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 046/151] fix: Array pools could not fill zero-dimensional
 arrays

---
 pixell/device.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/device.py b/pixell/device.py
index 58aa44d..560d535 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -178,14 +178,14 @@ class ArrayPoolCpu(Mempool):
 	def array(self, arr):
 		arr  = np.asarray(arr)
 		oarr = self.empty(arr.shape, dtype=arr.dtype)
-		oarr[:] = arr
+		oarr[...] = arr
 		return oarr
 	def empty(self, shape, dtype=np.float32, reset=True):
 		if reset: self.reset()
 		return self.alloc(np.prod(shape)*np.dtype(dtype).itemsize).view(dtype).reshape(shape)
 	def full(self, shape, val, dtype=np.float32, reset=True):
 		arr = self.empty(shape, dtype=dtype, reset=reset)
-		arr[:] = val
+		arr[...] = val
 		return arr
 	def zeros(self, shape, dtype=np.float32, reset=True):
 		return self.full(shape, 0, dtype=dtype, reset=reset)
@@ -215,7 +215,7 @@ class ArrayPoolGpu(Mempool):
 		return self.alloc(np.prod(shape)*np.dtype(dtype).itemsize).view(dtype).reshape(shape)
 	def full(self, shape, val, dtype=np.float32, reset=True):
 		arr = self.empty(shape, dtype=dtype, reset=reset)
-		arr[:] = val
+		arr[...] = val
 		return arr
 	def zeros(self, shape, dtype=np.float32, reset=True):
 		return self.full(shape, 0, dtype=dtype, reset=reset)
-- 
2.43.0


From 7a76c0ff81714978fbd88274e4890aa1c46a1ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 047/151] fix: ArrayMultipool.size called the integer attribute
 size of its pools

---
 pixell/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/device.py b/pixell/device.py
index 560d535..315d077 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -253,7 +253,7 @@ class ArrayMultipool:
 				self.pools[name] = self.factory(name=name)
 			pools.append(self.pools[name])
 		return pools
-	def size(self): return sum([pool.size() for name, pool in self.pools.items()])
+	def size(self): return sum([pool.size for name, pool in self.pools.items()])
 	def totsize(self): return sum([pool.totsize() for name, pool in self.pools.items()])
 	def free(self):
 		for name in self.pools:
-- 
2.43.0


From d60499122095bd8a2f990ec10b9b599928c1db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:16 +0000
Subject: [PATCH 048/151] fix: Single precision lmatmul ran to the filter's
 lmax, outside the alms when that is bigger than theirs

---
 cython/cmisc_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc_core.c b/cython/cmisc_core.c
index ded2d9a..cb751b0 100644
--- a/cython/cmisc_core.c
+++ b/cython/cmisc_core.c
@@ -208,7 +208,7 @@ void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm
 		float * vimag = calloc(N, sizeof(float));
 		#pragma omp for
 		for(int m = 0; m <= mmax; m++) {
-			for(int l = m; l <= lfmax; l++) {
+			for(int l = m; l <= leff; l++) {
 				int64_t i = mstart[m]+l;
 				// Zero out the work arrays
 				for(int r = 0; r < N; r++) { vreal[r] = vimag[r] = 0; }
-- 
2.43.0


From 9fb8fef4de4533d14fb546ab3d97c2c4009522b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:40 +0000
Subject: [PATCH 049/151] fix: alm2cl, lmul and transpose_alm ignored the
 stride of the alm layout

---
 cython/cmisc.pxd    | 16 ++++++++--------
 cython/cmisc.pyx    | 16 ++++++++--------
 cython/cmisc_core.c | 44 ++++++++++++++++++++++----------------------
 cython/cmisc_core.h | 16 ++++++++--------
 4 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/cython/cmisc.pxd b/cython/cmisc.pxd
index b5a3305..782f67a 100644
--- a/cython/cmisc.pxd
+++ b/cython/cmisc.pxd
@@ -1,12 +1,12 @@
 from libc.stdint cimport int64_t
 cdef extern from "cmisc_core.h":
-	void alm2cl_sp(int lmax, int mmax, int64_t * mstart, float  * alm1, float  * alm2, float * cl)
-	void alm2cl_dp(int lmax, int mmax, int64_t * mstart, double * alm1, double * alm2, double * cl)
-	void transpose_alm_dp(int lmax, int mmax, int64_t * mstart, double * ialm, double * oalm)
-	void transpose_alm_sp(int lmax, int mmax, int64_t * mstart, float * ialm, float * oalm)
-	void lmul_dp(int lmax, int mmax, int64_t * mstart, double * alm, int lfmax, const double * lfun)
-	void lmul_sp(int lmax, int mmax, int64_t * mstart, float * alm, int lfmax, const float * lfun)
+	void alm2cl_sp(int lmax, int mmax, int64_t * mstart, int64_t stride, float  * alm1, float  * alm2, float * cl)
+	void alm2cl_dp(int lmax, int mmax, int64_t * mstart, int64_t stride, double * alm1, double * alm2, double * cl)
+	void transpose_alm_dp(int lmax, int mmax, int64_t * mstart, int64_t stride, double * ialm, double * oalm)
+	void transpose_alm_sp(int lmax, int mmax, int64_t * mstart, int64_t stride, float * ialm, float * oalm)
+	void lmul_dp(int lmax, int mmax, int64_t * mstart, int64_t stride, double * alm, int lfmax, const double * lfun)
+	void lmul_sp(int lmax, int mmax, int64_t * mstart, int64_t stride, float * alm, int lfmax, const float * lfun)
 	void transfer_alm_dp(int lmax1, int mmax1, int64_t * mstart1, double * alm1, int lmax2, int mmax2, int64_t * mstart2, double * alm2)
 	void transfer_alm_sp(int lmax1, int mmax1, int64_t * mstart1, float * alm1, int lmax2, int mmax2, int64_t * mstart2, float * alm2)
-	void lmatmul_dp(int N, int M, int lmax, int mmax, int64_t * mstart, double ** alm, int lfmax, double ** lmat, double ** oalm)
-	void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm, int lfmax, float ** lmat, float ** oalm)
+	void lmatmul_dp(int N, int M, int lmax, int mmax, int64_t * mstart, int64_t stride, double ** alm, int lfmax, double ** lmat, double ** oalm)
+	void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, int64_t stride, float ** alm, int lfmax, float ** lmat, float ** oalm)
diff --git a/cython/cmisc.pyx b/cython/cmisc.pyx
index 6b5ea81..cae7221 100644
--- a/cython/cmisc.pyx
+++ b/cython/cmisc.pyx
@@ -53,7 +53,7 @@ def alm2cl(ainfo, alm, alm2=None):
 				alm_single_sp1 = np.ascontiguousarray(alm [I]).view(np.float32)
 				alm_single_sp2 = np.ascontiguousarray(alm2[I]).view(np.float32)
 				cl_single_sp = cl[I]
-				cmisc.alm2cl_sp(ainfo.lmax, ainfo.mmax, &mstart[0], &alm_single_sp1[0], &alm_single_sp2[0], &cl_single_sp[0])
+				cmisc.alm2cl_sp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &alm_single_sp1[0], &alm_single_sp2[0], &cl_single_sp[0])
 				cache[key] = cl[I]
 		return cl
 	elif alm.dtype == np.complex128:
@@ -68,7 +68,7 @@ def alm2cl(ainfo, alm, alm2=None):
 				alm_single_dp1 = np.ascontiguousarray(alm [I]).view(np.float64)
 				alm_single_dp2 = np.ascontiguousarray(alm2[I]).view(np.float64)
 				cl_single_dp = cl[I]
-				cmisc.alm2cl_dp(ainfo.lmax, ainfo.mmax, &mstart[0], &alm_single_dp1[0], &alm_single_dp2[0], &cl_single_dp[0])
+				cmisc.alm2cl_dp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &alm_single_dp1[0], &alm_single_dp2[0], &cl_single_dp[0])
 				cache[key] = cl[I]
 		return cl
 	else:
@@ -106,13 +106,13 @@ def transpose_alm(ainfo, alm, out=None):
 		work_dp = work.view(np.float64)
 		for I in nditer(alm.shape[:-1]):
 			alm_dp = alm[I].view(np.float64)
-			cmisc.transpose_alm_dp(ainfo.lmax, ainfo.mmax, &mstart[0], &alm_dp[0], &work_dp[0])
+			cmisc.transpose_alm_dp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &alm_dp[0], &work_dp[0])
 			out[I] = work.view(np.complex128)
 	elif out.dtype == np.complex64:
 		work_sp = work.view(np.float32)
 		for I in nditer(alm.shape[:-1]):
 			alm_sp = alm[I].view(np.float32)
-			cmisc.transpose_alm_sp(ainfo.lmax, ainfo.mmax, &mstart[0], &alm_sp[0], &work_sp[0])
+			cmisc.transpose_alm_sp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &alm_sp[0], &work_sp[0])
 			out[I] = work.view(np.complex64)
 	else:
 		raise ValueError("transpose_alm requires contiguous complex64 or complex128 arrays")
@@ -195,7 +195,7 @@ cdef _lmul_dp(ainfo, alm, lfun):
 	for i in range(alm.shape[-2]):
 		_alm  = alm [i].view(np.float64)
 		_lfun = lfun[i].view(np.float64)
-		cmisc.lmul_dp(ainfo.lmax, ainfo.mmax, &mstart[0], &_alm[0], lfun.shape[1]-1, &_lfun[0])
+		cmisc.lmul_dp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &_alm[0], lfun.shape[1]-1, &_lfun[0])
 
 cdef _lmul_sp(ainfo, alm, lfun):
 	cdef int64_t[::1] mstart = np.ascontiguousarray(ainfo.mstart).view(np.int64)
@@ -204,7 +204,7 @@ cdef _lmul_sp(ainfo, alm, lfun):
 	for i in range(alm.shape[-2]):
 		_alm  = alm [i].view(np.float32)
 		_lfun = lfun[i].view(np.float32)
-		cmisc.lmul_sp(ainfo.lmax, ainfo.mmax, &mstart[0], &_alm[0], lfun.shape[1]-1, &_lfun[0])
+		cmisc.lmul_sp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &_alm[0], lfun.shape[1]-1, &_lfun[0])
 
 # Yuck! Cython is a pain. There must be an easier way to do this, but I didn't find it.
 cdef _lmatmul_dp(ainfo, np.complex128_t[:,:] alm, np.float64_t[:,:,:] lfun, np.complex128_t[:,:] out):
@@ -220,7 +220,7 @@ cdef _lmatmul_dp(ainfo, np.complex128_t[:,:] alm, np.float64_t[:,:,:] lfun, np.c
 			fptrs[i*M+j] = <np.uintp_t>&lfun[i,j,0]
 	for i in range(N): optrs[i] = <np.uintp_t>&out[i,0]
 	for j in range(M): aptrs[j] = <np.uintp_t>&alm[j,0]
-	cmisc.lmatmul_dp(N, M, ainfo.lmax, ainfo.mmax, &mstart[0], <double**>&aptrs[0], lfun.shape[2]-1, <double**>&fptrs[0], <double**>&optrs[0])
+	cmisc.lmatmul_dp(N, M, ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, <double**>&aptrs[0], lfun.shape[2]-1, <double**>&fptrs[0], <double**>&optrs[0])
 
 cdef _lmatmul_sp(ainfo, np.complex64_t[:,:] alm, np.float32_t[:,:,:] lfun, np.complex64_t[:,:] out):
 	cdef int64_t[::1] mstart = np.ascontiguousarray(ainfo.mstart).view(np.int64)
@@ -235,4 +235,4 @@ cdef _lmatmul_sp(ainfo, np.complex64_t[:,:] alm, np.float32_t[:,:,:] lfun, np.co
 			fptrs[i*M+j] = <np.uintp_t>&lfun[i,j,0]
 	for i in range(N): optrs[i] = <np.uintp_t>&out[i,0]
 	for j in range(M): aptrs[j] = <np.uintp_t>&alm[j,0]
-	cmisc.lmatmul_sp(N, M, ainfo.lmax, ainfo.mmax, &mstart[0], <float**>&aptrs[0], lfun.shape[2]-1, <float**>&fptrs[0], <float**>&optrs[0])
+	cmisc.lmatmul_sp(N, M, ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, <float**>&aptrs[0], lfun.shape[2]-1, <float**>&fptrs[0], <float**>&optrs[0])
diff --git a/cython/cmisc_core.c b/cython/cmisc_core.c
index cb751b0..e768c91 100644
--- a/cython/cmisc_core.c
+++ b/cython/cmisc_core.c
@@ -13,7 +13,7 @@ int max(int a, int b) { return a > b ? a : b; }
 // a better glue than cython. It's fragile and requires .c, .h, .pxd and .pyx files
 // for everything
 
-void alm2cl_sp(int lmax, int mmax, int64_t * mstart, float * alm1, float * alm2, float * cl) {
+void alm2cl_sp(int lmax, int mmax, int64_t * mstart, int64_t stride, float * alm1, float * alm2, float * cl) {
 	int nthread = omp_get_max_threads();
 	int nl      = lmax+1;
 	float * buf = calloc(nthread*nl, sizeof(float));
@@ -22,14 +22,14 @@ void alm2cl_sp(int lmax, int mmax, int64_t * mstart, float * alm1, float * alm2,
 		int id = omp_get_thread_num();
 		if(id == 0) {
 			for(int l = 0; l <= lmax; l++) {
-				int64_t i = mstart[0]*2 + l*2;
+				int64_t i = mstart[0]*2 + l*stride*2;
 				buf[nl*id+l] = alm1[i]*alm2[i]/2;
 			}
 		}
 		#pragma omp for schedule(dynamic)
 		for(int m = 1; m <= mmax; m++) {
 			for(int l = m; l <= lmax; l++) {
-				int64_t i = mstart[m]*2 + l*2;
+				int64_t i = mstart[m]*2 + l*stride*2;
 				buf[nl*id+l] += alm1[i]*alm2[i] + alm1[i+1]*alm2[i+1];
 			}
 		}
@@ -45,7 +45,7 @@ void alm2cl_sp(int lmax, int mmax, int64_t * mstart, float * alm1, float * alm2,
 	free(buf);
 }
 
-void alm2cl_dp(int lmax, int mmax, int64_t * mstart, double * alm1, double * alm2, double * cl) {
+void alm2cl_dp(int lmax, int mmax, int64_t * mstart, int64_t stride, double * alm1, double * alm2, double * cl) {
 	int nthread = omp_get_max_threads();
 	int nl      = lmax+1;
 	double * buf = calloc(nthread*nl, sizeof(double));
@@ -54,14 +54,14 @@ void alm2cl_dp(int lmax, int mmax, int64_t * mstart, double * alm1, double * alm
 		int id = omp_get_thread_num();
 		if(id == 0) {
 			for(int l = 0; l <= lmax; l++) {
-				int64_t i = mstart[0]*2 + l*2;
+				int64_t i = mstart[0]*2 + l*stride*2;
 				buf[nl*id+l] = alm1[i]*alm2[i]/2;
 			}
 		}
 		#pragma omp for schedule(dynamic)
 		for(int m = 1; m <= mmax; m++) {
 			for(int l = m; l <= lmax; l++) {
-				int64_t i = mstart[m]*2 + l*2;
+				int64_t i = mstart[m]*2 + l*stride*2;
 				buf[nl*id+l] += alm1[i]*alm2[i] + alm1[i+1]*alm2[i+1];
 			}
 		}
@@ -81,7 +81,7 @@ void alm2cl_dp(int lmax, int mmax, int64_t * mstart, double * alm1, double * alm
 // The purpose of this function is to let us generate random numbers
 // in m-major order, which is what's natural for numpy, and then turn
 // them into l-major order afterwards.
-void transpose_alm_dp(int lmax, int mmax, int64_t * mstart, double * ialm, double * oalm) {
+void transpose_alm_dp(int lmax, int mmax, int64_t * mstart, int64_t stride, double * ialm, double * oalm) {
 	int ol, om;
 	int64_t ii, oi;
 	om = ol = 0;
@@ -89,8 +89,8 @@ void transpose_alm_dp(int lmax, int mmax, int64_t * mstart, double * ialm, doubl
 	// if we could calculate om,ol directly from im,il.
 	for(int im = 0; im <= mmax; im++) {
 		for(int il = im; il <= lmax; il++) {
-			ii = mstart[im]+il;
-			oi = mstart[om]+ol;
+			ii = mstart[im]+il*stride;
+			oi = mstart[om]+ol*stride;
 			oalm[2*oi+0] = ialm[2*ii+0];
 			oalm[2*oi+1] = ialm[2*ii+1];
 			om++;
@@ -102,7 +102,7 @@ void transpose_alm_dp(int lmax, int mmax, int64_t * mstart, double * ialm, doubl
 	}
 }
 
-void transpose_alm_sp(int lmax, int mmax, int64_t * mstart, float * ialm, float * oalm) {
+void transpose_alm_sp(int lmax, int mmax, int64_t * mstart, int64_t stride, float * ialm, float * oalm) {
 	int ol, om;
 	int64_t ii, oi;
 	om = ol = 0;
@@ -110,8 +110,8 @@ void transpose_alm_sp(int lmax, int mmax, int64_t * mstart, float * ialm, float
 	// if we could calculate om,ol directly from im,il.
 	for(int im = 0; im <= mmax; im++) {
 		for(int il = im; il <= lmax; il++) {
-			ii = mstart[im]+il;
-			oi = mstart[om]+ol;
+			ii = mstart[im]+il*stride;
+			oi = mstart[om]+ol*stride;
 			oalm[2*oi+0] = ialm[2*ii+0];
 			oalm[2*oi+1] = ialm[2*ii+1];
 			om++;
@@ -124,11 +124,11 @@ void transpose_alm_sp(int lmax, int mmax, int64_t * mstart, float * ialm, float
 }
 
 // Multiply a scalar alm by a scalar function of l
-void lmul_dp(int lmax, int mmax, int64_t * mstart, double * alm, int lfmax, const double * lfun) {
+void lmul_dp(int lmax, int mmax, int64_t * mstart, int64_t stride, double * alm, int lfmax, const double * lfun) {
 	#pragma omp parallel for
 	for(int m = 0; m <= mmax; m++) {
 		for(int l = m; l <= lmax; l++) {
-			int64_t i = mstart[m]+l;
+			int64_t i = mstart[m]+l*stride;
 			double  v = l <= lfmax ? lfun[l] : 0;
 			alm[2*i+0] *= v;
 			alm[2*i+1] *= v;
@@ -137,11 +137,11 @@ void lmul_dp(int lmax, int mmax, int64_t * mstart, double * alm, int lfmax, cons
 }
 
 // Multiply a scalar alm by a scalar function of l
-void lmul_sp(int lmax, int mmax, int64_t * mstart, float * alm, int lfmax, const float * lfun) {
+void lmul_sp(int lmax, int mmax, int64_t * mstart, int64_t stride, float * alm, int lfmax, const float * lfun) {
 	#pragma omp parallel for
 	for(int m = 0; m <= mmax; m++) {
 		for(int l = m; l <= lmax; l++) {
-			int64_t i = mstart[m]+l;
+			int64_t i = mstart[m]+l*stride;
 			float   v = l <= lfmax ? lfun[l] : 0;
 			alm[2*i+0] *= v;
 			alm[2*i+1] *= v;
@@ -150,7 +150,7 @@ void lmul_sp(int lmax, int mmax, int64_t * mstart, float * alm, int lfmax, const
 }
 
 // Multiply matrix [N,M,l] by alm [M,nalm] producing oalm[N,nalm]
-void lmatmul_dp(int N, int M, int lmax, int mmax, int64_t * mstart, double ** alm, int lfmax, double ** lmat, double ** oalm) {
+void lmatmul_dp(int N, int M, int lmax, int mmax, int64_t * mstart, int64_t stride, double ** alm, int lfmax, double ** lmat, double ** oalm) {
 	int leff = min(lmax, lfmax);
 	#pragma omp parallel
 	{
@@ -163,7 +163,7 @@ void lmatmul_dp(int N, int M, int lmax, int mmax, int64_t * mstart, double ** al
 		#pragma omp for
 		for(int m = 0; m <= mmax; m++) {
 			for(int l = m; l <= leff; l++) {
-				int64_t i = mstart[m]+l;
+				int64_t i = mstart[m]+l*stride;
 				// Zero out the work arrays
 				for(int r = 0; r < N; r++) { vreal[r] = vimag[r] = 0; }
 				// rc,c->r
@@ -188,7 +188,7 @@ void lmatmul_dp(int N, int M, int lmax, int mmax, int64_t * mstart, double ** al
 	for(int r = 0; r < N; r++) {
 		for(int m = 0; m <= mmax; m++) {
 			for(int l = max(m,leff+1); l <= lmax; l++) {
-				int64_t i = mstart[m]+l;
+				int64_t i = mstart[m]+l*stride;
 				oalm[r][2*i+0] = oalm[r][2*i+1] = 0;
 			}
 		}
@@ -196,7 +196,7 @@ void lmatmul_dp(int N, int M, int lmax, int mmax, int64_t * mstart, double ** al
 }
 
 // Multiply matrix [N,M,l] by alm [M,nalm] producing oalm[N,nalm]
-void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm, int lfmax, float ** lmat, float ** oalm) {
+void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, int64_t stride, float ** alm, int lfmax, float ** lmat, float ** oalm) {
 	int leff = min(lmax,lfmax);
 	#pragma omp parallel
 	{
@@ -209,7 +209,7 @@ void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm
 		#pragma omp for
 		for(int m = 0; m <= mmax; m++) {
 			for(int l = m; l <= leff; l++) {
-				int64_t i = mstart[m]+l;
+				int64_t i = mstart[m]+l*stride;
 				// Zero out the work arrays
 				for(int r = 0; r < N; r++) { vreal[r] = vimag[r] = 0; }
 				// rc,c->r
@@ -234,7 +234,7 @@ void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm
 	for(int r = 0; r < N; r++) {
 		for(int m = 0; m <= mmax; m++) {
 			for(int l = max(m,leff+1); l <= lmax; l++) {
-				int64_t i = mstart[m]+l;
+				int64_t i = mstart[m]+l*stride;
 				oalm[r][2*i+0] = oalm[r][2*i+1] = 0;
 			}
 		}
diff --git a/cython/cmisc_core.h b/cython/cmisc_core.h
index bab7339..7cbeb3a 100644
--- a/cython/cmisc_core.h
+++ b/cython/cmisc_core.h
@@ -1,11 +1,11 @@
 #include <stdint.h>
-void alm2cl_sp(int lmax, int mmax, int64_t * mstart, float  * alm1, float  * alm2, float  * cl);
-void alm2cl_dp(int lmax, int mmax, int64_t * mstart, double * alm1, double * alm2, double * cl);
-void transpose_alm_dp(int lmax, int mmax, int64_t * mstart, double * ialm, double * oalm);
-void transpose_alm_sp(int lmax, int mmax, int64_t * mstart, float * ialm, float * oalm);
-void lmul_dp(int lmax, int mmax, int64_t * mstart, double * alm, int lfmax, const double * lfun);
-void lmul_sp(int lmax, int mmax, int64_t * mstart, float * alm, int lfmax, const float * lfun);
+void alm2cl_sp(int lmax, int mmax, int64_t * mstart, int64_t stride, float  * alm1, float  * alm2, float  * cl);
+void alm2cl_dp(int lmax, int mmax, int64_t * mstart, int64_t stride, double * alm1, double * alm2, double * cl);
+void transpose_alm_dp(int lmax, int mmax, int64_t * mstart, int64_t stride, double * ialm, double * oalm);
+void transpose_alm_sp(int lmax, int mmax, int64_t * mstart, int64_t stride, float * ialm, float * oalm);
+void lmul_dp(int lmax, int mmax, int64_t * mstart, int64_t stride, double * alm, int lfmax, const double * lfun);
+void lmul_sp(int lmax, int mmax, int64_t * mstart, int64_t stride, float * alm, int lfmax, const float * lfun);
 void transfer_alm_dp(int lmax1, int mmax1, int64_t * mstart1, double * alm1, int lmax2, int mmax2, int64_t * mstart2, double * alm2);
 void transfer_alm_sp(int lmax1, int mmax1, int64_t * mstart1, float * alm1, int lmax2, int mmax2, int64_t * mstart2, float * alm2);
-void lmatmul_dp(int N, int M, int lmax, int mmax, int64_t * mstart, double ** alm, int lfmax, double ** lmat, double ** oalm);
-void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm, int lfmax, float ** lmat, float ** oalm);
+void lmatmul_dp(int N, int M, int lmax, int mmax, int64_t * mstart, int64_t stride, double ** alm, int lfmax, double ** lmat, double ** oalm);
+void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, int64_t stride, float ** alm, int lfmax, float ** lmat, float ** oalm);
-- 
2.43.0


From 3abd7c7ff6e2ac8958763575117bd5b17202e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:19 +0000
Subject: [PATCH 050/151] fix: alm2cl, transpose_alm and the matrix version of
 lmul failed for read-only input

---
 cython/cmisc.pyx | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/cython/cmisc.pyx b/cython/cmisc.pyx
index cae7221..fdfa7ab 100644
--- a/cython/cmisc.pyx
+++ b/cython/cmisc.pyx
@@ -24,16 +24,18 @@ def alm2cl(ainfo, alm, alm2=None):
 	# Broadcast alms. This looks scary, but just results in views of the original
 	# arrays according to the documentation. Hence, it shouldn't use more memory.
 	# The resulting arrays are non-contiguous, but each individual alm is still
-	# contiguous. We set the writable flags not because we intend to write, but
-	# to silience a false positive warning from numpy
-	alm, alm2 = np.broadcast_arrays(alm, alm2)
-	alm.flags["WRITEABLE"] = alm2.flags["WRITEABLE"] = True
+	# contiguous. The views are read-only, which also works for read-only input.
+	pshape = np.broadcast_shapes(alm.shape, alm2.shape)
+	alm    = np.broadcast_to(alm,  pshape)
+	alm2   = np.broadcast_to(alm2, pshape)
 	# I used to flatten here to make looping simple, but that caused a copy to be made
 	# when combined with np.broadcast. So instead I will use manual raveling
 	pshape = alm.shape[:-1]
 	npre   = int(np.prod(pshape))
-	cdef float[::1]  cl_single_sp, alm_single_sp1, alm_single_sp2
-	cdef double[::1] cl_single_dp, alm_single_dp1, alm_single_dp2
+	cdef float[::1]  cl_single_sp
+	cdef double[::1] cl_single_dp
+	cdef const float[::1]  alm_single_sp1, alm_single_sp2
+	cdef const double[::1] alm_single_dp1, alm_single_dp2
 	cdef int64_t[::1] mstart = np.ascontiguousarray(ainfo.mstart).view(np.int64)
 	# A common use case is to compute TEBxTEB auto-cross spectra, where
 	# e.g. TE === ET since alm1 is the same array as alm2. To avoid duplicate
@@ -53,7 +55,7 @@ def alm2cl(ainfo, alm, alm2=None):
 				alm_single_sp1 = np.ascontiguousarray(alm [I]).view(np.float32)
 				alm_single_sp2 = np.ascontiguousarray(alm2[I]).view(np.float32)
 				cl_single_sp = cl[I]
-				cmisc.alm2cl_sp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &alm_single_sp1[0], &alm_single_sp2[0], &cl_single_sp[0])
+				cmisc.alm2cl_sp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, <float*>&alm_single_sp1[0], <float*>&alm_single_sp2[0], &cl_single_sp[0])
 				cache[key] = cl[I]
 		return cl
 	elif alm.dtype == np.complex128:
@@ -68,7 +70,7 @@ def alm2cl(ainfo, alm, alm2=None):
 				alm_single_dp1 = np.ascontiguousarray(alm [I]).view(np.float64)
 				alm_single_dp2 = np.ascontiguousarray(alm2[I]).view(np.float64)
 				cl_single_dp = cl[I]
-				cmisc.alm2cl_dp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &alm_single_dp1[0], &alm_single_dp2[0], &cl_single_dp[0])
+				cmisc.alm2cl_dp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, <double*>&alm_single_dp1[0], <double*>&alm_single_dp2[0], &cl_single_dp[0])
 				cache[key] = cl[I]
 		return cl
 	else:
@@ -100,19 +102,21 @@ def transpose_alm(ainfo, alm, out=None):
 	# Could avoid it for the non-inplace case, but for now always use it
 	work = np.zeros(alm.shape[-1:], alm.dtype)
 	cdef int64_t[::1] mstart = np.ascontiguousarray(ainfo.mstart).view(np.int64)
-	cdef float[::1]  alm_sp, work_sp
-	cdef double[::1] alm_dp, work_dp
+	cdef float[::1]  work_sp
+	cdef double[::1] work_dp
+	cdef const float[::1]  alm_sp
+	cdef const double[::1] alm_dp
 	if out.dtype == np.complex128:
 		work_dp = work.view(np.float64)
 		for I in nditer(alm.shape[:-1]):
 			alm_dp = alm[I].view(np.float64)
-			cmisc.transpose_alm_dp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &alm_dp[0], &work_dp[0])
+			cmisc.transpose_alm_dp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, <double*>&alm_dp[0], &work_dp[0])
 			out[I] = work.view(np.complex128)
 	elif out.dtype == np.complex64:
 		work_sp = work.view(np.float32)
 		for I in nditer(alm.shape[:-1]):
 			alm_sp = alm[I].view(np.float32)
-			cmisc.transpose_alm_sp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &alm_sp[0], &work_sp[0])
+			cmisc.transpose_alm_sp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, <float*>&alm_sp[0], &work_sp[0])
 			out[I] = work.view(np.complex64)
 	else:
 		raise ValueError("transpose_alm requires contiguous complex64 or complex128 arrays")
@@ -207,7 +211,7 @@ cdef _lmul_sp(ainfo, alm, lfun):
 		cmisc.lmul_sp(ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, &_alm[0], lfun.shape[1]-1, &_lfun[0])
 
 # Yuck! Cython is a pain. There must be an easier way to do this, but I didn't find it.
-cdef _lmatmul_dp(ainfo, np.complex128_t[:,:] alm, np.float64_t[:,:,:] lfun, np.complex128_t[:,:] out):
+cdef _lmatmul_dp(ainfo, const np.complex128_t[:,:] alm, const np.float64_t[:,:,:] lfun, np.complex128_t[:,:] out):
 	cdef int64_t[::1] mstart = np.ascontiguousarray(ainfo.mstart).view(np.int64)
 	cdef np.uintp_t[::1] aptrs = np.empty(alm.shape[0], dtype=np.uintp)
 	cdef np.uintp_t[::1] optrs = np.empty(out.shape[0], dtype=np.uintp)
@@ -222,7 +226,7 @@ cdef _lmatmul_dp(ainfo, np.complex128_t[:,:] alm, np.float64_t[:,:,:] lfun, np.c
 	for j in range(M): aptrs[j] = <np.uintp_t>&alm[j,0]
 	cmisc.lmatmul_dp(N, M, ainfo.lmax, ainfo.mmax, &mstart[0], ainfo.stride, <double**>&aptrs[0], lfun.shape[2]-1, <double**>&fptrs[0], <double**>&optrs[0])
 
-cdef _lmatmul_sp(ainfo, np.complex64_t[:,:] alm, np.float32_t[:,:,:] lfun, np.complex64_t[:,:] out):
+cdef _lmatmul_sp(ainfo, const np.complex64_t[:,:] alm, const np.float32_t[:,:,:] lfun, np.complex64_t[:,:] out):
 	cdef int64_t[::1] mstart = np.ascontiguousarray(ainfo.mstart).view(np.int64)
 	cdef np.uintp_t[::1] aptrs = np.empty(alm.shape[0], dtype=np.uintp)
 	cdef np.uintp_t[::1] optrs = np.empty(out.shape[0], dtype=np.uintp)
-- 
2.43.0


From 1386113a8bbb62bbfcf018ea7c957db428b34064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:26 +0000
Subject: [PATCH 051/151] fix: lmul rounded the filter to integers when given
 integer coefficients

---
 cython/cmisc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc.pyx b/cython/cmisc.pyx
index fdfa7ab..7f8d72e 100644
--- a/cython/cmisc.pyx
+++ b/cython/cmisc.pyx
@@ -157,7 +157,7 @@ def lmul(ainfo, alm, lfun, out=None):
 	# alm must be complex, lfun must be the corresponding real type
 	alm  = np.asarray(alm)
 	ctype= np.result_type(alm.dtype, 0j)
-	rtype= np.zeros(1, alm.dtype).real.dtype
+	rtype= np.zeros(1, ctype).real.dtype
 	# The arrays need to be contiguous along the last dimension
 	alm  = aslastcontig(alm,  dtype=ctype)
 	lfun = aslastcontig(lfun, dtype=rtype)
-- 
2.43.0


From 28b387d33a6ed6847a55781f62e40841f09b43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:26 +0000
Subject: [PATCH 052/151] fix: lmul accepted output arrays of the wrong type or
 layout and left them unfilled or filled with garbage

---
 cython/cmisc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc.pyx b/cython/cmisc.pyx
index 7f8d72e..79ee699 100644
--- a/cython/cmisc.pyx
+++ b/cython/cmisc.pyx
@@ -161,7 +161,7 @@ def lmul(ainfo, alm, lfun, out=None):
 	# The arrays need to be contiguous along the last dimension
 	alm  = aslastcontig(alm,  dtype=ctype)
 	lfun = aslastcontig(lfun, dtype=rtype)
-	if out is not None and not islastcontig(out) and out.dtype != ctype:
+	if out is not None and (not islastcontig(out) or out.dtype != ctype):
 		raise ValueError("lmul's out argument must be contiguous along last axis, and have the same dtype as alm")
 	# Are we doing a matmul?
 	if lfun.ndim == 3 and alm.ndim == 2:
-- 
2.43.0


From 2fb0d9c56cf65b54fd56a3013529958879d8b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:26 +0000
Subject: [PATCH 053/151] fix: lmul did not fill output arrays whose leading
 dimensions cannot be flattened

---
 cython/cmisc.pyx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cython/cmisc.pyx b/cython/cmisc.pyx
index 79ee699..1de07c5 100644
--- a/cython/cmisc.pyx
+++ b/cython/cmisc.pyx
@@ -181,15 +181,17 @@ def lmul(ainfo, alm, lfun, out=None):
 		aflat= alm.reshape(-1,alm.shape[-1])
 		lflat= lfun.reshape(-1,lfun.shape[-1])
 		if out is None:
-			out = aflat.copy()
+			oflat = aflat.copy()
 		else:
-			out = out.reshape(aflat.shape)
-			out[:] = aflat
-		if alm.dtype == np.complex128:  _lmul_dp(ainfo, out, lflat)
-		elif alm.dtype == np.complex64: _lmul_sp(ainfo, out, lflat)
+			oflat = out.reshape(aflat.shape)
+			oflat[:] = aflat
+		if alm.dtype == np.complex128:  _lmul_dp(ainfo, oflat, lflat)
+		elif alm.dtype == np.complex64: _lmul_sp(ainfo, oflat, lflat)
 		else: raise ValueError("lmul requires complex64 or complex128 arrays")
-		# Unflatten output
-		out = out.reshape(pre + out.shape[-1:])
+		# Unflatten output. The flattening may have had to make a copy
+		res = oflat.reshape(pre + oflat.shape[-1:])
+		if out is None: out = res
+		elif not np.may_share_memory(oflat, out): out[:] = res
 	return out
 
 cdef _lmul_dp(ainfo, alm, lfun):
-- 
2.43.0


From 703849e54745f6d5d53396a74c08846128bbabc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 054/151] fix: resample_fft gave modes the wrong frequency when
 the smaller length is odd

---
 pixell/fft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index f486b48..fec7b72 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -419,8 +419,10 @@ def resample_fft(fa, n, out=None, axes=-1, norm=1, op=lambda a,b:b):
 		sel = [slice(None) for n in oshape]
 		for ai, ax in enumerate(axes):
 			c = min(fa.shape[ax], oshape[ax])
-			if I[ai] == 0: sel[ax] = slice(0,c//2)
-			else:          sel[ax] = slice(-(c-c//2),None)
+			# The middle mode of an even number counts as negative, so there can be one less negative than non-negative ones
+			npos = (c+1)//2
+			if I[ai] == 0: sel[ax] = slice(0,npos)
+			else:          sel[ax] = slice(-(c-npos),None) if c > npos else slice(0,0)
 		sel = tuple(sel)
 		transfer(out[sel], fa[sel], norm, op)
 	return out
-- 
2.43.0


From 81f6d5c38cd64c8ba86fbae8c9f70638ea98bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 055/151] fix: chebt and ichebt scaled elements along the first
 axis while transforming along the last

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index fec7b72..e95a2d9 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -309,13 +309,13 @@ def redft00(a, b=None, nthread=0, normalize=False, flags=None, engine="auto"):
 def chebt(a, b=None, nthread=0, flags=None, engine="auto"):
 	"""The chebyshev transform of a, along its last dimension."""
 	b = redft00(a, b, nthread, normalize=True, flags=flags, engine=engine)
-	b[1:-1] *= 2
+	b[...,1:-1] *= 2
 	return b
 
 def ichebt(a, b=None, nthread=0, engine="auto"):
 	"""The inverse chebyshev transform of a, along its last dimension."""
 	a = asfcarray(a).copy()
-	a[1:-1] *= 0.5
+	a[...,1:-1] *= 0.5
 	return redft00(a, b, nthread, engine=engine)
 
 def fft_len(n, direction="below", factors=None):
-- 
2.43.0


From 27fd94125cce96e90eabbd5ecdc099005f290d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:37 +0000
Subject: [PATCH 056/151] fix: Inverse transforms chose between real and
 complex output by shape, failing for real transforms of length 1 and 2 and
 for real input

---
 pixell/fft.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index e95a2d9..81fab54 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -21,7 +21,7 @@ class numpy_FFTW:
 				# Real to complex
 				self.b[:] = np.fft.rfftn(self.a, axes=self.axes)
 		else:
-			if self.a.shape == self.b.shape:
+			if np.iscomplexobj(self.b):
 				# Complex to complex
 				self.b[:] = np.fft.ifftn(self.a, axes=self.axes)
 			else:
@@ -53,7 +53,7 @@ class ducc_FFTW:
 				# Real to complex
 				ducc0.fft.r2c(self.a, axes=self.axes, out=self.b, nthreads=self.threads)
 		elif self.direction == "FFTW_BACKWARD":
-			if self.a.shape == self.b.shape:
+			if np.iscomplexobj(self.b):
 				# Complex to complex
 				ducc0.fft.c2c(a=self.a, axes=self.axes, out=self.b, forward=False, inorm=2 if normalise_idft else 0, nthreads=self.threads)
 			else:
@@ -170,7 +170,10 @@ def ifft(ft, tod=None, nthread=0, normalize=False, axes=[-1],flags=None, engine=
 	if ft.size == 0: return
 	nt = nthread or nthread_ifft
 	if flags is None: flags = default_flags
-	if tod is None:	tod = empty(ft.shape, ft.dtype)
+	if tod is None:
+		otype = np.result_type(ft.dtype,0j)
+		tod = empty(ft.shape, otype)
+		ft  = ft.astype(otype, copy=False)
 	engine = get_engine(engine)
 	if engine == 'intel':
 		tod[:] = ifft_flat(ft, tod, axes=axes, nthread=nt, flags=flags)
-- 
2.43.0


From e44bb89752bf8eb5dec2c33836fc6283f7c5017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:37 +0000
Subject: [PATCH 057/151] fix: The numpy engine silently did an inverse fft
 instead of the requested cosine or sine transform

---
 pixell/fft.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 81fab54..dfddd34 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -1,6 +1,6 @@
 """This is a convenience wrapper of pyfftw."""
 from __future__ import print_function, division
-import numpy as np, multiprocessing, os
+import numpy as np, multiprocessing, os, scipy.fft
 from . import utils
 engines = {}
 
@@ -20,6 +20,13 @@ class numpy_FFTW:
 			else:
 				# Real to complex
 				self.b[:] = np.fft.rfftn(self.a, axes=self.axes)
+		elif not isinstance(self.direction, str):
+			# Real to real. One entry per axis
+			self.b[:] = self.a
+			for kind, axis in zip(self.direction, self.axes):
+				name = {"REDFT":"dct","RODFT":"dst"}[kind[5:10]]
+				num  = {"00":1, "10": 2, "01": 3, "11":4}[kind[10:12]]
+				self.b[:] = getattr(scipy.fft, name)(self.b, type=num, axis=axis)
 		else:
 			if np.iscomplexobj(self.b):
 				# Complex to complex
-- 
2.43.0


From 78bbe033ae5e85a33556f3d1f71ee3c78a8e1a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:37 +0000
Subject: [PATCH 058/151] fix: enmap.fft and ifft with dct=True were not
 inverses of each other due to a wrong normalization

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index d6eeb79..fe14c8b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1281,7 +1281,7 @@ def fft(emap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=Fals
 	else:   res  = samewcs(enfft.fft(emap,omap,axes=[-2,-1],nthread=nthread), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_ifft: norm /= emap.pixsize()**0.5
@@ -1294,7 +1294,7 @@ def ifft(emap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=Fals
 	else:   res  = samewcs(enfft.ifft(emap,omap,axes=[-2,-1],nthread=nthread, normalize=False), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_fft: norm *= emap.pixsize()**0.5
-- 
2.43.0


From d0010d476ab7230798e71a0f4c238bb02f56537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:37 +0000
Subject: [PATCH 059/151] fix: Oversampled wavenumbers failed or were shifted
 the wrong way for axes with one or two pixels

---
 pixell/enmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index fe14c8b..8d9ae6e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1254,8 +1254,9 @@ def laxes(shape, wcs, oversample=1, method="auto", broadcastable=False):
 		# In general [0,a,2a,3a,...] os n => a*(-1+(2*i+1)/n)/2
 		# Since fftfreq generates a*i, the difference is a/2*(-1+1/n)
 		def shift(l,a,n): return l+a/2*(-1+1./n)
-		ly = shift(ly,ly[oversample],oversample)
-		lx = shift(lx,lx[oversample],oversample)
+		# The unoversampled step. Can't use ly[oversample] since that's negative for length 2 and missing for length 1
+		ly = shift(ly,2*np.pi/(shape[-2]*step[0]),oversample)
+		lx = shift(lx,2*np.pi/(shape[-1]*step[1]),oversample)
 	if broadcastable: ly, lx = ly[:,None], lx[None,:]
 	return ly, lx
 
-- 
2.43.0


From a69b8950eeeab677a91477e28936833c27c8ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:30 +0000
Subject: [PATCH 060/151] fix: nu2u and iu2nu failed for real values and for
 positions with more than one dimension

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index dfddd34..983a0cb 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -509,7 +509,7 @@ def nu2u(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=No
 		epsilon=epsilon, nthread=nthread, normalize=normalize, complex=complex)
 	work = np.zeros(h.tshape, h.ctype)
 	for uI, nuI in zip(h.uiter, h.nuiter):
-		res = ducc0.nufft.nu2u(points=h.nu[nuI], coord=h.iflat, out=work,
+		res = ducc0.nufft.nu2u(points=h.nu[nuI].reshape(-1).astype(h.ctype, copy=False), coord=h.iflat, out=work,
 			forward=forward, epsilon=h.epsilon, nthreads=h.nthread,
 			periodicity=h.periodicity, fft_order=True)
 		if not np.iscomplexobj(h.u):
@@ -552,7 +552,7 @@ def iu2nu(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=N
 		# with solution out = (P'P)"P'a. The CG solver wants real numbers, though,
 		# so we hack around that with view
 		# Set up the equation system. Our degrees of freedom are flattened real u
-		b = wzip(PT(h.nu[nuI].reshape(-1)))
+		b = wzip(PT(h.nu[nuI].reshape(-1).astype(h.ctype, copy=False)))
 		def A(x): return wzip(PT(P(wunzip(x))))
 		solver = utils.CG(A, b)
 		while solver.err > h.epsilon:
-- 
2.43.0


From b1107c8e194030b0ef412f8f761f36740100547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 061/151] fix: Non-uniform transforms ignored the order of the
 axes argument

---
 pixell/fft.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 983a0cb..18b066e 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -491,7 +491,7 @@ def u2nu(fa, inds, out=None, axes=None, periodicity=None, epsilon=None, nthread=
 		epsilon=epsilon, nthread=nthread, normalize=normalize, complex=complex)
 	if op is None: op = lambda fa, h: fa
 	for uI, nuI in zip(h.uiter, h.nuiter):
-		grid = op(h.u[uI],h).astype(h.ctype, copy=False)
+		grid = op(h.u[uI].transpose(h.perm),h).astype(h.ctype, copy=False)
 		res  = ducc0.nufft.u2nu(grid=grid, coord=h.iflat, forward=forward,
 			epsilon=h.epsilon, nthreads=h.nthread, periodicity=h.periodicity,
 			fft_order=True)
@@ -514,7 +514,7 @@ def nu2u(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=No
 			periodicity=h.periodicity, fft_order=True)
 		if not np.iscomplexobj(h.u):
 			res = res.real
-		h.u[uI] = res
+		h.u[uI] = res.transpose(h.iperm)
 	if h.normalize:
 		h.u /= h.norm
 	return h.u
@@ -560,7 +560,7 @@ def iu2nu(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=N
 		res = wunzip(solver.x)
 		if not np.iscomplexobj(h.u):
 			res = res.real
-		h.u[uI] = res
+		h.u[uI] = res.transpose(h.iperm)
 	if h.normalize:
 		h.u *= h.norm
 	return h.u
@@ -582,7 +582,7 @@ def inu2u(fa, inds, out=None, axes=None, periodicity=None, epsilon=None, nthread
 		# Invert nu2u by finding the least-squares solution to
 		#  fa = nu2u(out, inds). Written linearly this is fa = P out
 		# with solution out = (P'P)"P'fa
-		b = wzip(PT(h.u[uI]))
+		b = wzip(PT(h.u[uI].transpose(h.perm)))
 		def A(x): return wzip(PT(P(wunzip(x))))
 		solver = utils.CG(A, b)
 		while solver.err > h.epsilon:
@@ -636,7 +636,8 @@ class u2nu_plan:
 		self.nthread = nthread or nthread_fft
 		self.plans = []
 		for I in utils.nditer(self.shape, axes=self.paxes):
-			faI        = op(fa[I])
+			# fa[I] has the axes in increasing order, not the one they were given in
+			faI        = op(fa[I].transpose(np.argsort(np.argsort([ax%fa.ndim for ax in self.axes]))))
 			self.ctype = faI.dtype
 			# Target accuracy
 			if epsilon is None:
@@ -765,10 +766,14 @@ def _nufft_helper(u, nu, inds, axes=None, periodicity=None, epsilon=None,
 	other_axes = tuple(utils.complement_inds(axes, u.ndim))
 	axall = tuple(range(ndim))
 	norm  = np.prod([u.shape[ax] for ax in axes])
+	# u[uI] has the transformed axes in increasing order. These take that to the
+	# order given in axes and back
+	perm  = np.argsort(np.argsort([ax%u.ndim for ax in axes]))
+	iperm = np.argsort(perm)
 	uiter  = utils.nditer(u.shape, axes=other_axes)
 	nuiter = utils.nditer(nu.shape[:npre])
 	return bunch.Bunch(u=u, nu=nu, inds=inds, iflat=iflat,
 		epsilon=epsilon, nthread=nthread, normalize=normalize, norm=norm,
 		periodicity=periodicity, pshape=pshape, tshape=tshape, npoint=npoint,
-		other_axes=other_axes, axall=axall, complex=complex, rtype=rtype,
+		other_axes=other_axes, axall=axall, perm=perm, iperm=iperm, complex=complex, rtype=rtype,
 		ctype=ctype, npre=npre, uiter=uiter, nuiter=nuiter)
-- 
2.43.0


From 917cf670f18609c35f6e03862cecef3633daa1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:35 +0000
Subject: [PATCH 062/151] fix: fft and ifft returned None instead of the empty
 transform of an empty array

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 18b066e..88d5550 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -147,13 +147,13 @@ def fft(tod, ft=None, nthread=0, axes=[-1], flags=None, _direction="FFTW_FORWARD
 	of cores on the computer otherwise."""
 	tod  = asfcarray(tod)
 	axes = utils.astuple(-1 if axes is None else axes)
-	if tod.size == 0: return
 	nt = nthread or nthread_fft
 	if flags is None: flags = default_flags
 	if ft is None:
 		otype = np.result_type(tod.dtype,0j)
 		ft  = empty(tod.shape, otype)
 		tod = tod.astype(otype, copy=False)
+	if tod.size == 0: return ft
 	engine = get_engine(engine)
 	if engine == 'intel':
 		ft[:] = fft_flat(tod, ft, axes=axes, nthread=nt, flags=flags, _direction=_direction)
@@ -174,13 +174,13 @@ def ifft(ft, tod=None, nthread=0, normalize=False, axes=[-1],flags=None, engine=
 	on, though the normalization step will not use paralellization."""
 	ft   = asfcarray(ft)
 	axes = utils.astuple(-1 if axes is None else axes)
-	if ft.size == 0: return
 	nt = nthread or nthread_ifft
 	if flags is None: flags = default_flags
 	if tod is None:
 		otype = np.result_type(ft.dtype,0j)
 		tod = empty(ft.shape, otype)
 		ft  = ft.astype(otype, copy=False)
+	if ft.size == 0: return tod
 	engine = get_engine(engine)
 	if engine == 'intel':
 		tod[:] = ifft_flat(ft, tod, axes=axes, nthread=nt, flags=flags)
-- 
2.43.0


From 80f4466f62503e9312a3694c4a41358683f57338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:04 +0000
Subject: [PATCH 063/151] fix: interpol.map_coordinates with zero border
 ignored all samples after the first one outside the array

---
 fortran/interpol.F90 | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 92c2da8..c4352fb 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -469,8 +469,13 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 		!  D20*W20*W01 D21*W20*W11 D22*W20*W21
 		! So loop through each cell of context
 		if(.not. trans) res  = 0
-		inds = 0
 		cloop: do ci = 1, ncon
+			! Find this cell's index along each dimension
+			j = ci-1
+			do i = ndim,1,-1
+				inds(i) = modulo(j,nw)
+				j = j/nw
+			end do
 			! Get the value of this cell of context, taking into
 			! account boundary conditions
 			dind = 0
@@ -504,12 +509,6 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 					idata(dind+1,j) = idata(dind+1,j) + v(j)
 				end do
 			end if
-			! Advance to next cell
-			do i = ndim,1,-1
-				inds(i) = inds(i) + 1
-				if(inds(i) < nw) exit
-				inds(i) = 0
-			end do
 		end do cloop
 		if(.not. trans) odata(si,:) = res
 	end do
@@ -555,8 +554,13 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 		!  D20*W20*W01 D21*W20*W11 D22*W20*W21
 		! So loop through each cell of context
 		if(.not. trans) res  = 0
-		inds = 0
 		cloop: do ci = 1, ncon
+			! Find this cell's index along each dimension
+			j = ci-1
+			do i = ndim,1,-1
+				inds(i) = modulo(j,nw)
+				j = j/nw
+			end do
 			! Get the value of this cell of context, taking into
 			! account boundary conditions
 			dind = 0
@@ -599,12 +603,6 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 					end do
 				end do
 			end if
-			! Advance to next cell
-			do i = ndim,1,-1
-				inds(i) = inds(i) + 1
-				if(inds(i) < nw) exit
-				inds(i) = 0
-			end do
 		end do cloop
 		if(.not. trans) odata(si,:,:) = res
 	end do
-- 
2.43.0


From eefc773ddbaeab0b3e1338c254492b575e06c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:04 +0000
Subject: [PATCH 064/151] fix: interpol.map_coordinates derivatives: wrong for
 cubic splines, at sample positions with the cubic convolution kernel, and
 transposed

---
 fortran/interpol.F90 | 51 +++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index c4352fb..b7d3ba7 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -372,7 +372,7 @@ pure subroutine calc_weights_deriv(type, order, p, weights, off)
 							if    (x < 0.5) then; weights(j,i) = -2*x
 							elseif(x < 1.5) then; weights(j,i) = -(1.5-x); end if
 						case(3)
-							if    (x < 1.0) then; weights(j,i) = x**2 - x*2/3
+							if    (x < 1.0) then; weights(j,i) = x**2*3/2 - x*2
 							elseif(x < 2.0) then; weights(j,i) = -(2-x)**2/2; end if
 						case(4)
 							if    (x < 0.5) then; weights(j,i) = 2*x * (x**2 * 0.25-0.625d0) + x**2 * 2*x * 0.25
@@ -530,9 +530,9 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 	integer, intent(in)    :: ishape(:), type, order, border
 	logical, intent(in)    :: trans
 	real(_), allocatable   :: weights(:,:), dweights(:,:)
-	real(_) :: v(size(idata,2)), res(size(idata,2),size(pos,2)) ! (npre), (npre,ndim)
+	real(_) :: w, res(size(idata,2),size(pos,2)) ! (npre), (npre,ndim)
 	integer :: off(size(pos,2)), inds(size(pos,2))
-	integer :: xi, si, ci, i, j, dind, ndim, nsamp, nw, npre, ncon, n
+	integer :: xi, si, ci, i, j, d, dind, ndim, nsamp, nw, npre, ncon, n
 
 	ndim  = size(pos,2)
 	nsamp = size(pos,1)
@@ -540,7 +540,7 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 	nw    = get_weight_length(type, order)
 	ncon  = nw**ndim
 	if(trans) idata = 0
-	!$omp parallel private(si,weights,dweights,off,res,inds,ci,dind,i,xi,v,j,n)
+	!$omp parallel private(si,weights,dweights,off,res,inds,ci,dind,i,xi,w,d,j,n)
 	allocate(weights(nw,ndim),dweights(nw,ndim))
 	!$omp do
 	do si = 1, nsamp
@@ -573,36 +573,23 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 				if(xi < 0) cycle cloop
 				dind = dind * n + xi
 			end do
-			if(.not. trans) then
-				! Standard interpolation
-				v = idata(dind+1,:)
-				! Now multiply this value by all the relevant weights, one
-				! for each dimension
-				do i = 1, ndim
-					v = v * weights(inds(i)+1,i)
+			! Deriv of v1 v2 v3 ... = dv1 v2 v3 ... + v1 dv2 v3 ... + ...
+			do i = 1, ndim
+				w = dweights(inds(i)+1,i)
+				do d = 1, ndim
+					if(d .ne. i) w = w * weights(inds(d)+1,d)
 				end do
-				! Deriv of v1 v2 v3 ... = (dv1/v1 + dv2/v2 + ...)*v1*v2*v3 ...
-				do j = 1, npre
-					if(v(j) == 0) cycle
-					do i = 1, ndim
-						res(j,i) = res(j,i) + v(j) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
-					end do
-				end do
-			else
-				! Transposed interpolation
-				res = odata(si,:,:)
-				do i = 1, ndim
-					res(i,:) = res(i,:) * weights(inds(i)+1,i)
-				end do
-				do j = 1, npre
-					do i = 1, ndim
-						if(weights(j,i) .ne. 0) then
-							!$omp atomic
-							idata(dind+1,j) = idata(dind+1,j) + res(j,i) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
-						end if
+				if(.not. trans) then
+					! Standard interpolation
+					res(:,i) = res(:,i) + w * idata(dind+1,:)
+				else
+					! Transposed interpolation
+					do j = 1, npre
+						!$omp atomic
+						idata(dind+1,j) = idata(dind+1,j) + w * odata(si,j,i)
 					end do
-				end do
-			end if
+				end if
+			end do
 		end do cloop
 		if(.not. trans) odata(si,:,:) = res
 	end do
-- 
2.43.0


From 6e2b9fca1af3617ad9d65d283d2a6870eb712e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:33 +0000
Subject: [PATCH 065/151] fix: interpol.map_coordinates crashed for axes with a
 single sample

---
 fortran/interpol.F90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index b7d3ba7..905225d 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -112,6 +112,8 @@ subroutine spline_filter1d(data, dims, axis, order, border, trans)
 			pole(2) = sqrt(67.5d0 + sqrt(4436.25d0)) - sqrt(26.25d0) - 6.5d0
 		case default; return
 	end select
+	! A single sample is its own spline coefficient
+	if(n == 1) return
 	weight = product((1-pole(1:npole))*(1-1/pole(1:npole)))
 	if(.not. trans) then
 		pi1 = 1; pi2 = npole; dpi = 1
@@ -409,7 +411,7 @@ pure function map_border(border, n, i) result(v)
 			case(2) ! cyclic
 				v = modulo(i, n)
 			case(3) ! mirrored
-				v = modulo(i, 2*n-2)
+				v = modulo(i, max(2*n-2,1))
 				if(v >= n) v = 2*n-2-v
 			case default
 				v = -1
-- 
2.43.0


From b407dc07f31e29b9b7f3dd27f495d76bf4236a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:33 +0000
Subject: [PATCH 066/151] fix: interpol.map_coordinates and spline_filter with
 non-contiguous arrays

---
 pixell/interpol.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index d6aaaf9..7ced1b3 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -56,6 +56,8 @@ def map_coordinates(idata, points, odata=None, mode="spline", order=3, border="c
 	ndim    = points.shape[0]
 	dpre,dpost= idata.shape[:-ndim], idata.shape[-ndim:]
 	def iprod(x): return np.prod(x).astype(int)
+	# The core needs contiguous arrays, so this can be a copy
+	def flat(x, *dims): return np.ascontiguousarray(x).reshape(*dims)
 	if not trans:
 		if odata is None:
 			if not deriv:
@@ -66,33 +68,36 @@ def map_coordinates(idata, points, odata=None, mode="spline", order=3, border="c
 		if mode == "spline" and prefilter:
 			idata = spline_filter(idata, order=order, border=border, ndim=ndim, trans=False)
 		if not deriv:
+			oflat = flat(odata, iprod(dpre),iprod(points.shape[1:]))
 			core.interpol(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
-				odata.reshape(iprod(dpre),iprod(points.shape[1:])).T,
+				flat(idata, iprod(dpre),iprod(dpost)).T, dpost, oflat.T,
 				points.reshape(ndim, -1).T,
 				imode, order, iborder, False)
 		else:
+			oflat = flat(odata, ndim,iprod(dpre),iprod(points.shape[1:]))
 			core.interpol_deriv(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
-				odata.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
+				flat(idata, iprod(dpre),iprod(dpost)).T, dpost, oflat.T,
 				points.reshape(ndim, -1).T,
 				imode, order, iborder, False)
+		if not np.may_share_memory(oflat, odata): odata[...] = oflat.reshape(odata.shape)
 		return odata
 	else:
 		# We cannot infer the shape of idata from odata and points. So both
 		# idata and odata must be specified in this case.
+		iflat = flat(idata, iprod(dpre),iprod(dpost))
 		if not deriv:
 			core.interpol(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
-				odata.reshape(iprod(dpre),iprod(points.shape[1:])).T,
+				iflat.T, dpost,
+				flat(odata, iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim,-1).T,
 				imode, order, iborder, True)
 		else:
 			core.interpol_deriv(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
-				odata.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
+				iflat.T, dpost,
+				flat(odata, ndim,iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim,-1).T,
 				imode, order, iborder, True)
+		if not np.may_share_memory(iflat, idata): idata[...] = iflat.reshape(idata.shape)
 		if mode == "spline" and prefilter:
 			idata[:] = spline_filter(idata, order=order, border=border, ndim=ndim, trans=True)
 		return idata
@@ -105,7 +110,7 @@ def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
 	to be interpolated. This overhead can be avoided by manually filtering the array
 	once, and then passing in the filtered array to map_coordinates with prefilter=False
 	to turn off the internal filtering."""
-	data = np.array(data)
+	data = np.array(data, order="C")
 	core = get_core(data.dtype)
 	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3}[border]
 	if ndim is None: ndim = data.ndim
-- 
2.43.0


From b3ea5d2fd1c61595e786e0275855bf2c5e5f76b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:33 +0000
Subject: [PATCH 067/151] fix: interpol.spline_filter did not know the reflect
 border of map_coordinates

---
 pixell/interpol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index 7ced1b3..9ec76bb 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -112,7 +112,7 @@ def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
 	to turn off the internal filtering."""
 	data = np.array(data, order="C")
 	core = get_core(data.dtype)
-	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3}[border]
+	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3, "reflect":3}[border]
 	if ndim is None: ndim = data.ndim
 	for axis in range(data.ndim-ndim,data.ndim)[::-1 if trans else 1]:
 		core.spline_filter1d(data.reshape(-1), data.shape, axis, order, iborder, trans)
-- 
2.43.0


From e751893feec92237022f37e5090809b07afd168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:03 +0000
Subject: [PATCH 068/151] fix: interpol with border=wrap used a period of n-1

---
 pixell/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index b6dc03b..93562dc 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -611,19 +611,21 @@ class SplineInterpolator:
 		self.npre = npre % arr.ndim
 		self.cval = cval
 		self.border = border
+		# scipy's wrap mode has a period of n-1 instead of n
+		self.smode  = "grid-wrap" if border == "wrap" else border
 		if self.mode != "spline": raise ValueError("Unrecognized spline interpolation mode '%s'" % str(mode))
 		arr = np.asanyarray(arr)
 		if self.order > 1:
 			arr = arr.copy()
 			for I in nditer(arr.shape[:npre]):
-				arr[I] = scipy.ndimage.spline_filter(arr[I], order=self.order, mode=self.border)
+				arr[I] = scipy.ndimage.spline_filter(arr[I], order=self.order, mode=self.smode)
 		self.arr = arr
 	def __call__(self, inds, out=None):
 		inds, out = _ip_prepare(self, inds, out=out)
 		# Do the actual interpolation
 		for I in nditer(self.arr.shape[:self.npre]):
 			out[I] = scipy.ndimage.map_coordinates(self.arr[I], inds, order=self.order,
-				mode=self.border, cval=self.cval, prefilter=False)
+				mode=self.smode, cval=self.cval, prefilter=False)
 		return out
 
 class FourierInterpolator:
-- 
2.43.0


From a423472ae1b9178375fa4d93eb59fe4663bd31ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:03 +0000
Subject: [PATCH 069/151] fix: interpol with border=nearest did not give the
 edge value outside the array for order > 1

---
 pixell/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 93562dc..e668575 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -612,7 +612,9 @@ class SplineInterpolator:
 		self.cval = cval
 		self.border = border
 		# scipy's wrap mode has a period of n-1 instead of n
-		self.smode  = "grid-wrap" if border == "wrap" else border
+		# and its nearest mode repeats the spline coefficients instead of the values,
+		# so we clip the positions ourselves, which leaves us inside the array
+		self.smode  = {"wrap":"grid-wrap", "nearest":"reflect"}.get(border, border)
 		if self.mode != "spline": raise ValueError("Unrecognized spline interpolation mode '%s'" % str(mode))
 		arr = np.asanyarray(arr)
 		if self.order > 1:
@@ -622,6 +624,8 @@ class SplineInterpolator:
 		self.arr = arr
 	def __call__(self, inds, out=None):
 		inds, out = _ip_prepare(self, inds, out=out)
+		if self.border == "nearest":
+			inds = np.array([np.clip(ind, 0, n-1) for ind, n in zip(inds, self.arr.shape[self.npre:])])
 		# Do the actual interpolation
 		for I in nditer(self.arr.shape[:self.npre]):
 			out[I] = scipy.ndimage.map_coordinates(self.arr[I], inds, order=self.order,
-- 
2.43.0


From 41eba7f7ed99cb51195bab67ae9c6292e07f970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:03 +0000
Subject: [PATCH 070/151] fix: interpolating a map at the centres of its edge
 pixels gave the fill value due to round-off

---
 pixell/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index e668575..5b74307 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -626,6 +626,9 @@ class SplineInterpolator:
 		inds, out = _ip_prepare(self, inds, out=out)
 		if self.border == "nearest":
 			inds = np.array([np.clip(ind, 0, n-1) for ind, n in zip(inds, self.arr.shape[self.npre:])])
+		elif self.border == "constant":
+			# Do not lose points on the edge to round-off
+			inds = np.array([np.where(np.abs(ind-np.clip(ind,0,n-1))<1e-6, np.clip(ind,0,n-1), ind) for ind, n in zip(inds, self.arr.shape[self.npre:])])
 		# Do the actual interpolation
 		for I in nditer(self.arr.shape[:self.npre]):
 			out[I] = scipy.ndimage.map_coordinates(self.arr[I], inds, order=self.order,
-- 
2.43.0


From 87ac9ccc00783a5b3abdf353837ae16f5c441a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:03 +0000
Subject: [PATCH 071/151] fix: interpolation of integer arrays truncated both
 spline coefficients and results

---
 pixell/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 5b74307..47a6b0c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -617,6 +617,8 @@ class SplineInterpolator:
 		self.smode  = {"wrap":"grid-wrap", "nearest":"reflect"}.get(border, border)
 		if self.mode != "spline": raise ValueError("Unrecognized spline interpolation mode '%s'" % str(mode))
 		arr = np.asanyarray(arr)
+		# Values between the samples of an integer array are not integers
+		if self.order > 0 and not np.issubdtype(arr.dtype, np.inexact): arr = arr.astype(np.float64)
 		if self.order > 1:
 			arr = arr.copy()
 			for I in nditer(arr.shape[:npre]):
-- 
2.43.0


From 3257f5a54819a5dfe1a930da2ea93af9ee9797e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:03 +0000
Subject: [PATCH 072/151] fix: ndmap.at ignored cval

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 8d9ae6e..db02721 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -106,7 +106,7 @@ class ndmap(np.ndarray):
 	def extract_pixbox(self, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None, reverse=False): return extract_pixbox(self, pixbox, omap=omap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=reverse)
 	def insert(self, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert(self, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
 	def insert_at(self, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert_at(self, pix, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
-	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=0, unit=unit, safe=safe, ip=ip)
+	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=cval, unit=unit, safe=safe, ip=ip)
 	def argmax(self, unit="coord"): return argmax(self, unit=unit)
 	def autocrop(self, method="plain", value="auto", margin=0, factors=None, return_info=False): return autocrop(self, method, value, margin, factors, return_info)
 	def apod(self, width, profile="cos", fill="zero"): return apod(self, width, profile=profile, fill=fill)
-- 
2.43.0


From 65d03a2ff1d1316c8886b898876a7713129828cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:03 +0000
Subject: [PATCH 073/151] fix: enmap.project ignored the target shape when the
 wcs was equal

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index db02721..81fc692 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -616,7 +616,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	  one go, ignoring bsize"""
 	# Skip expensive operation if map is compatible
 	if not force:
-		if wcsutils.equal(map.wcs, wcs) and tuple(shape[-2:]) == tuple(shape[-2:]):
+		if wcsutils.equal(map.wcs, wcs) and tuple(map.shape[-2:]) == tuple(shape[-2:]):
 			return map.copy()
 		elif wcsutils.is_compatible(map.wcs, wcs) and border == "constant":
 			return extract(map, shape, wcs, cval=cval)
-- 
2.43.0


From c1c462e3b6c9119cd1b5d530ff760b83c2fa20ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:03 +0000
Subject: [PATCH 074/151] fix: lensing.lens_map_flat always raised an exception

---
 pixell/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 9145a85..b033723 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -72,7 +72,7 @@ def lens_map_flat(cmb_map, phi_map):
 	# mode="wrap", we must handle wrapping ourselves.
 	npad = int(np.ceil(max(np.max(-raw_pix),np.max(raw_pix-np.array(cmb_map.shape[-2:])[:,None,None]))))
 	pmap = enmap.pad(cmb_map, npad, wrap=True)
-	return enmap.samewcs(utils.interpol(pmap, raw_pix+npad, order=4, mode="wrap"), cmb_map)
+	return enmap.samewcs(utils.interpol(pmap, raw_pix+npad, order=4, border="wrap"), cmb_map)
 
 ######## Curved sky lensing ########
 
-- 
2.43.0


From a93cc83855cbc54c4d83151139b7117d47fe484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:21 +0000
Subject: [PATCH 075/151] fix: enmap.project with order=0 lost the last row of
 each block when positions round up

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 81fc692..be19e54 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -624,8 +624,8 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	# Save memory by looping over rows. This won't work for non-"prefiltered" interpolators
 	if ip and not ip.prefiltered: bsize=100000000
 	# Avoid unneccessary padding for local cases
-	if   ip or (mode == "spline" and order == 0): context = 0
-	elif        mode == "spline" and order == 1 : context = 1
+	if   ip: context = 0
+	elif mode == "spline" and order <= 1: context = 1
 	# It would have been nice to be able to use padtiles here, but
 	# the input and output tilings are very different
 	for i1 in range(0, shape[-2], bsize):
-- 
2.43.0


From 3b45f96e4c90c0845960db52943172b1faa74cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:21 +0000
Subject: [PATCH 076/151] fix: enmap.project used 0 instead of cval above and
 below the map

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index be19e54..523af77 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -639,7 +639,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 			y1     = np.min(pix[0]).astype(int)-context
 			y2     = np.max(pix[0]).astype(int)+context+1
 			pix[0]-= y1
-			band   = map.extract_pixbox([[y1,0],[y2,map.shape[-1]]])
+			band   = map.extract_pixbox([[y1,0],[y2,map.shape[-1]]], cval=cval)
 			# Apodize if necessary
 			if context > 1:
 				band = apod(band, width=(context,0), fill="crossfade")
-- 
2.43.0


From 8934c8d86f788736407cac8de99576fb21ca8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:21 +0000
Subject: [PATCH 077/151] fix: enmap.project ignored border modes other than
 constant above and below the map

---
 pixell/enmap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 523af77..6a26bcf 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -621,6 +621,9 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 		elif wcsutils.is_compatible(map.wcs, wcs) and border == "constant":
 			return extract(map, shape, wcs, cval=cval)
 	omap = zeros(map.shape[:-2]+shape[-2:], wcs, map.dtype)
+	# The blocks below do not know where the edge of the map is, so they cannot handle other borders
+	if ip is None and border != "constant" and mode not in ["fft","nufft","fourier"]:
+		ip = utils.interpolator(map, map.ndim-2, mode=mode, border=border, order=order, cval=cval)
 	# Save memory by looping over rows. This won't work for non-"prefiltered" interpolators
 	if ip and not ip.prefiltered: bsize=100000000
 	# Avoid unneccessary padding for local cases
-- 
2.43.0


From 80e4071fcae9f5a24fde78725e335eccd8331d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:21 +0000
Subject: [PATCH 078/151] fix: interpol.build only worked for functions with
 four outputs, and gave the wrong upper limit of the output box

---
 pixell/interpol.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index 9ec76bb..9cd7d66 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -177,10 +177,6 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 				if np.any(np.isnan(ytrue)):
 					raise ValueError("Function to interpolate returned invalid value")
 				err = np.max(np.abs((ytrue-yinter).reshape(ytrue.shape[0],-1)), 1)
-				# Find the worst failure:
-				ytrue_flat = ytrue.reshape(4,-1)
-				yinter_flat= yinter.reshape(4,-1)
-				badi = np.argmax(np.abs((ytrue_flat[2]-yinter_flat[2])))
 				if verbose: print(x.shape, x.size, err/errlim)
 				if any(err > errlim):
 					# Not good enough, so accept improvement
@@ -190,7 +186,7 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 				errs[i] = err
 				# update output box
 				obox[0] = np.minimum(obox[0], np.min(ytrue.reshape(ytrue.shape[0],-1),1))
-				obox[1] = np.maximum(obox[0], np.max(ytrue.reshape(ytrue.shape[0],-1),1))
+				obox[1] = np.maximum(obox[1], np.max(ytrue.reshape(ytrue.shape[0],-1),1))
 			else: nok += 1
 		if nok >= idim: break
 	res = (ip,)
-- 
2.43.0


From 6252f17e8d96566a5f8111e764089196111d2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:18 +0000
Subject: [PATCH 079/151] fix: multimap.full failed or mixed up values when
 there were leading dimensions

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index b7002bb..3d94201 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -118,7 +118,7 @@ def full(geometries, val, dtype=None):
 	omaps= ndmaps(flat, geometries)
 	# Fill with target values
 	for i, map in enumerate(omaps.maps):
-		map[:] = val[...,i]
+		map[:] = val[...,i,None,None]
 	return omaps
 
 def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float64):
-- 
2.43.0


From 3bc38df4575a0513a27cfd0e5a8eda551a59fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:18 +0000
Subject: [PATCH 080/151] fix: negative member indices of a multimap selected
 the wrong pixels

---
 pixell/multimap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 3d94201..2a64208 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -54,11 +54,13 @@ class _map_view:
 		sel1, sel2 = utils.split_slice(sel, [1,self.multimap.ndim+2-1])
 		if len(sel1) == 0: return self.multimap
 		i    = sel1[0]
+		if i < 0: i += len(self)
 		return enmap.ndmap(self.multimap[...,self.offs[i]:self.offs[i+1]].reshape(self.multimap.pre + self.multimap.geometries[i].shape[-2:]), self.multimap.geometries[i].wcs)[sel2]
 	def __setitem__(self, sel, val):
 		sel1, sel2 = utils.split_slice(sel, [1,self.multimap.ndim+2-1])
 		if len(sel1) == 0: return self.multimap
 		i    = sel1[0]
+		if i < 0: i += len(self)
 		# This assumes that the slicing and reshaping won't cause copies. This should be the case if
 		# self.multimap is contiguous. To be robust I should detect if a copy would be made, and fall back
 		# on something slower in that case
-- 
2.43.0


From 3cbbfba45b0c8a7571d746822ee80a8cf1898335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:50 +0000
Subject: [PATCH 081/151] fix: multimap lmap, modlmap, modrmap and posmap did
 not take the arguments their methods pass

---
 pixell/multimap.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 2a64208..d106ccb 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -37,11 +37,11 @@ class ndmaps(np.ndarray):
 	@property
 	def maps(self):
 		return _map_view(self)
-	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, corner=corner, separable=separable, dtype=dtype)
+	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, safe=safe, corner=corner, separable=separable, dtype=dtype)
 	def pixmap(self, dtype=np.float64): return pixmap(self.geometries, dtype=dtype)
 	def pixsize(self, dtype=np.float64): return pixsize(self.geometries, dtype=dtype)
 	def lmap(self, oversample=1, dtype=np.float64): return lmap(self.geometries, oversample=oversample, dtype=dtype)
-	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample)
+	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample, dtype=dtype)
 	def modrmap(self, ref="center", safe=True, corner=False, dtype=np.float64): return modrmap(self.geometries, ref=ref, safe=safe, corner=corner, dtype=dtype)
 
 class _map_view:
@@ -131,21 +131,21 @@ def pixmap(geometries, dtype=np.float64):
 	"""Return a multimap containing the pixel map for the given geometries"""
 	return multimap([enmap.pixmap(*geo, dtype=dtype) for geo in geometries])
 
-def lmap(geometries, dtype=np.float64):
+def lmap(geometries, dtype=np.float64, oversample=1):
 	"""Return a mapmultimap of all the wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.lmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.lmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
-def modlmap(geometries, dtype=np.float64):
+def modlmap(geometries, dtype=np.float64, oversample=1):
 	"""Return a mapmultimap of all the abs wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.modlmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.modlmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
 def modrmap(geometries, ref="center", safe=True, corner=False, dtype=np.float64):
 	"""Return a multimap where each entry is the distance from center
 	of that entry. Results are returned in radians, and if safe is true
 	(default), then sharp coordinate edges will be avoided."""
-	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe).astype(dtype) for geo in geometries])
+	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe, corner=corner).astype(dtype) for geo in geometries])
 
 def pixsize(geometries, dtype=np.float64):
 	return np.array([enmap.pixsize(*geo).astype(dtype) for geo in geometries])
-- 
2.43.0


From 140c196e741b6e1a65df6351b3f628bb8cde8874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:50 +0000
Subject: [PATCH 082/151] fix: member indices of a multimap out of range gave
 the wrong pixels instead of an IndexError

---
 pixell/multimap.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index d106ccb..be5c40d 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -53,14 +53,12 @@ class _map_view:
 	def __getitem__(self, sel):
 		sel1, sel2 = utils.split_slice(sel, [1,self.multimap.ndim+2-1])
 		if len(sel1) == 0: return self.multimap
-		i    = sel1[0]
-		if i < 0: i += len(self)
+		i    = range(len(self))[sel1[0]]
 		return enmap.ndmap(self.multimap[...,self.offs[i]:self.offs[i+1]].reshape(self.multimap.pre + self.multimap.geometries[i].shape[-2:]), self.multimap.geometries[i].wcs)[sel2]
 	def __setitem__(self, sel, val):
 		sel1, sel2 = utils.split_slice(sel, [1,self.multimap.ndim+2-1])
 		if len(sel1) == 0: return self.multimap
-		i    = sel1[0]
-		if i < 0: i += len(self)
+		i    = range(len(self))[sel1[0]]
 		# This assumes that the slicing and reshaping won't cause copies. This should be the case if
 		# self.multimap is contiguous. To be robust I should detect if a copy would be made, and fall back
 		# on something slower in that case
-- 
2.43.0


From f25704f43ece52dac25aa4aae745cea5f4545698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:24 +0000
Subject: [PATCH 083/151] fix: arithmetic on multimaps relied on the deprecated
 __array_wrap__ signature

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index be5c40d..9eca4cc 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -18,7 +18,7 @@ class ndmaps(np.ndarray):
 	def __repr__(self):
 		return "ndmaps(%s,%s)" % (np.asarray(self), str(self.geometries))
 	def __str__(self): return repr(self)
-	def __array_wrap__(self, arr, context=None):
+	def __array_wrap__(self, arr, context=None, return_scalar=False):
 		return ndmaps(arr, self.geometries)
 	def contig(self): return ndmaps(np.ascontiguousarray(self), self.geometries)
 	@property
-- 
2.43.0


From c23cfa631a73767d09e3bde44ddc6086c8ec8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:24 +0000
Subject: [PATCH 084/151] fix: multimap.harm2map ignored keep_imag

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 9eca4cc..bbcc7e9 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -231,7 +231,7 @@ def map2harm(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], adjoint_har
 	return multimap([enmap.map2harm(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_harm2map=adjoint_harm2map) for m in mmap.maps])
 
 def harm2map(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False, adjoint_map2harm=False):
-	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
+	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
 
 def map2harm_adjoint(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False):
 	return harm2map(mmap, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=True)
-- 
2.43.0


From 3aad9adfcb3f66dd5f9810bc6093f3fde90cdb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:50 +0000
Subject: [PATCH 085/151] fix: an empty list of maps could not be turned into a
 multimap

---
 pixell/multimap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index bbcc7e9..41c5e15 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -28,7 +28,7 @@ class ndmaps(np.ndarray):
 		return [geo.npix for geo in self.geometries]
 	@property
 	def ntot(self):
-		return np.sum(self.npixs)
+		return int(np.sum(self.npixs))
 	@property
 	def nmap(self):
 		return len(self.geometries)
@@ -66,7 +66,7 @@ class _map_view:
 
 def multimap(maps):
 	"""Construct a multimap (ndmaps instance) from a list of enmaps. These must have compatible pre-dimensions."""
-	if len(maps) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(maps) == 0: return ndmaps(np.zeros(0), [])
 	for i, map in enumerate(maps):
 		if map.shape[:-2] != maps[0].shape[:-2]:
 			raise ValueError("Map %d in multimaps constructor has pre-shape %s, incompatible with map 0 with %s" % (i, str(map.shape[:-2]), str(maps[0].shape[:-2])))
@@ -85,14 +85,14 @@ def _geo_helper(geometries):
 
 def zeros(geometries, dtype=np.float64):
 	"""Construct a zero-initialized multimap with the given geometries and data type"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	flat = np.zeros(geometries[0].shape[:-2]+(ntot,), dtype)
 	return ndmaps(flat, geometries)
 
 def empty(geometries, dtype=np.float64):
 	"""Construct an uninitialized multimap with the given geometries and data type"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	flat = np.empty(geometries[0].shape[:-2]+(ntot,), dtype)
 	return ndmaps(flat, geometries)
@@ -103,7 +103,7 @@ def full(geometries, val, dtype=None):
 	geometries[0].shape[:-2]+(len(geometries),). This allows one to initialize each map with a
 	separate constant.
 	"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	# Broadcast val and geometries
 	pre  = geometries[0].shape[:-2]
-- 
2.43.0


From 50fa3ac426c58e36e8779af469551c0bd9e0c7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:52 +0000
Subject: [PATCH 086/151] fix: multimap.pixmap passed an argument enmap.pixmap
 does not take

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 41c5e15..ae0eba2 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -127,7 +127,7 @@ def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float
 
 def pixmap(geometries, dtype=np.float64):
 	"""Return a multimap containing the pixel map for the given geometries"""
-	return multimap([enmap.pixmap(*geo, dtype=dtype) for geo in geometries])
+	return multimap([enmap.pixmap(*geo).astype(dtype) for geo in geometries])
 
 def lmap(geometries, dtype=np.float64, oversample=1):
 	"""Return a mapmultimap of all the wavenumbers in the fourier transform
-- 
2.43.0


From 9757b7add09f5c0a283dabb32aa1bc508ba8d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:52 +0000
Subject: [PATCH 087/151] fix: the cosine transforms of multimaps always failed

---
 pixell/multimap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index ae0eba2..c76cb05 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -202,11 +202,11 @@ def std(mmap):
 	return np.array([np.std(m,(-2,-1)) for m in mmap.maps])
 
 def fft(mmap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=False):
-	if omap is None: omap = mmap*0j
+	if omap is None: omap = mmap*0.0 if dct else mmap*0j
 	return multimap([enmap.fft(im.astype(om.dtype), omap=om, nthread=nthread, normalize=normalize, adjoint_ifft=adjoint_ifft, dct=dct) for im, om in zip(mmap.maps, omap.maps)])
 
 def ifft(mmap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=False):
-	mmap = utils.ascomplex(mmap)
+	if not dct: mmap = utils.ascomplex(mmap)
 	if omap is None: omap = mmap.copy()
 	return multimap([enmap.ifft(im, omap=om, nthread=nthread, normalize=normalize, adjoint_fft=adjoint_fft, dct=dct) for im, om in zip(mmap.maps, omap.maps)])
 
-- 
2.43.0


From 6c1b18bed7fa570553b6ce1223f93cb625ab1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:33 +0000
Subject: [PATCH 088/151] fix: sym_compress and sym_expand only worked for the
 leading axes

---
 pixell/powspec.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index b9d80d9..b4eafad 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -12,12 +12,13 @@ def sym_compress(mat, which=None, n=None, scheme=None, axes=[0,1], combined=Fals
 	elements). The 'axes' argument indicates which axes to operate on."""
 	if n is None: n = mat.shape[axes[0]]*(mat.shape[axes[0]]+1)//2
 	if which==None: which = compressed_order(n, scheme)
-	m = np.rollaxis(np.rollaxis(mat, axes[1]), axes[0])
+	axes = [ax%mat.ndim for ax in axes]
+	m = np.moveaxis(mat, axes, [0,1])
 	if combined:
 		res = np.array([m[w[0],w[1]]+m[w[1],w[0]]*(w[1]!=w[0]) for w in which])
 	else:
 		res = np.array([m[w[0],w[1]] for w in which])
-	return np.rollaxis(res, 0, axes[0])
+	return np.moveaxis(res, 0, axes[0])
 
 def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False):
 	"""The inverse of sym_compress. Expands a flat array of numbers
@@ -25,7 +26,8 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	mapping which (or construct one using the given scheme)."""
 	if which==None: which = compressed_order(mat.shape[axis], scheme=scheme)
 	if ncomp==None: ncomp = np.max(which)+1
-	m = np.rollaxis(mat, axis)
+	axis = axis%mat.ndim
+	m = np.moveaxis(mat, axis, 0)
 	shape = [ncomp,ncomp] + list(m.shape[1:])
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
@@ -33,7 +35,7 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 		res[w[0],w[1]] = m[i]
 		if w[0] != w[1]:
 			res[w[1],w[0]] = m[i]
-	return np.rollaxis(np.rollaxis(res, 1, axis), 0, axis)
+	return np.moveaxis(res, [0,1], [axis,axis+1])
 
 def sym_expand_camb_full_lens(a):
 	# This complicated ordering doesn't fit into any of our expansion patterns,
-- 
2.43.0


From b6e62d9902a6c8b28cc51f9f666226b726288483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:33 +0000
Subject: [PATCH 089/151] fix: sym_expand ignored combined

---
 pixell/powspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index b4eafad..a5c9ee8 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -32,9 +32,9 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
 		val = m[i]/2 if combined and w[0]!=w[1] else m[i]
-		res[w[0],w[1]] = m[i]
+		res[w[0],w[1]] = val
 		if w[0] != w[1]:
-			res[w[1],w[0]] = m[i]
+			res[w[1],w[0]] = val
 	return np.moveaxis(res, [0,1], [axis,axis+1])
 
 def sym_expand_camb_full_lens(a):
-- 
2.43.0


From 06c334ada288d72fa1395211c7fa0366bebba4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:33 +0000
Subject: [PATCH 090/151] fix: read_spectrum failed for files with a single row

---
 pixell/powspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index a5c9ee8..52a9bbc 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -143,7 +143,7 @@ def read_spectrum(fname, inds=True, scale=True, expand="diag", ncol=None, ncomp=
 	valid expansion schemes from compressed_order, and will
 	cause the returned array to be cl[ncomp,ncomp,lmax+1]
 	instead."""
-	a = np.atleast_2d(np.loadtxt(fname).T)
+	a = np.loadtxt(fname, ndmin=2).T
 	if inds: a = expand_inds(np.array(a[0],dtype=int), a[1:])
 	if scale: a = scale_spectrum(a, 1)
 	if ncol: a = a[:ncol]
-- 
2.43.0


From d36014999e4fc355ff0b66acec2102a91ba2930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:33 +0000
Subject: [PATCH 091/151] fix: smooth_spectrum ignored explicit weights and
 returned nan

---
 pixell/enmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 6a26bcf..630bf22 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1921,6 +1921,7 @@ def smooth_spectrum(ps, kernel="gauss", weight="mode", width=1.0):
 	else:
 		tmp = np.atleast_2d(weight)
 		assert tmp.shape[-1] == W.shape[-1], "Spectrum weight must have the same length as spectrum"
+		W[:] = tmp
 	pWK = _convolute_sym(pflat*W, K)
 	WK  = _convolute_sym(W, K)
 	res = pWK/WK
-- 
2.43.0


From 0dff9a83c9b41287684707da8be3c7b81359dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:33 +0000
Subject: [PATCH 092/151] fix: eigpow with a negative exponent used the wrong
 axis for arrays of more than three dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 47a6b0c..dbd05cb 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2614,7 +2614,7 @@ def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
 		if e < 0:
 			aE = np.abs(E)
 			if A.ndim > 2:
-				mask |= (aE < np.max(aE,1)[:,None]*rlim) | (aE < alim)
+				mask |= (aE < np.max(aE,-1)[...,None]*rlim) | (aE < alim)
 			else:
 				mask |= (aE < np.max(aE)*rlim) | (aE < alim)
 		E[~mask] **= e
-- 
2.43.0


From 8771d9423188ab9ebe467d11846ee56fe54a49ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:13 +0000
Subject: [PATCH 093/151] fix: spec2flat_corr modified the spectrum it was
 given

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 630bf22..3b7be05 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1867,7 +1867,7 @@ def spec2flat(shape, wcs, cov, exp=1.0, border="constant", oversample=1, smooth=
 	return res
 
 def spec2flat_corr(shape, wcs, cov, exp=1.0, border="constant"):
-	cov    = np.asarray(cov)
+	cov    = np.array(cov)
 	oshape = cov.shape[:-1] + tuple(shape)[-2:]
 	if cov.ndim == 1: cov = cov[None,None]
 	if exp != 1.0: cov = multi_pow(cov, exp)
-- 
2.43.0


From 607417ece1238bb0e6221e821d816a53ad6da95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:19 +0000
Subject: [PATCH 094/151] fix: pointsrcs.sim_objects always added, whatever op
 it was given

---
 pixell/pointsrcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index c039927..2e9027d 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -115,7 +115,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
+	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
@@ -247,7 +247,7 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		amps  = amps.reshape(shape[:-2]+(nobj,))
 		# Handle beam = float, in which case a gaussian beam is made
 		beam  = expand_beam(beam, nsigma, rmax)
-		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op, pixwin=pixwin, pixwin_order=0, separable=separable, cache=cache)
+		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=pixwin_order, separable=separable, cache=cache)
 	elif method == "python":
 		return sim_srcs_python(shape, wcs, srcs, beam, omap=omap, dtype=dtype, nsigma=nsigma, rmax=rmax, smul=smul, return_padded=return_padded, pixwin=pixwin, pixwin_order=pixwin_order, op=op, wrap=wrap, verbose=verbose, cache=cache, separable=separable)
 
-- 
2.43.0


From 926acb322f8d58c1217de46644d8d0b466451681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:19 +0000
Subject: [PATCH 095/151] fix: object simulation skipped pixels across the map
 edge when the last cell was not full

---
 cython/srcsim_core.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 65af39b..783a033 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -141,7 +141,7 @@ void estimate_bounding_box(
 		float * pix_ras,  //
 		int * box         // {y1,y2,x1,x2} in pixels.
 	);
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox);
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int * cellbox);
 void wrap_box(int * box, int ny, int nx);
 
 typedef struct IntList { int n, cap; int * vals; } IntList;
@@ -369,8 +369,8 @@ int assign_cells(
 		// This means that the sloppy wrapping we do that doesn't know about
 		// the real wrapping length of the sky will not cover any tile more than
 		// once.
-		pixbox2cellbox(pixbox, csize, ncy, ncx, cellboxes+4*oi);
-		wrap_box(cellboxes+4*oi, ncy, ncx);
+		wrap_box(pixbox, ny, nx);
+		pixbox2cellbox(pixbox, csize, ny, nx, cellboxes+4*oi);
 	}
 	// 3. For each cell in each object's cell box, register the object in that cell.
 	for(int oi = 0; oi < nobj; oi++) {
@@ -427,17 +427,22 @@ int assign_cells(
 }
 
 int mod(int a, int b) { int c = a % b; return c < 0 ? c+b : c; }
-int floor_div(int a, int b) { int c = a / b; return c*b > a ? c-1 : c; }
+
+// Convert a wrapped pixel range x1:x2 (0 <= x1 < n, x2 <= x1+n) to the corresponding
+// range of cells c1:c2. The last cell can be smaller than csize, so the parts before and
+// after the wrap must be handled separately. No cell is included more than once.
+void pixrange2cellrange(int x1, int x2, int csize, int n, int * c1, int * c2) {
+	int nc = (n+csize-1)/csize;
+	*c1 = x1/csize;
+	*c2 = x2 <= n ? (x2-1)/csize+1 : nc + (x2-n-1)/csize+1;
+	if(*c2 > *c1 + nc) *c2 = *c1 + nc;
+}
 
 // Convert y1 y2 x1 x2 -> cy1 cy2 cx1 cx2. The ranges are
-// half-open like in python
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox) {
-	// Go from raw pixel bounds to raw cell bounds
-	int cy1 = floor_div(pixbox[0], csize), cy2 = floor_div(pixbox[1]-1, csize)+1;
-	int cx1 = floor_div(pixbox[2], csize), cx2 = floor_div(pixbox[3]-1, csize)+1;
-	// Put into output
-	cellbox[0] = cy1; cellbox[1] = cy2;
-	cellbox[2] = cx1; cellbox[3] = cx2;
+// half-open like in python. pixbox must already have been wrapped
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int * cellbox) {
+	pixrange2cellrange(pixbox[0], pixbox[1], csize, ny, &cellbox[0], &cellbox[1]);
+	pixrange2cellrange(pixbox[2], pixbox[3], csize, nx, &cellbox[2], &cellbox[3]);
 }
 
 // wrap an integer box such that the start point is >= 1, and
-- 
2.43.0


From f30272d4d7eaa1301a1372a14e34d81217d6ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:19 +0000
Subject: [PATCH 096/151] fix: radial_sum dropped the last bin

---
 cython/srcsim_core.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 783a033..f3a5339 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -635,7 +635,7 @@ int binary_search(int n, float * rs, float r) {
 int equi_search(int n, float * rs, float r) {
 	int i = (int)(r/rs[1]);
 	if(i < 0) return -1;
-	if(r >= n) return n;
+	if(i >= n) return n;
 	return i;
 }
 
@@ -812,7 +812,7 @@ void radial_sum(
 		double * times    // Time taken in the different steps
 	) {
 	// 1. Figure out how far away we need to consider each object
-	float rmax    = rs[nbin-1];
+	float rmax    = rs[nbin];
 	// 2. Loop over each object
 	double t1     = wall_time();
 	#pragma omp parallel for
@@ -830,7 +830,7 @@ void radial_sum(
 				if(separable) { dec = pix_decs[y];      ra = pix_ras[x];      }
 				else          { dec = pix_decs[y*nx+x]; ra = pix_ras[y*nx+x]; }
 				float r = calc_dist(dec, ra, obj_decs[oi], obj_ras[oi]);
-				int i   = equi ? equi_search(nbin, rs, r) : binary_search(nbin, rs, r);
+				int i   = equi ? equi_search(nbin+1, rs, r) : binary_search(nbin+1, rs, r);
 				if(i < 0 || i >= nbin) continue;
 				for(int ci = 0; ci < ncomp; ci++)
 					bins[oi][ci][i] += imap[ci][y*nx+x];
-- 
2.43.0


From d0ee2403ca47879f104338217ed811996eee20da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:19 +0000
Subject: [PATCH 097/151] fix: object simulation cut profiles off up to two
 samples before they fell below vmin

---
 cython/srcsim_core.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index f3a5339..ee38e83 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -270,7 +270,7 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 		for(int li = prof_levels-2; li > 0; li--) {
 			float vlim = vmax * powf(prof_base, -li);
 			for(; ri > imax && fabsf(prof_vs[i][ri]) < vlim; ri--);
-			prof_info[i*prof_levels+li] = ri;
+			prof_info[i*prof_levels+li] = ri+1;
 		}
 	}
 	return prof_info;
@@ -303,6 +303,8 @@ float * measure_rmax(int nobj, float * amaxs, int * prof_ids, int * prof_ns, flo
 		// this loop could use that to reduce the loop range for the individual objects.
 		int i = prof_info ? prof_info_lookup(prof_info, pid, vrel)-1 : n-1;
 		for(; i > 0 && fabsf(vs[i]) < vrel; i--);
+		// The interpolated profile can stay above the limit until it reaches the next sample
+		if(i < n-1 && fabsf(vs[i]) >= vrel) i++;
 		rmaxs[oi] = rs[i];
 		if(rmax > 0) rmaxs[oi] = fminf(rmaxs[oi], rmax);
 	}
-- 
2.43.0


From 45eb327d9fd3239b559592e4b8324fda38176de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:20 +0000
Subject: [PATCH 098/151] fix: unevenly spaced profiles and bins could be
 mistaken for evenly spaced ones

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 2e9027d..a8b0f33 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -125,7 +125,7 @@ def is_equi(r):
 	"""Estimate whether the values r[:] = arange(n)*delta, allowing for
 	fast index calculations. This is just a heuristic, but it is hopefully
 	reliable enough."""
-	return len(r) > 1 and r[0] == 0 and np.allclose(r[-1],(len(r)-1)*r[1])
+	return len(r) > 1 and r[0] == 0 and np.allclose(r,np.arange(len(r))*r[1])
 
 def radial_sum(map, poss, bins, oprofs=None, separable="auto",
 		prof_equi="auto", cache=None, return_times=False):
-- 
2.43.0


From cd25d8210e160f0ced2892b24489ef3cb37f2c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:20 +0000
Subject: [PATCH 099/151] fix: simulating an empty list of objects failed

---
 pixell/pointsrcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index a8b0f33..97785f6 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -104,7 +104,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	if prof_equi == "auto": prof_equi = all([is_equi(prof[0]) for prof in profile])
 	# If user hasn't specified how faint things to simulate, then set the limit a bit
 	# below the peak of the faintest object
-	if vmin is None: vmin = np.min(np.abs(amps))*1e-3
+	if vmin is None: vmin = np.min(np.abs(amps))*1e-3 if amps.size > 0 else 0
 	if rmax is None: rmax = 0
 	# Set up the pixel coordinates
 	if separable: posmap = utils.cache_get(cache, "posmap", lambda: enmap.posaxes(shape, wcs, dtype=dtype))
@@ -115,7 +115,8 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
+	if nobj == 0: times = np.zeros(3)
+	else: times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
-- 
2.43.0


From 6af86ba28b97f6e4f6eb71d47f0af84dca5d1fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:20 +0000
Subject: [PATCH 100/151] fix: srcsim.sim_objects used freed memory for
 profiles that needed conversion

---
 cython/srcsim.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cython/srcsim.pyx b/cython/srcsim.pyx
index 05a866c..2626511 100644
--- a/cython/srcsim.pyx
+++ b/cython/srcsim.pyx
@@ -54,8 +54,10 @@ def sim_objects(float[:,:,::1] map, float[::1] obj_decs, float[::1] obj_ras, int
 	cdef float ** prof_rs = <float**>calloc(nprof, sizeof(float*))
 	cdef float ** prof_vs = <float**>calloc(nprof, sizeof(float*))
 	cdef float[:,::1] prof
+	# Keep the converted profiles alive for as long as we use pointers to them
+	profs = [np.asanyarray(p, dtype=np.float32, order="C") for p in profs]
 	for i in range(nprof):
-		prof = np.asanyarray(profs[i], dtype=np.float32, order="C")
+		prof = profs[i]
 		assert prof.ndim == 2 and len(prof) == 2, ("prof must be [{r,val},:], but #%d is not" % i)
 		prof_ns[i] = prof.shape[1]
 		prof_rs[i] = &prof[0,0]
-- 
2.43.0


From 8fb93ea2dfd9677398d674780ef41bad08709a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:34 +0000
Subject: [PATCH 101/151] fix: radial sums around an empty list of objects
 failed

---
 pixell/pointsrcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 97785f6..bd67333 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -91,7 +91,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	# Object amplitudes, and number of components
 	amps     = np.asanyarray(amps, dtype=dtype, order="C")
 	pre      = amps.shape[:-1]
-	amps_flat= amps.reshape(-1, amps.shape[-1])
+	amps_flat= amps.reshape(np.prod(pre,dtype=int), amps.shape[-1])
 	ncomp    = len(amps_flat)
 	# Profiles. For point sources this would just be the beam, but extended objects
 	# can have differnet profiles. We will support both [{r,b}] and [[{r,b}],[{r,b}],...]
@@ -173,7 +173,8 @@ def radial_sum(map, poss, bins, oprofs=None, separable="auto",
 	oprofs_flat   = oprofs.reshape(nobj,ncomp,nbin)
 	assert oprofs_flat.dtype == dtype, "oprofs.dtype must be np.float32"
 	# Whew! Actually do the work
-	times = srcsim.radial_sum(map_flat, obj_decs, obj_ras, obj_ys, obj_xs, bins, posmap, profs=oprofs_flat, separable=separable, prof_equi=prof_equi, return_times=True)[1]
+	if nobj == 0: times = np.zeros(1)
+	else: times = srcsim.radial_sum(map_flat, obj_decs, obj_ras, obj_ys, obj_xs, bins, posmap, profs=oprofs_flat, separable=separable, prof_equi=prof_equi, return_times=True)[1]
 	return (oprofs, times) if return_times else oprofs
 
 def radial_bin(map, poss, bins, weights=None, separable="auto",
-- 
2.43.0


From e0a6c434a0a4a63454423b84c053807ff91ef310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:00 +0000
Subject: [PATCH 102/151] fix: catalogs of many objects cut profiles off early
 when vmin was zero or profiles peaked above one

---
 cython/srcsim_core.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index ee38e83..cf008a0 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -258,17 +258,12 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 				vmax = v;
 			}
 		}
-		// This corresponds to cases where the cutoff is bigger than
-		// any value the beam can reach. Should really set it to 0
-		// in this case, but easier for measure_rmax if se set it to
-		// 1
-		prof_info[i*prof_levels+0] = 1;
 		// The last level just goes all the way out to the end
 		prof_info[i*prof_levels+prof_levels-1] = prof_ns[i];
 		// Populate the others by inwards from the edge
 		int ri = prof_ns[i]-1;
-		for(int li = prof_levels-2; li > 0; li--) {
-			float vlim = vmax * powf(prof_base, -li);
+		for(int li = prof_levels-2; li >= 0; li--) {
+			float vlim = powf(prof_base, -li);
 			for(; ri > imax && fabsf(prof_vs[i][ri]) < vlim; ri--);
 			prof_info[i*prof_levels+li] = ri+1;
 		}
@@ -277,12 +272,12 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 }
 
 int prof_info_lookup(int * prof_info, int prof, float vrel) {
-	// Calculate what power of our base (e.g. power of ten) we are
-	// away from the profile peak
-	int ind = (int)ceilf(-logf(vrel)/logf(prof_base));
-	// Cap to [0:nlevel]
-	if(ind < 0) ind = 0;
-	else if(ind >= prof_levels) ind = prof_levels-1;
+	// Calculate what power of our base (e.g. power of ten) the cutoff is
+	float level = ceilf(-logf(vrel)/logf(prof_base));
+	// Cap to [0:nlevel]. level can be infinite or nan if vmin or the amplitude is zero
+	int ind = prof_levels-1;
+	if(level < 0) ind = 0;
+	else if(level < prof_levels) ind = (int)level;
 	// And look up the relevant starting point in the profile
 	return prof_info[prof_levels*prof+ind];
 }
-- 
2.43.0


From 2b4490dba1e31d50d0549553ca0dde027a867951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:34 +0000
Subject: [PATCH 103/151] fix: objects close to a pole were not drawn or summed
 on its far side

---
 cython/srcsim_core.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index cf008a0..b3ce274 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -132,6 +132,7 @@ float calc_grad(int i, int n, int s, float * v);
 
 void calc_pix_shape(int y, int x, int ny, int nx, int separable, float * pix_decs, float * pix_ras, float * ysize, float * xsize);
 void estimate_bounding_box(
+		float obj_dec,    // object declination
 		int   obj_y,      // object pixel coordinates
 		int   obj_x,      //
 		float rmax,       // max relevant radius for object
@@ -360,7 +361,7 @@ int assign_cells(
 	#pragma omp parallel for
 	for(int oi = 0; oi < nobj; oi++) {
 		int pixbox[4];
-		estimate_bounding_box(obj_ys[oi], obj_xs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
+		estimate_bounding_box(obj_decs[oi], obj_ys[oi], obj_xs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
 		// This also handles wrapping such that the start will always be
 		// positive, and the end will be at most start beyond the end.
 		// This means that the sloppy wrapping we do that doesn't know about
@@ -697,6 +698,7 @@ void calc_pix_shape(int y, int x, int ny, int nx, int separable, float * pix_dec
 }
 
 void estimate_bounding_box(
+		float obj_dec,    // object declination
 		int   obj_y,      // object pixel coordinates
 		int   obj_x,      //
 		float rmax,       // max relevant radius for object
@@ -727,6 +729,18 @@ void estimate_bounding_box(
 	// 4. Use this to define a final rectangle
 	Dy = (int)(rmax/dy)+1;
 	Dx = (int)(rmax/dx)+1;
+	// 5. The pixel shapes above are only measured inside the map, so they don't tell
+	//    us how far the object extends in ra when it gets close to a pole.
+	if(fabsf(obj_dec)+rmax >= M_PI/2) {
+		// Contains the pole. Covers all ras
+		Dx = nx;
+		if(!separable) Dy = ny;
+	} else if(separable) {
+		float dra = fabsf(calc_grad(obj_x < 0 ? 0 : obj_x >= nx ? nx-1 : obj_x, nx, 1, pix_ras));
+		float wx  = asinf(fminf(sinf(rmax)/cosf(obj_dec),1))/fmaxf(dra, 1e-12);
+		if(wx >= nx) Dx = nx;
+		else if(wx+1 > Dx) Dx = (int)wx+1;
+	}
 	box[0] = obj_y - Dy;
 	box[1] = obj_y + Dy+1;
 	box[2] = obj_x - Dx;
@@ -816,7 +830,7 @@ void radial_sum(
 	for(int oi = 0; oi < nobj; oi++) {
 		// 3. Figure out which pixels are relevant
 		int pixbox[4];
-		estimate_bounding_box(obj_ys[oi], obj_xs[oi], rmax, ny, nx, separable, pix_decs, pix_ras, pixbox);
+		estimate_bounding_box(obj_decs[oi], obj_ys[oi], obj_xs[oi], rmax, ny, nx, separable, pix_decs, pix_ras, pixbox);
 		wrap_box(pixbox, ny, nx);
 		for(int y_ = pixbox[0]; y_ < pixbox[1]; y_++) {
 			// We only need to handle upper wrapping due to wrap_box
-- 
2.43.0


From ef35667ee3c6452bec8de8a709a04c4976c4940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:21 +0000
Subject: [PATCH 104/151] fix: writing padded tiles of a map covering the whole
 circle counts the padding across the seam twice

---
 pixell/enmap.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 3b7be05..aa230b5 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3304,10 +3304,8 @@ def padtiles(*maps, tshape=600, pad=60, margin=60, mode="auto", start=0, step=1)
 
 	If the tile shape does not evenly divide the map shape, then the
 	last tile in each row and column will extend beyond the edge of the
-	map. These pixels will be treated as enmap.extract does, with the
-	potential of sky wrapping. Warning: Write-iterators for a map that
-	goes all the way around the sky while the tile shape does not divide
-	the map shape will incorrectly weight the wrapped tiles, so avoid this.
+	map. When reading, these pixels will be treated as enmap.extract does, with the
+	potential of sky wrapping. When writing, they are ignored.
 
 	Arguments:
 	 * *maps: The maps to iterate over. Must have the same pixel dimensions.
@@ -3394,5 +3392,6 @@ class Padtiler:
 				if tx > 0: tile[...,:,:olx] *= self.wx[None,:]
 				if ty < nty-1: tile[...,tile.shape[-2]-oly:,:] *= self.wy[::-1,None]
 				if tx < ntx-1: tile[...,:,tile.shape[-1]-olx:] *= self.wx[None,::-1]
-				# And add into output map
-				map.insert(tile, op=lambda a,b:a+b)
+				# And add into output map. The parts beyond the edge of the map are not wrapped around
+				# the sky, since the tiles there already have full weight
+				map.insert_at([[y1-self.pad[-2],x1-self.pad[-1]],[y2+self.pad[-2],x2+self.pad[-1]]], tile, op=lambda a,b:a+b, wrap=0)
-- 
2.43.0


From fbac1ab7d95e661d2070a92d4f5a1dc9e8634847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:42 +0000
Subject: [PATCH 105/151] fix: cellgrid distance_from reports zero distance in
 the pixel nearest each point even when the point is elsewhere or outside the
 map, and points sharing a pixel overwrite each other

---
 cython/distances_core.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cython/distances_core.c b/cython/distances_core.c
index 276a5fc..71008cc 100644
--- a/cython/distances_core.c
+++ b/cython/distances_core.c
@@ -206,6 +206,8 @@ void distance_from_points_bubble(int ny, int nx, double * posmap, inum npoint, d
 		int y = point_y[i], x = point_x[i];
 		inum pix = (inum)y*nx+x;
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], pix_ra[pix], cos(pix_dec[pix]), sin(pix_dec[pix]));
+		// Several points can have the same starting pixel, and points outside the map can be far from theirs
+		if(dist >= dists[y*nx+x]) continue;
 		pointvec_push(curr, y, x);
 		dists[y*nx+x]   = dist;
 		domains[y*nx+x] = i;
@@ -290,6 +292,8 @@ void distance_from_points_bubble_separable(int ny, int nx, double * ypos, double
 	for(inum i = 0; i < npoint; i++) {
 		int y = point_y[i], x = point_x[i];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], xpos[x], pix_cos_dec[y], pix_sin_dec[y]);
+		// Several points can have the same starting pixel, and points outside the map can be far from theirs
+		if(dist >= dists[y*nx+x]) continue;
 		pointvec_push(curr, y, x);
 		dists[y*nx+x]   = dist;
 		domains[y*nx+x] = i;
@@ -681,9 +685,15 @@ void distance_from_points_cellgrid(int ny, int nx, double * ypos, double * xpos,
 		int y1 = by*bsize_y, yrel = point_y[i]-y1;
 		int x1 = bx*bsize_x, xrel = point_x[i]-x1;
 		int pixrel = yrel*grid.cells[ci].nx+xrel;
+		// The point does not have to be at the center of its starting pixel, several points can have the
+		// same starting pixel, and points outside the map can be far from theirs
+		inum pix = (inum)point_y[i]*nx+point_x[i];
+		double pix_dec = ypos[separable ? point_y[i] : pix], pix_ra = xpos[separable ? point_x[i] : pix];
+		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], pix_ra, cos(pix_dec), sin(pix_dec));
+		if(dist >= grid.cells[ci].dists[pixrel]) continue;
 		pointvec_push(grid.cells[ci].current, yrel, xrel);
 		grid.cells[ci].domains[pixrel] = i;
-		grid.cells[ci].dists[pixrel] = 0;
+		grid.cells[ci].dists[pixrel] = dist;
 	}
 	// Initialize them
 	#pragma omp parallel for
@@ -1032,6 +1042,7 @@ void distance_from_points_bubble_healpix(healpix_info * geo, inum npoint, double
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
+		if(dist >= dists[pix]) continue;
 		pointvec_push(curr, y, x);
 		dists[pix]   = dist;
 		domains[pix] = i;
@@ -1167,6 +1178,7 @@ void distance_from_points_heap_healpix(healpix_info * geo, inum npoint, double *
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
+		if(dist >= dists[pix]) continue;
 		HeapEntry entry = { dist, y, x };
 		pointheap_push(heap, entry);
 		dists[pix]   = dist;
-- 
2.43.0


From c027fef9c9132ae9aab350b9e48b9c515e76acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:06 +0000
Subject: [PATCH 106/151] fix: a point outside the map only starts from one
 boundary pixel, so the part of the map closest to it can be missed by the
 fast distance methods

---
 cython/distances.pyx | 85 ++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 50 deletions(-)

diff --git a/cython/distances.pyx b/cython/distances.pyx
index b648b17..d97f83d 100644
--- a/cython/distances.pyx
+++ b/cython/distances.pyx
@@ -1,5 +1,4 @@
 import cython, numpy as np
-from scipy import ndimage
 cimport numpy as np
 from libc.stdlib cimport free
 # I had to call this distances_wrap instead of just distances because
@@ -83,61 +82,44 @@ def distance_from_points_simple_separable(ypos, xpos, points, omap=None, odomain
 def fix_point_pix(posmap, point_pos, point_pix):
 	"""fix_point_pix(posmap, point_pos, point_pix)
 
-	Return a new point_pix where out of bounds points have been replaced by the closest point
-	on the boundary. This uses the simple method for the pixels on the boundary. The number of pixels
-	on the boundary are much lower than the pixels in the main part of the image, which partially
-	makes up for the slowness of the simple method, but you can still expect slowness if too many points
-	are outside the image."""
+	Return a new point_pos, point_pix where out of bounds points have been replaced by
+	one entry per boundary pixel that's closer to that point than to any other out of bounds point,
+	and an array owner with the original index of each entry. This uses the simple method for the pixels
+	on the boundary. The number of pixels on the boundary are much lower than the pixels in the main part of
+	the image, which partially makes up for the slowness of the simple method, but you can still expect
+	slowness if too many points are outside the image."""
 	ypos, xpos = posmap
-	# Get the bad points
-	bad = np.where(np.any(point_pix < 0,0) | np.any(point_pix >= np.array(ypos.shape[-2:])[:,None],0))[0]
-	# If there aren't any, we can just return right away
-	nbad = len(bad)
-	if nbad == 0: return point_pix
-	# Otherwise, run the simple method on each boundary. The simple method is slow, but the boundary is
-	# has much fewer pixels.
-	point_bad = point_pos[:,bad]
 	pos_edges = np.array([np.concatenate([p[:,0],p[:,-1],p[0,:],p[-1,:]],-1) for p in [ypos,xpos]])
-	dist, dom = distance_from_points_simple(pos_edges[:,None,:], point_bad, domains=True)
-	dist, dom = dist[0], dom[0]
-	# Find the minimum position for each point
-	minpos1d = np.array(ndimage.minimum_position(dist, dom+1, np.arange(nbad)+1)).reshape(-1)
-	# Turn the 1d minpos into a 2d pixel position
-	minpos   = _unwrap_minpos(minpos1d, ypos.shape[0], ypos.shape[1])
-	# Copy these into the output point_pix
-	opoint_pix = point_pix.copy()
-	opoint_pix[:,bad] = minpos
-	return opoint_pix
+	return _fix_point_pix(pos_edges, ypos.shape[0], ypos.shape[1], point_pos, point_pix)
 
 def fix_point_pix_separable(ypos, xpos, point_pos, point_pix):
 	"""fix_point_pix_separable(ypos, xpos, point_pos, point_pix)
 
-	Return a new point_pix where out of bounds points have been replaced by the closest point
-	on the boundary. This uses the simple method for the pixels on the boundary. The number of pixels
-	on the boundary are much lower than the pixels in the main part of the image, which partially
-	makes up for the slowness of the simple method, but you can still expect slowness if too many points
-	are outside the image."""
+	Like fix_point_pix, but for a separable coordinate system."""
+	pos_edges = np.array([
+		np.concatenate([ypos, ypos, np.full(xpos.size, ypos[0]), np.full(xpos.size, ypos[-1])]),
+		np.concatenate([np.full(ypos.size, xpos[0]), np.full(ypos.size, xpos[-1]), xpos, xpos])])
+	return _fix_point_pix(pos_edges, ypos.size, xpos.size, point_pos, point_pix)
+
+def _fix_point_pix(pos_edges, ny, nx, point_pos, point_pix):
+	owner = np.arange(point_pix.shape[1])
 	# Get the bad points
-	bad = np.where(np.any(point_pix < 0,0) | (point_pix[0] >= ypos.size) | (point_pix[1] >= xpos.size))[0]
+	isbad = np.any(point_pix < 0,0) | (point_pix[0] >= ny) | (point_pix[1] >= nx)
 	# If there aren't any, we can just return right away
-	nbad = len(bad)
-	if nbad == 0: return point_pix
+	if not np.any(isbad): return point_pos, point_pix, owner
 	# Otherwise, run the simple method on each boundary. The simple method is slow, but the boundary is
 	# has much fewer pixels.
-	point_bad = point_pos[:,bad]
-	pos_edges = np.array([
-		np.concatenate([ypos, ypos, np.full(xpos.size, ypos[0]), np.full(xpos.size, ypos[-1])]),
-		np.concatenate([np.full(ypos.size, xpos[0]), np.full(ypos.size, xpos[-1]), xpos, xpos])])
-	dist, dom = distance_from_points_simple(pos_edges[:,None,:], point_bad, domains=True)
-	dist, dom = dist[0], dom[0]
-	# Find the minimum position for each point
-	minpos1d = np.array(ndimage.minimum_position(dist, dom+1, np.arange(nbad)+1)).reshape(-1)
-	# Turn the 1d minpos into a 2d pixel position
-	minpos   = _unwrap_minpos(minpos1d, ypos.size, xpos.size)
-	# Copy these into the output point_pix
-	opoint_pix = point_pix.copy()
-	opoint_pix[:,bad] = minpos
-	return opoint_pix
+	bad, good = np.where(isbad)[0], np.where(~isbad)[0]
+	dist, dom = distance_from_points_simple(pos_edges[:,None,:], np.ascontiguousarray(point_pos[:,bad]), domains=True)
+	owner     = np.concatenate([good, bad[dom[0]]])
+	# Turn the 1d boundary position into a 2d pixel position
+	edge_pix  = _unwrap_minpos(np.arange(pos_edges.shape[1]), ny, nx)
+	point_pix = np.concatenate([point_pix[:,good], edge_pix.astype(np.int32)],1)
+	return np.ascontiguousarray(point_pos[:,owner]), point_pix, owner
+
+def _fix_domains(odomains, owner):
+	mask = odomains >= 0
+	odomains[mask] = owner[odomains[mask]]
 
 def _unwrap_minpos(minpos1d, ny, nx):
 	minpos   = np.zeros([2,len(minpos1d)], minpos1d.dtype)
@@ -165,7 +147,7 @@ def distance_from_points_bubble(posmap, point_pos, point_pix, rmax=None, omap=No
 	if odomains is None: odomains = np.empty_like(posmap[0], dtype=np.int32)
 	assert odomains.ndim == 2 and odomains.shape == posmap.shape[-2:] and odomains.dtype==np.int32, "odomains must be [ny,nx] int32"
 	# Make point_pix safe
-	point_pix = fix_point_pix(posmap, point_pos, point_pix)
+	point_pos, point_pix, owner = fix_point_pix(posmap, point_pos, point_pix)
 	# Prepare to call C
 	cdef int ny = posmap.shape[1]
 	cdef int nx = posmap.shape[2]
@@ -177,6 +159,7 @@ def distance_from_points_bubble(posmap, point_pos, point_pix, rmax=None, omap=No
 	cdef double[::1] omap_   = omap.reshape(-1)
 	cdef int[::1]    odomains_ = odomains.reshape(-1)
 	c.distance_from_points_bubble(ny, nx, &posmap_[0], npoint, &point_pos_[0], &point_pix_[0], rmax_, &omap_[0], &odomains_[0])
+	_fix_domains(odomains, owner)
 	if domains: return omap, odomains
 	else:       return omap
 
@@ -205,7 +188,7 @@ def distance_from_points_bubble_separable(ypos, xpos, point_pos, point_pix, rmax
 	if odomains is None: odomains = np.empty_like(ypos, dtype=np.int32, shape=(len(ypos),len(xpos)))
 	assert odomains.ndim == 2 and odomains.shape[-2:] == (len(ypos),len(xpos)) and odomains.dtype==np.int32, "odomains must be [ny,nx] int32"
 	# Make point_pix safe
-	point_pix = fix_point_pix_separable(ypos, xpos, point_pos, point_pix)
+	point_pos, point_pix, owner = fix_point_pix_separable(ypos, xpos, point_pos, point_pix)
 	# Prepare to call C
 	cdef int ny = len(ypos)
 	cdef int nx = len(xpos)
@@ -218,6 +201,7 @@ def distance_from_points_bubble_separable(ypos, xpos, point_pos, point_pix, rmax
 	cdef double[::1] omap_   = omap.reshape(-1)
 	cdef int[::1]    odomains_ = odomains.reshape(-1)
 	c.distance_from_points_bubble_separable(ny, nx, &ypos_[0], &xpos_[0], npoint, &point_pos_[0], &point_pix_[0], rmax_, &omap_[0], &odomains_[0])
+	_fix_domains(odomains, owner)
 	if domains: return omap, odomains
 	else:       return omap
 
@@ -255,9 +239,9 @@ def distance_from_points_cellgrid(ypos, xpos, point_pos, point_pix, dr=np.inf, r
 	bsize = np.zeros(2,np.int32)+bsize
 	# Make point_pix safe
 	if separable:
-		point_pix = fix_point_pix_separable(ypos, xpos, point_pos, point_pix)
+		point_pos, point_pix, owner = fix_point_pix_separable(ypos, xpos, point_pos, point_pix)
 	else:
-		point_pix = fix_point_pix([ypos, xpos], point_pos, point_pix)
+		point_pos, point_pix, owner = fix_point_pix([ypos, xpos], point_pos, point_pix)
 	# Prepare to call C
 	cdef inum npoint = point_pos.shape[1]
 	cdef double      rmax_   = (0 if rmax is None else rmax)
@@ -268,6 +252,7 @@ def distance_from_points_cellgrid(ypos, xpos, point_pos, point_pix, dr=np.inf, r
 	cdef double[::1] omap_   = omap.reshape(-1)
 	cdef int[::1]    odomains_ = odomains.reshape(-1)
 	c.distance_from_points_cellgrid(ny, nx, &ypos_[0], &xpos_[0], npoint, &point_pos_[0], &point_pix_[0], bsize[0], bsize[1], rmax_, dr, separable, &omap_[0], &odomains_[0])
+	_fix_domains(odomains, owner)
 	if domains: return omap, odomains
 	else:       return omap
 
-- 
2.43.0


From 9c48ceb70b9d117861d0992c9ad1a68d6a41ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:06 +0000
Subject: [PATCH 107/151] fix: growing a mask by zero empties it and shrinking
 it by zero fills the map

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index aa230b5..8b4d889 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2249,11 +2249,11 @@ def distance_from_healpix(nside, points, omap=None, odomains=None, domains=False
 
 def grow_mask(mask, r):
 	"""Grow the True part of boolean mask "mask" by a distance of r radians"""
-	return (~mask).distance_transform(rmax=r) < r
+	return ((~mask).distance_transform(rmax=r) < r) | mask
 
 def shrink_mask(mask, r):
 	"""Shrink the True part of boolean mask "mask" by a distance of r radians"""
-	return mask.distance_transform(rmax=r) >= r
+	return (mask.distance_transform(rmax=r) >= r) & mask
 
 def pad(emap, pix, return_slice=False, wrap=False, value=0):
 	"""Pad enmap "emap", creating a larger map with zeros filled in on the sides.
-- 
2.43.0


From dc16c5c8724e62e60f044e4bdf06ddd66cd5c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:06 +0000
Subject: [PATCH 108/151] fix: labeled distance transform with rmax forgets the
 label of pixels deep inside their own region

---
 pixell/enmap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 8b4d889..27e1cf6 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2122,9 +2122,11 @@ def labeled_distance_transform(labels, omap=None, odomains=None, rmax=None, meth
 		mapping = labels.preflat[i][edge_pix[0],edge_pix[1]]
 		mask    = domains >= 0
 		odomains.preflat[i,mask] = mapping[domains[mask]]
-		# Distance is always zero inside each labeled region
+		odomains.preflat[i,~mask]= 0
+		# Distance is always zero inside each labeled region, even farther than rmax from its edge
 		mask    = labels.preflat[i] != 0
 		omap.preflat[i][mask] = 0
+		odomains.preflat[i,mask] = labels.preflat[i,mask]
 	return omap, odomains
 
 def distance_from(shape, wcs, points, omap=None, odomains=None, domains=False, method="cellgrid", rmax=None, step=1024):
@@ -2225,9 +2227,11 @@ def labeled_distance_transform_healpix(labels, omap=None, odomains=None, rmax=No
 		mapping = lflat[i][edge_pix]
 		mask    = domains >= 0
 		odomains[i,mask] = mapping[domains[mask]]
-		# Distance is always zero inside each labeled region
+		odomains[i,~mask]= 0
+		# Distance is always zero inside each labeled region, even farther than rmax from its edge
 		mask = lflat[i] != 0
 		omap[i][mask] = 0
+		odomains[i,mask] = lflat[i][mask]
 	omap = omap.reshape(labels.shape)
 	odomains = odomains.reshape(labels.shape)
 	return omap, odomains
-- 
2.43.0


From 25704739c2e245defc111dc3e5cec609e1c2a7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:06 +0000
Subject: [PATCH 109/151] fix: crossmatch mode=first depends on the layout of
 the search tree instead of the order of the second catalog

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index dbd05cb..2701b3a 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3267,7 +3267,7 @@ def crossmatch(pos1, pos2, rmax, mode="closest", coords="auto"):
 	tree1   = spatial.cKDTree(pos1)
 	tree2   = spatial.cKDTree(pos2)
 	matches = tree1.query_ball_tree(tree2, r=reff)
-	pairs   = [(i1,i2) for i1, group in enumerate(matches) for i2 in group]
+	pairs   = [(i1,i2) for i1, group in enumerate(matches) for i2 in sorted(group)]
 
 	if mode == "all":
 		return pairs
-- 
2.43.0


From 88fdcadbbb17c20d4136f127aecc4b4109d983ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:28 +0000
Subject: [PATCH 110/151] fix: healpix distance functions fail when there are
 no points or edges

---
 cython/distances.pyx | 23 ++++++++++++++++++-----
 pixell/enmap.py      |  2 +-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/cython/distances.pyx b/cython/distances.pyx
index d97f83d..7629a75 100644
--- a/cython/distances.pyx
+++ b/cython/distances.pyx
@@ -367,8 +367,12 @@ def find_edges_healpix(healpix_info info, mask, flat=True):
 	cdef uint8_t[::1] mask_ = mask
 	nedge = c.find_edges_healpix(info.info, &mask_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view  = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
@@ -393,8 +397,12 @@ def find_edges_labeled_healpix(healpix_info info, labels, flat=True):
 	cdef int[::1] labels_ = labels.reshape(-1)
 	nedge = c.find_edges_labeled_healpix(info.info, &labels_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view  = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
@@ -417,13 +425,18 @@ def distance_from_points_healpix(healpix_info info, point_pos, point_pix, rmax=N
 	# point_pix can be standard 1d or our internal 2d format
 	point_pix = np.asanyarray(point_pix)
 	if point_pix.ndim == 1:
-		point_pix = unravel_healpix(info, point_pix)
+		point_pix = unravel_healpix(info, point_pix) if point_pix.size > 0 else np.zeros((2,0),np.int32)
 	point_pix = point_pix.astype(np.int32, order="C", copy=False)
 	assert point_pix.ndim == 2 and len(point_pix) == 2 and point_pix.shape[1] == point_pos.shape[1], "point_pos must be [npoint] or [{y,x},npoint]"
 	if omap is None: omap = np.empty(info.npix, dtype=np.float64)
 	assert omap.ndim == 1 and omap.size == info.npix and omap.dtype==np.float64, "omap must be [npix] float64"
 	if odomains is None: odomains = np.empty(info.npix, dtype=np.int32)
 	assert odomains.ndim == 1 and odomains.size == info.npix and odomains.dtype==np.int32, "odomains must be [npix] int32"
+	# Handle case where no points are specified
+	if point_pos.shape[1] == 0:
+		omap[:]     = np.inf if rmax is None else rmax
+		odomains[:] = -1
+		return (omap, odomains) if domains else omap
 	# Prepare to call C
 	cdef inum npoint = point_pos.shape[1]
 	cdef double      rmax_   = (0 if rmax is None else rmax)
diff --git a/pixell/enmap.py b/pixell/enmap.py
index 27e1cf6..74a2522 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2203,7 +2203,7 @@ def distance_transform_healpix(mask, omap=None, rmax=None, method="heap"):
 		distances.distance_from_points_healpix(info, edge_pos, edge_pix, omap=omap[i], rmax=rmax, method=method)
 	omap = omap.reshape(mask.shape)
 	# Distance is always zero inside mask
-	omap *= mask
+	omap[mask==0] = 0
 	return omap
 
 def labeled_distance_transform_healpix(labels, omap=None, odomains=None, rmax=None, method="heap"):
-- 
2.43.0


From d11dfee61e2361bf76c722c0bd726609d584ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:52 +0000
Subject: [PATCH 111/151] fix: coordinates.recenter/decenter with restore
 modified the caller's array of centers, so the next call with it went
 somewhere else

---
 pixell/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index 037c5c2..d274d3a 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -301,14 +301,14 @@ def recenter(angs, center, restore=False):
 	# lon_from,lat_from,lon_to,lat_to
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra1,dec0-dec1,-ra0], angs, kind="zyz")
 
 def decenter(angs, center, restore=False):
 	"""Inverse operation of recenter."""
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra0,dec1-dec0,-ra1],  angs, kind="zyz")
 
 def nohor(sys): return sys if sys not in ["altaz","tele","bore"] else "icrs"
-- 
2.43.0


From ca1fd01cf571e435c5329b0227f44b3127f2c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:52 +0000
Subject: [PATCH 112/151] fix: coordinates.transform_raw without a time
 truncated the result to whole radians for integer coordinates

---
 pixell/coordinates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index d274d3a..101f727 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -134,6 +134,7 @@ def transform_raw(from_sys, to_sys, coords, time=None, site=default_site, bore=N
 	# Prepare input and output arrays
 	if time is None:
 		coords = np.array(coords)[:2]
+		if not np.issubdtype(coords.dtype, np.floating): coords = coords.astype(float)
 	else:
 		time   = np.asarray(time)
 		coords = np.asarray(coords)
-- 
2.43.0


From 545db56ef1f3dfa7a10b9042049572bd7f237362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:05 +0000
Subject: [PATCH 113/151] fix: coordinate transformations relative to a
 boresight or reference point with the same multi-dimensional shape as the
 coordinates raised

---
 pixell/coordinates.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index 101f727..604cdd3 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -142,9 +142,16 @@ def transform_raw(from_sys, to_sys, coords, time=None, site=default_site, bore=N
 		# both time needing to broadcast and coords needing to
 		time   = time + np.zeros(coords[0].shape,time.dtype)
 		coords = (coords.T + np.zeros(time.shape,coords.dtype)[None].T).T
+	# The reference points and boresight have the same shape as time and coords, so
+	# they must be handled before flattening
+	oshape = coords.shape
+	(from_sys,from_ref), (to_sys,to_ref) = getsys_full(from_sys,time,site,bore=bore), getsys_full(to_sys,time,site,bore=bore)
+	if bore is not None:
+		bore = np.asarray(bore)
+		bore = bore.reshape((2,)+(1,)*(len(oshape)-bore.ndim)+bore.shape[1:])
+		bore = np.broadcast_to(bore, (2,)+oshape[1:]).reshape(2,-1)
 	# flatten, so the rest of the code can assume that coordinates are [2,N]
 	# and time is [N]
-	oshape = coords.shape
 	coords= np.ascontiguousarray(coords.reshape(2,-1))
 	if time is not None: time = time.reshape(-1)
 	# Perform the actual coordinate transformation. There are three classes of
@@ -152,8 +159,7 @@ def transform_raw(from_sys, to_sys, coords, time=None, site=default_site, bore=N
 	# 1. To/from object-centered coordinates
 	# 2. cel-hor transformation, using slalib
 	# 3. cel-gal transformation, using astropy
-	(from_sys,from_ref), (to_sys,to_ref) = getsys_full(from_sys,time,site,bore=bore), getsys_full(to_sys,time,site,bore=bore)
-	if from_ref is not None: coords[:] = decenter(coords, from_ref[0], restore=from_ref[1])
+	if from_ref is not None: coords[:] = decenter(coords.reshape(oshape), from_ref[0], restore=from_ref[1]).reshape(2,-1)
 	while True:
 		if from_sys == to_sys: break
 		elif from_sys == "bore":
@@ -178,7 +184,7 @@ def transform_raw(from_sys, to_sys, coords, time=None, site=default_site, bore=N
 			to_sys_astropy = nohor(to_sys)
 			coords[:] = transform_astropy(from_sys, to_sys_astropy, coords)
 			from_sys = to_sys_astropy
-	if to_ref is not None: coords[:] = recenter(coords, to_ref[0], restore=to_ref[1])
+	if to_ref is not None: coords[:] = recenter(coords.reshape(oshape), to_ref[0], restore=to_ref[1]).reshape(2,-1)
 	return coords.reshape(oshape)
 
 def transform_astropy(from_sys, to_sys, coords):
@@ -280,12 +286,11 @@ def euler_mat(euler_angles, kind="zyz"):
 
 def euler_rot(euler_angles, coords, kind="zyz"):
 	coords = np.asarray(coords)
-	co     = coords.reshape(2,-1)
 	M      = euler_mat(euler_angles, kind)
-	rect   = utils.ang2rect(co, False)
+	rect   = utils.ang2rect(coords, False)
 	rect   = np.einsum("...ij,j...->i...",M,rect)
 	co     = utils.rect2ang(rect, False)
-	return co.reshape(coords.shape)
+	return co.reshape(coords.shape) if co.size == coords.size else co
 
 def recenter(angs, center, restore=False):
 	"""Recenter coordinates "angs" (as ra,dec) on the location given by "center",
-- 
2.43.0


From 0a450abfc81cb4e6c25b477053fcfeb81f99469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 114/151] fix: curvedsky misplaced the rings of Driscoll-Healy
 maps by one, so they could not be analysed

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 004ab7d..4eae179 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1304,7 +1304,7 @@ def get_ducc_geo(wcs, shape=None, tol=1e-6):
 	# makes it easier to read
 	if   hasoff(y1,0.0) and hasoff(y2,0.0):
 		if   near(y1,-1) and near(y2,Ny): name, o1, o2 = "F2", 1, 1
-		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 1, 0
+		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 0, 1
 		else: name, o1, o2 = "CC", 0, 0
 	elif hasoff(y1,0.5) and hasoff(y2,0.5): name, o1, o2 = "F1", 0.5, 0.5
 	elif hasoff(y1,0.5) and hasoff(y2,0.0): name, o1, o2 = "MW", 0.5, 0.0
-- 
2.43.0


From d897f3b90ababe0e24a69f0be449dbb26baaa2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 115/151] fix: general alm2map and map2alm raised NameError for
 2d maps that reach outside the projection

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 4eae179..cf61aa4 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -775,7 +775,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
@@ -854,7 +854,7 @@ def map2alm_general(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2]
 	if weights is None: weights = map.pixsizemap()[locinfo.mask].astype(map.dtype, copy=False)
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
-- 
2.43.0


From 2854ddc42f4628c83d0585654de64488a9f10b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 116/151] fix: curvedsky.calc_locinfo left out the last row
 when the number of rows is one more than a multiple of the block size

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index cf61aa4..d3a4d21 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1332,7 +1332,7 @@ def calc_locinfo(shape, wcs, bsize=1000):
 	loc  = np.zeros((shape[-2]*shape[-1],2))
 	mask = np.zeros(shape[-2:],bool)
 	off  = 0
-	for b1 in range(0, shape[-2]-1, bsize):
+	for b1 in range(0, shape[-2], bsize):
 		b2      = min(b1+bsize, shape[-2])
 		subgeo  = enmap.Geometry(shape, wcs)[b1:b2]
 		subpos  = enmap.posmap(*subgeo, safe=False)
-- 
2.43.0


From 41f8ddd5ff30ebef2f1f31b8400c4e2304c6a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:36 +0000
Subject: [PATCH 117/151] fix: map2alm with deriv and its adjoint raised for
 the cyl, general and healpix methods

---
 pixell/curvedsky.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index d3a4d21..751a6fb 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -375,10 +375,9 @@ def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weight
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(wmul(map,weights))
 			def WY(alm):  return wmul(Y(alm),weights)
-			decflip = np.array([-1,1])[:,None,None]
+			decflip = np.array([-1,1])[:,None]
 			if adjoint: map_full[I] = jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter)*decflip
-			# does this need an [0] at the end like the other versions have?
-			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)
+			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)[0]
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -1040,7 +1039,7 @@ def map2alm_raw_cyl(map, alm=None, ainfo=None, lmax=None, spin=[0,2], weights=No
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(wmul(map,weights))
 			def WY(alm):  return wmul(Y(alm),weights)
-			decflip = np.array([-1,1])[:,None,None]
+			decflip = np.array([-1,1])[:,None]
 			# The with deriv, alm has a shape of [1,nalm]. The [0] reduces this to [nalm]
 			if adjoint: map_full[I] = jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter)*decflip
 			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)[0]
@@ -1076,7 +1075,7 @@ def map2alm_raw_general(map, loc, alm=None, ainfo=None, lmax=None, spin=[0,2], w
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis_general(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(map*weights)
 			def WY(alm):  return wmul(Y(alm),weights)
-			decflip = np.array([-1,1])[:,None,None]
+			decflip = np.array([-1,1])[:,None]
 			if adjoint: map_full[I] = jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter)*decflip
 			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)[0]
 		else:
-- 
2.43.0


From 52eb5e797a88ea29d9d46da02b3b325edebabbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:36 +0000
Subject: [PATCH 118/151] fix: the adjoint of alm2map with deriv had the wrong
 sign for the dec component and changed the sign of the caller's map

---
 pixell/curvedsky.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 751a6fb..83dda33 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -337,9 +337,13 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	# Loop over pre-dimensions
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=alm_full[I], map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			decflip = np.array([-1,1],map_full.dtype)[:,None]
+			ialm    = utils.fix_zero_strides(alm_full[I][None])
+			if adjoint: func(alm=ialm, map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=ialm, map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I] *= decflip
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full[I].shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -885,9 +889,13 @@ def alm2map_raw_2d(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, ve
 	# pre-dimentions are map.shape[:-3]
 	for I in utils.nditer(map_full.shape[:-3]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			decflip = np.array([-1,1],map_full.dtype)[:,None,None]
+			ialm    = utils.fix_zero_strides(alm_full[I][None])
+			if adjoint: func(alm=ialm, map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=ialm, map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I] *= decflip
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -921,9 +929,13 @@ def alm2map_raw_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, c
 	# dimensions, so this outermost loop usually does nothing
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			decflip = np.array([-1,1],map_full.dtype)[:,None]
+			ialm    = utils.fix_zero_strides(alm_full[I][None])
+			if adjoint: func(alm=ialm, map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=ialm, map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I] *= decflip
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -975,9 +987,13 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			decflip = np.array([-1,1],map_full.dtype)[:,None]
+			ialm    = utils.fix_zero_strides(alm_full[I][None])
+			if adjoint: func(alm=ialm, map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=ialm, map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I] *= decflip
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
-- 
2.43.0


From 8f420ef4d7d6b5fca68c6d892d131eff4fab2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:36 +0000
Subject: [PATCH 119/151] fix: quad_weights, and the weights used and accepted
 by map2alm_cyl, were in the wrong row order for maps in one of the dec
 directions

---
 pixell/curvedsky.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 83dda33..a0b5e18 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -489,7 +489,7 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 	weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
-	if minfo.flip: weights = weights[::-1]
+	if minfo.flip[0]: weights = weights[::-1]
 	weights/= minfo.ducc_geo.nx
 	return weights
 
@@ -831,8 +831,10 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 			weights/= minfo.ducc_geo.nx
 		else:
 			weights = map.pixsizemap(separable=True, broadcastable=True)[:,0]
-			if minfo.flip: weights = weights[::-1]
+			if minfo.flip[0]: weights = weights[::-1]
 		weights = weights.astype(map.dtype, copy=False)
+	# weights passed in by the user are in map order, like those from quad_weights
+	elif minfo.flip[0]: weights = weights[::-1]
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
-- 
2.43.0


From 91c5289c4ac94011277adb1997f61e729771c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:36 +0000
Subject: [PATCH 120/151] fix: map2alm ignored niter for the general method

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index a0b5e18..d641fe6 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -296,7 +296,7 @@ def map2alm(map, alm=None, lmax=None, spin=[0,2], deriv=False, adjoint=False,
 	elif method == "general":
 		if verbose: print("method: pos")
 		return map2alm_general(map, alm, ainfo=ainfo, lmax=lmax, spin=spin, deriv=deriv, copy=copy,
-			verbose=verbose, adjoint=adjoint, nthread=nthread, epsilon=epsilon,
+			verbose=verbose, adjoint=adjoint, nthread=nthread, epsilon=epsilon, niter=niter,
 			locinfo=locinfo, weights=weights)
 	else:
 		raise ValueError("Unrecognized alm2map method '%s'" % str(method))
-- 
2.43.0


From c873a8ae56bf09416e09a257b38ce97a6fba62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 121/151] fix: general alm2map read the wrong coefficients for
 alms not in the standard triangular layout

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index d641fe6..e599e1f 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -985,7 +985,7 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	if epsilon is None:
 		if map.dtype == np.float64: epsilon = 1e-10
 		else:                       epsilon = 1e-6
-	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "nthreads":nthread, "epsilon":epsilon}
+	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "mstart":ainfo.mstart, "nthreads":nthread, "epsilon":epsilon}
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-- 
2.43.0


From e15f43e7616d9913aa01b8a58348ea77f3116595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 122/151] fix: map2alm took CEA, MER and CYP maps for
 equi-spaced in dec and used the wrong weights, and raised for partial-sky MW
 maps

---
 pixell/curvedsky.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index e599e1f..3ddede1 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -484,7 +484,7 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	weights[ny] where ny is shape[-2]. For cases where quadrature weights aren't available,
 	it's a pretty good approximation to just use the pixel area."""
 	minfo = analyse_geometry(shape, wcs, tol=pix_tol)
-	if minfo.ducc_geo.name is None:
+	if minfo.ducc_geo is None or not has_gridweights(minfo.ducc_geo.name):
 		raise ValueError("Quadrature weights not available for geometry %s,%s" % (str(shape),str(wcs)))
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
@@ -824,7 +824,7 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Get our weights, approximate or not
 	if weights is None:
-		if minfo.ducc_geo is not None and minfo.ducc_geo.name is not None:
+		if minfo.ducc_geo is not None and has_gridweights(minfo.ducc_geo.name):
 			ny      = map.shape[-2]+np.sum(minfo.ypad)
 			weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 			weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
@@ -1298,6 +1298,8 @@ def get_ducc_geo(wcs, shape=None, tol=1e-6):
 	object. Returns a bunch(name, phi0) where name is one of "CC", "F1", "MW",
 	"MWflip", "DH" and "F2". "GL": gauss-legendre is not supported by wcs.
 	Returns None if the wcs doesn't correspond to a ducc geometry."""
+	# All the ducc grids are equi-spaced in theta. Other cylindrical projections aren't
+	if wcsutils.get_proj(wcs) != "car": return None
 	def near(a, b): return np.abs(a-b)<tol
 	def hasoff(val, off): return utils.hasoff(val, off, tol=tol)
 	# Check if we need flipping. Ducc assumes increasing phi and theta,
@@ -1340,6 +1342,10 @@ def get_ducc_maxlmax(name, ny):
 	elif name == "F2": return (ny-1)//2
 	else:              return ny-1
 
+def has_gridweights(name):
+	"""Whether ducc provides ring weights for the given grid. It doesn't for the MW ones."""
+	return name in ["CC", "F1", "DH", "F2"]
+
 def calc_locinfo(shape, wcs, bsize=1000):
 	"""Calculate pixel position info in the format ducc needs"""
 	# posmaps can be big, bigger than the normal map itself due to being
-- 
2.43.0


From 028fb429c0509b87e4b79445ac4ef4d7d3180e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:02 +0000
Subject: [PATCH 123/151] fix: healpix transforms raised when limited to a
 range of theta

---
 pixell/curvedsky.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 3ddede1..6e21b67 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -375,7 +375,7 @@ def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weight
 	# Iterate over all the predimensions
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			def Y(alm):   return ducc0.sht.experimental.synthesis(alm=alm, mode="DERIV1", spin=1, **kwargs)
+			def Y(alm):   return ducc0.sht.experimental.synthesis(alm=alm, map=np.zeros(map_full[I].shape, map_full.dtype), mode="DERIV1", spin=1, **kwargs)
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(wmul(map,weights))
 			def WY(alm):  return wmul(Y(alm),weights)
@@ -385,7 +385,7 @@ def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weight
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
-				def Y(alm):   return ducc0.sht.experimental.synthesis(alm=alm, spin=s, **kwargs)
+				def Y(alm):   return ducc0.sht.experimental.synthesis(alm=alm, map=np.zeros(map_full[Ij].shape, map_full.dtype), spin=s, **kwargs)
 				def YT(map):  return ducc0.sht.experimental.adjoint_synthesis(map=map, spin=s, **kwargs)
 				def YTW(map): return YT(wmul(map,weights))
 				def WY(alm):  return wmul(Y(alm),weights)
@@ -585,7 +585,8 @@ def apply_minfo_theta_lim(minfo, theta_min=None, theta_max=None):
 	if theta_min is not None: mask &= minfo.theta >= theta_min
 	if theta_max is not None: mask &= minfo.theta <= theta_max
 	res = minfo.copy()
-	for key in ["theta", "nphi", "phi0"]: res[key] = res[key][mask]
+	for key in ["theta", "nphi", "phi0", "offsets", "stride"]: res[key] = res[key][mask]
+	res.nrow = len(res.theta)
 	return res
 
 def fill_gauss(arr, bsize=0x10000):
-- 
2.43.0


From a88d56f50b89d553c03d5bee4f6285b81c9167e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:02 +0000
Subject: [PATCH 124/151] fix: alm2map_healpix with deriv needed a preallocated
 map of the right shape and ignored copy, and the adjoint of map2alm_healpix
 raised with copy

---
 pixell/curvedsky.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 6e21b67..1200cd9 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -315,7 +315,10 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	healmap[...,ncomp,npix]."""
 	dtype      = utils.native_dtype(utils.real_dtype(alm.dtype))
 	alm, ainfo = prepare_alm(alm, ainfo, dtype=dtype)
-	healmap    = prepare_healmap(healmap, nside, alm.shape[:-1], dtype)
+	if copy:
+		if adjoint: alm = alm.copy()
+		elif healmap is not None: healmap = healmap.copy()
+	healmap    = prepare_healmap(healmap, nside, alm.shape[:-1] + ((2,) if deriv else ()), dtype)
 	alm_full   = utils.atleast_Nd(alm, 2 if deriv else 3)
 	map_full   = utils.atleast_Nd(healmap, 3)
 	alm_full   = utils.fix_zero_strides(alm_full)
@@ -354,10 +357,10 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weights=None, deriv=False, copy=False, verbose=False, adjoint=False, niter=0, theta_min=None, theta_max=None, nthread=None):
 	"""map2alm for healpix maps. Similar to healpy's map2alm. See the map2alm docstring for details."""
 	if adjoint:
-		if copy and map is not None: map = map.copy()
+		if copy: healmap = healmap.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
-	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=healmap.shape[:-1], dtype=utils.native_dtype(healmap.dtype))
+	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=healmap.shape[:-2] if deriv else healmap.shape[:-1], dtype=utils.native_dtype(healmap.dtype))
 	alm_full   = utils.atleast_Nd(alm, 2 if deriv else 3)
 	map_full   = utils.atleast_Nd(healmap, 3)
 	alm_full   = utils.fix_zero_strides(alm_full)
-- 
2.43.0


From 9050144d2c97105d9676e848caa28a5ecdd1a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 125/151] fix: alm2map_pos raised for longitudes below -360
 degrees, and for maps and adjoints with multi-dimensional positions

---
 pixell/curvedsky.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 1200cd9..3aeb8d4 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -189,22 +189,22 @@ def alm2map_pos(alm, pos=None, loc=None, ainfo=None, map=None, spin=[0,2], deriv
 		# This should use less memory than writing loc[:,0] = np.pi/2-loc[:,0]
 		loc[...,0] *= -1
 		loc[...,0] += np.pi/2
-		# Should use rewind here, but this is more efficient
-		loc[loc[...,1]<0,1] += 2*np.pi
+		loc[...,1] %= 2*np.pi
 		# Support arbitrary pre-dimensions for loc (post-dimensions for pos)
 	lpre = loc.shape[:-1]
 	loc  = loc.reshape(-1,2)
 	if deriv: oshape = alm.shape[:-1]+(2,len(loc))
 	else:     oshape = alm.shape[:-1]+(len(loc),)
 	if map is None:
-		map = np.zeros(oshape, utils.real_dtype(alm.dtype))
-	for I in utils.nditer(map.shape[:-2]):
-		alm2map_raw_general(alm[I], map[I], loc, ainfo=ainfo, spin=spin, deriv=deriv,
+		map = np.zeros(oshape[:-1]+lpre, utils.real_dtype(alm.dtype))
+	# Work on a version with the dimensions of pos/loc flattened
+	wmap = np.ascontiguousarray(map).reshape(oshape)
+	for I in utils.nditer(wmap.shape[:-2]):
+		alm2map_raw_general(alm[I], wmap[I], loc, ainfo=ainfo, spin=spin, deriv=deriv,
 				nthread=nthread, verbose=verbose, epsilon=epsilon, adjoint=adjoint)
-	# Reshape to reflect the dimensions pos/loc
-	map = map.reshape(map.shape[:-1]+lpre)
 	if adjoint: return alm
-	else:       return map
+	if not np.may_share_memory(wmap, map): map[:] = wmap.reshape(map.shape)
+	return map
 
 def map2alm(map, alm=None, lmax=None, spin=[0,2], deriv=False, adjoint=False,
 		copy=False, method="auto", ainfo=None, verbose=False, nthread=None,
-- 
2.43.0


From 687ad8e9678cc38e26c0464637f89d993fc2f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 126/151] fix: map2alm and alm2map_adjoint with deriv raised
 unless an alm was passed in

---
 pixell/curvedsky.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 3aeb8d4..27bd5a1 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -736,7 +736,7 @@ def alm2map_2d(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, copy=F
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3] if deriv else map.shape[:-2], dtype=utils.native_dtype(map.dtype))
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -756,7 +756,7 @@ def alm2map_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, copy=
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3] if deriv else map.shape[:-2], dtype=utils.native_dtype(map.dtype))
 	if minfo is None: minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -776,7 +776,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3] if deriv else map.shape[:-2], dtype=utils.native_dtype(map.dtype))
 	if locinfo is None: locinfo = calc_locinfo(map.shape, map.wcs)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -803,7 +803,7 @@ def map2alm_2d(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], der
 		if copy and map is not None: map = map.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
-	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-3] if deriv else map.shape[:-2], dtype=utils.native_dtype(map.dtype))
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -824,7 +824,7 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 		if copy and map is not None: map = map.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
-	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-3] if deriv else map.shape[:-2], dtype=utils.native_dtype(map.dtype))
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Get our weights, approximate or not
 	if weights is None:
@@ -858,7 +858,7 @@ def map2alm_general(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2]
 		if copy and map is not None: map = map.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
-	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-3] if deriv else map.shape[:-2], dtype=utils.native_dtype(map.dtype))
 	if locinfo is None: locinfo = calc_locinfo(map.shape, map.wcs)
 	if weights is None: weights = map.pixsizemap()[locinfo.mask].astype(map.dtype, copy=False)
 	for I in utils.nditer(map.shape[:-3]):
-- 
2.43.0


From 8f36d288b3269ddfef926b4afb5e85b55673b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:11 +0000
Subject: [PATCH 127/151] fix: general alm2map and map2alm raised for maps that
 are not in native byte order

---
 pixell/curvedsky.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 27bd5a1..13aeb36 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -786,6 +786,8 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
+		# ducc only understands native byte order
+		tmap = tmap.astype(utils.native_dtype(map.dtype), copy=False)
 		alm2map_raw_general(alm[I], tmap, locinfo.loc, ainfo=ainfo, spin=spin, deriv=deriv,
 				verbose=verbose, epsilon=epsilon, adjoint=adjoint, nthread=nthread)
 		# Copy out map if necessary
@@ -867,6 +869,8 @@ def map2alm_general(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2]
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
+		# ducc only understands native byte order
+		tmap = tmap.astype(utils.native_dtype(map.dtype), copy=False)
 		map2alm_raw_general(tmap, locinfo.loc, alm[I], ainfo=ainfo, lmax=lmax, spin=spin, deriv=deriv,
 				weights=weights, adjoint=adjoint, nthread=nthread, verbose=verbose,
 				niter=niter, epsilon=epsilon)
-- 
2.43.0


From 4642d5b99400692e5601fd5056b112e42c0a6988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 128/151] fix: resample_fft turned the highest positive
 frequency into a negative one when the smaller of the two sizes is odd

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 74a2522..1aaadd0 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3195,7 +3195,7 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	# fourier center had been in the middle. This could be acieved using fftshift,
 	# but that would require two extra full-array shifts
 	cny, cnx = np.minimum(fimap.shape[-2:], oshape[-2:])
-	hny, hnx = cny//2, cnx//2
+	hny, hnx = (cny+1)//2, (cnx+1)//2
 	# This function is used to avoid paying the cost of multiplying by norm when it's one
 	def transfer(dest, source, norm, op):
 		if norm != 1: source = source*norm
-- 
2.43.0


From 718498b105df8805655859042bfcd207432cc34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 129/151] fix: resample_fft into an existing map also shifted
 what was already there, so each scale of the flat wavelet transform moved the
 previous ones

---
 pixell/enmap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 1aaadd0..4252fda 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3175,6 +3175,11 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 		# the left in the original pixelization followed by a half pixel shift to the right in the new
 		# pixelization.
 		off -= 0.5 - 0.5*np.array(oshape[-2:],float)/fimap.shape[-2:] # in output units
+	if fomap is not None and not dummy and np.any(off != 0):
+		# We will only overwrite or update part of fomap, so the shift must not be
+		# applied to what is there already. Shift the input instead, in its own units
+		fimap = enfft.shift(fimap, off*(np.array(fimap.shape[-2:],float)/oshape[-2:]), axes=(-2,-1), nofft=True)
+		off   = np.zeros(2)
 	if fomap is None:
 		owcs  = wcsutils.scale(fimap.wcs, np.array(oshape[-2:],float)/fimap.shape[-2:], rowmajor=True, corner=corner)
 		if dummy: return oshape, owcs
-- 
2.43.0


From 4507eeec3c0fe84378b0b79c20a907fb83e66083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 130/151] fix: resample_fft raised a NameError instead of
 reporting an unrecognized unit

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 4252fda..508032f 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3195,7 +3195,7 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 		elif norm == "plain":  norm = fomap.npix/fimap.npix # Corresponds to normalize=False in enmap.ifft
 		elif norm == "pix":    norm = (fomap.npix/fimap.npix)**0.5 # Corresponds to normalize=True, enmap.fft default
 		elif norm == "phys":   norm = 1 # Corresponds to normalize="phys"
-		else: raise ValueError("Unrecognized fourier unit '%s'" % str(unit))
+		else: raise ValueError("Unrecognized fourier unit '%s'" % str(norm))
 	# copy over all 4 quadrants. This would have been a single operation if the
 	# fourier center had been in the middle. This could be acieved using fftshift,
 	# but that would require two extra full-array shifts
-- 
2.43.0


From 2e3aab91958c784ed72b6251f3a312bfb788eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:26 +0000
Subject: [PATCH 131/151] fix: wcsutils.scale with corner=False kept the pixel
 before the first one in place instead of the first one

---
 pixell/wcsutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index c4325d4..2daac49 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -195,12 +195,11 @@ def scale(wcs, scale=1, rowmajor=False, corner=True):
 	scale = np.zeros(2)+scale
 	if rowmajor: scale = scale[::-1]
 	wcs = wcs.deepcopy()
-	if corner:
-		wcs.wcs.crpix -= 0.5
+	off = 0.5 if corner else 1
+	wcs.wcs.crpix -= off
 	wcs.wcs.crpix *= scale
 	wcs.wcs.cdelt /= scale
-	if corner:
-		wcs.wcs.crpix += 0.5
+	wcs.wcs.crpix += off
 	return wcs
 
 #def expand_res(res, default_dirs=[1,-1]):
-- 
2.43.0


From 554d69fe8c49de09b5741989e9213c27f4cbdbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:26 +0000
Subject: [PATCH 132/151] fix: the multipoles of the flat wavelet scales were
 multiplied by a phase, giving NaN filters

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 1c954f2..1adde28 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -385,7 +385,7 @@ class WaveletTransform:
 		"""Get the multipole indices for wavelet scale i. This will be an enmap
 		in if the uht is flat, otherwise it's a 1d array"""
 		if self.uht.mode == "flat":
-			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=True)
+			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=False)
 		else:
 			return self.uht.l
 	def get_variance_transform(self):
-- 
2.43.0


From a4d913bcaf436df84fb071f7d5ac77a80328e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:26 +0000
Subject: [PATCH 133/151] fix: WaveletTransform raised when given ores, had the
 shape as its wcs, and ignored the fill value on the flat sky

---
 pixell/wavelets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 1adde28..8610814 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -285,7 +285,7 @@ class WaveletTransform:
 			if ores is None:
 				oress = np.maximum(np.pi/self.basis.lmaxs, ires)
 			else:
-				oress = np.zeros(self.nlevel)+ores
+				oress = np.zeros(self.basis.n)+ores
 			# Build the geometries for each wavelet scale
 			if uht.mode == "flat":
 				self.geometries = [make_wavelet_geometry_flat(uht.shape, uht.wcs, ires, ores) for ores in oress[:-1]] + [(uht.shape, uht.wcs)]
@@ -299,7 +299,7 @@ class WaveletTransform:
 	@property
 	def shape(self): return self.uht.shape
 	@property
-	def wcs(self): return self.uht.shape
+	def wcs(self): return self.uht.wcs
 	@property
 	def geometry(self): return self.shape, self.wcs
 	@property
@@ -338,7 +338,7 @@ class WaveletTransform:
 					owave.maps[i] = enmap.ifft(fsmall, normalize=False).real
 				else:
 					owave.maps[i] = enmap.zeros(shape,wcs)
-					if fill_value is not None: owave.maps[i][:] = np.nan
+					if fill_value is not None: owave.maps[i][:] = fill_value
 					
 		else:
 			ainfo = curvedsky.alm_info(lmax=self.basis.lmax)
-- 
2.43.0


From 9c91ea1008badc7ff4d2645ef98a4253828ec221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:26 +0000
Subject: [PATCH 134/151] fix: the Butterworth bases raised for bounds closer
 than one step

---
 pixell/wavelets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 8610814..4a0cf99 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -39,7 +39,7 @@ class Butterworth:
 	def kernel(self, i, l):
 		return 1/(1 + (l/(self.lmin*self.step**(i+0.5)))**(self.shape/np.log(self.step)))
 	def _finalize(self):
-		self.n        = int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step))
+		self.n        = max(1,int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step)))
 		# 1+(l/(lmin*(step**(i+0.5))))**a = 1/tol =>
 		# l = (1/tol-1)**(1/a) * lmin*(step**(i+0.5))
 		self.lmaxs    = np.round(self.lmin * (1/self.tol-1)**(np.log(self.step)/self.shape) * self.step**(np.arange(self.n)+0.5)).astype(int)
@@ -68,7 +68,7 @@ class ButterTrim:
 	def kernel(self, i, l):
 		return trim_kernel(1/(1 + (l/(self.lmin*self.step**(i+0.5)))**(self.shape/np.log(self.step))), self.trim)
 	def _finalize(self):
-		self.n        = int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step))
+		self.n        = max(1,int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step)))
 		# 1/(1+(l/(lmin*(step**(i+0.5))))**a)*(1+2*trim)-trim = 0
 		# => l = ((1+2*trim)/trim-1)**(1/a) * (lmin*(step**(i+0.5)))
 		self.lmaxs    = np.ceil(self.lmin * ((1+2*self.trim)/self.trim-1)**(np.log(self.step)/self.shape) * self.step**(np.arange(self.n)+0.5)).astype(int)
@@ -95,7 +95,7 @@ class DigitalButterTrim:
 	def kernel(self, i, l):
 		return trim_kernel(1/(1 + (l/(self.lmin*self.step**(i+0.5)))**(self.shape/np.log(self.step))), self.trim)
 	def _finalize(self):
-		self.n     = int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step))
+		self.n     = max(1,int((np.log(self.lmax)-np.log(self.lmin))/np.log(self.step)))
 		# 1/(1+(l/(lmin*(step**(i+0.5))))**a)*(1+2*trim)-trim = 0
 		# => l = ((1+2*trim)/trim-1)**(1/a) * (lmin*(step**(i+0.5)))
 		self.lmaxs = np.ceil(self.lmin * ((1+2*self.trim)/self.trim-1)**(np.log(self.step)/self.shape) * self.step**(np.arange(self.n)+0.5)).astype(int)
-- 
2.43.0


From 054a1f6ab10a47907ae09859ce7b7274dfae96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:26 +0000
Subject: [PATCH 135/151] fix: the last cosine needlet was zero at its own peak

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 4a0cf99..0f42010 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -147,7 +147,7 @@ class CosineNeedlet:
 		out = l*0.
 		if i>0:
 			lpeakim1 = self.lpeaks[i-1]
-			sel1 = np.logical_and(l>=lpeakim1,l<lpeaki)
+			sel1 = np.logical_and(l>=lpeakim1,l<=lpeaki)
 			out[sel1] = np.cos(np.pi*(lpeaki-l[sel1])/(lpeaki-lpeakim1)/2.)
 		if i<(self.n-1):
 			lpeakip1 = self.lpeaks[i+1]
-- 
2.43.0


From ddadfb0b7d78a7a6fe0db3d6eba9ef19add83062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:26 +0000
Subject: [PATCH 136/151] fix: UHT.harm2map_adjoint ignored the spin on the
 curved sky

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 285dcd7..72602eb 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -106,7 +106,7 @@ class UHT:
 		if self.mode == "flat":
 			return enmap.harm2map_adjoint(map, spin=spin, normalize="phys")
 		else:
-			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo)
+			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo, spin=spin)
 	def map2harm_adjoint(self, harm, spin=0):
 		if self.mode == "flat":
 			return enmap.map2harm_adjoint(harm, spin=spin, normalize="phys")
-- 
2.43.0


From b6d2305bc4ce653758cff51af05736dfa665a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:26 +0000
Subject: [PATCH 137/151] fix: alm_info.get_map, and with it UHT.hprof2harm,
 was not implemented

---
 pixell/curvedsky.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 13aeb36..c65e268 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -439,7 +439,13 @@ class alm_info:
 		return (self.mstart[m].astype(int, copy=False)+l*self.stride).astype(int, copy=False)
 	def get_map(self):
 		"""Return the explicit [nelem,{l,m}] mapping this alm_info represents."""
-		raise NotImplementedError
+		res = np.zeros((self.nelem,2),int)
+		for m in range(self.mmax+1):
+			l   = np.arange(m, self.lmax+1)
+			ind = self.lm2ind(l, m)
+			res[ind,0] = l
+			res[ind,1] = m
+		return res
 	def transpose_alm(self, alm, out=None):
 		"""In order to accomodate l-major ordering, which is not directly
 		supported, this function efficiently transposes Alm into
-- 
2.43.0


From 07b66e7f984913bdbfd91ccda5f16f857140d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:07 +0000
Subject: [PATCH 138/151] fix: the fake communicator's Allgatherv raised a
 NameError

---
 pixell/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/mpiutils.py b/pixell/mpiutils.py
index 5d28516..42d6067 100644
--- a/pixell/mpiutils.py
+++ b/pixell/mpiutils.py
@@ -11,7 +11,7 @@ class FakeCommunicator:
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Allgather(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[0] = _unbuf(sendbuf)
-    def Allgatherv(self, sendbuf, redvbuf):
+    def Allgatherv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Alltoallv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
-- 
2.43.0


From ed0dcbe6eb1a40a721173dc09e48132919933725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:07 +0000
Subject: [PATCH 139/151] fix: tilemap.redistribute mixed up tiles when sender
 and receiver list their active tiles in different orders

---
 pixell/tilemap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 90bece3..43adb78 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -463,7 +463,10 @@ def redistribute(imap, comm, active=None, omap=None):
 	iflat     = np.ascontiguousarray(imap.T).reshape(-1)
 	send_sizes= np.sum(omask*isizes,1)
 	send_offs = utils.cumsum(send_sizes)
-	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for rank, iact in np.argwhere(omask)]
+	# The tiles exchanged by a pair of tasks must have the same order at both ends, whatever
+	# the order of their active lists, so go through them in global order
+	iorder    = np.argsort(imap.active)
+	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for iact in iorder[np.argwhere(omask[:,iorder])[:,1]]]
 	send_buf  = np.concatenate(send_buf, dtype=iflat.dtype) if len(send_buf) > 0 else np.zeros(0, iflat.dtype)
 	# 5. Build the alltoallv receive info
 	recv_sizes= np.sum(imask*osizes,1)
@@ -475,7 +478,8 @@ def redistribute(imap, comm, active=None, omap=None):
 	# 7. Copy and reduce into flattened output tiles
 	oflat     = np.zeros(omap.size, omap.dtype)
 	rbuf_off  = 0
-	for rank, oact in np.argwhere(imask):
+	oorder    = np.argsort(omap.active)
+	for oact in oorder[np.argwhere(imask[:,oorder])[:,1]]:
 		oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] += recv_buf[rbuf_off:rbuf_off+osizes[oact]]
 		rbuf_off += osizes[oact]
 	del recv_buf
-- 
2.43.0


From a33f483804cb64182b5ac4d07beb3ee6d20cc30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:07 +0000
Subject: [PATCH 140/151] fix: sbox_div wrapped offsets into flipped and
 strided boxes wrongly

---
 pixell/utils.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 2701b3a..fed09e1 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1654,15 +1654,14 @@ def sbox_div(a,b,wrap=0):
 	b = sbox_fix(b)
 	step  = a[...,2]//b[...,2]
 	num   = (a[...,1]-a[...,0])//a[...,2]
-	start = (a[...,0]-b[...,0])//b[...,2]
+	# How far into b a starts, in pixels along b's direction
+	off   = (a[...,0]-b[...,0])*np.sign(b[...,2])
+	if np.any(wrap):
+		wrap = np.zeros(off.shape,int)+wrap
+		off  = np.where(wrap==0, off, off % np.where(wrap==0, 1, wrap))
+	start = off//np.abs(b[...,2])
 	end   = start + step*num
-	res   = np.stack([start,end,step],-1)
-	if wrap:
-		wrap  = np.asarray(wrap,int)[...,None]
-		swrap = wrap.copy()
-		swrap[wrap==0] = 1
-		res[...,:2] -= res[...,0,None]//swrap*wrap
-	return res
+	return np.stack([start,end,step],-1)
 
 def sbox_mul(a,b):
 	"""Find c such that arr[c] = arr[a][b]"""
-- 
2.43.0


From 7ceac141ad51de99a409e034ce1bab5698b973e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:08 +0000
Subject: [PATCH 141/151] fix: utils.redistribute did not wrap the boxes it
 cuts out of its arrays

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index fed09e1..653fc78 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1544,7 +1544,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	for i1 in range(rboxes.shape[0]):
 		count = 0
 		for i2 in range(rboxes.shape[1]):
-			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2])
+			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2], wrap)
 			for box in rboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 		nrecv[nimap[i1]] += count*presize
@@ -1558,7 +1558,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	for i1 in range(sboxes.shape[0]):
 		count = 0
 		for i2 in range(sboxes.shape[1]):
-			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2])
+			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2], wrap)
 			for box in sboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 				sendbuf.append(iarrs[i2][sbox2slice(box)].reshape(-1))
-- 
2.43.0


From e77078abca59d72fb21f4f5a7ccfe662fb682678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:08 +0000
Subject: [PATCH 142/151] fix: utils.redistribute assumed that boxes have two
 dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 653fc78..50d6215 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1520,7 +1520,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	# mpi4py can't handle all ways of expressing the same dtype.
 	# this attempts to force the dtype into an equivalent form it can handle
 	dtype  = np.dtype(np.dtype(iarrs[0].dtype).char)
-	preshape = iarrs[0].shape[:-2]
+	preshape = iarrs[0].shape[:-ndim]
 	oshapes= [tuple(sbox_size(b)) for b in oboxes]
 	oarrs  = [np.zeros(preshape+oshape,dtype) for oshape in oshapes]
 	presize= np.prod(preshape,dtype=int)
-- 
2.43.0


From f099e030679dc1070a7a1673443fad05677075c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:08 +0000
Subject: [PATCH 143/151] fix: utils.redistribute mixed up pieces when both
 ends have several boxes

---
 pixell/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 50d6215..81cd960 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1554,15 +1554,15 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	nsend   = np.zeros(len(noarrs), int)
 	sendbuf = []
 	all_oboxes = allgatherv(oboxes, comm)
-	sboxes     = sbox_intersect(all_oboxes, iboxes, wrap=wrap)
-	for i1 in range(sboxes.shape[0]):
-		count = 0
-		for i2 in range(sboxes.shape[1]):
-			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2], wrap)
-			for box in sboxes[i1,i2]:
-				count += np.prod(sbox_size(box))
-				sendbuf.append(iarrs[i2][sbox2slice(box)].reshape(-1))
-		nsend[nomap[i1]] += count*presize
+	# Same order as on the receiving end: For each receiver loop over our boxes, then over theirs
+	sboxes     = sbox_intersect(iboxes, all_oboxes, wrap=wrap)
+	for rank in range(len(noarrs)):
+		for i1 in range(sboxes.shape[0]):
+			for i2 in range(sboxes.shape[1]):
+				if nomap[i2] != rank: continue
+				for box in safe_div(sboxes[i1,i2], iboxes[i1], wrap):
+					nsend[rank] += np.prod(sbox_size(box))*presize
+					sendbuf.append(iarrs[i1][sbox2slice(box)].reshape(-1))
 	sendbuf = np.concatenate(sendbuf) if len(sendbuf) > 0 else np.zeros(0,dtype)
 
 	# Perform the actual all-to-all send
-- 
2.43.0


From 01f3581c6a2de9cbe7ff6da51f11669626bca626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:08 +0000
Subject: [PATCH 144/151] fix: utils.redistribute raised an IndexError on tasks
 without input arrays

---
 pixell/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 81cd960..a02c90b 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1516,11 +1516,13 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	iarrs  = [np.asanyarray(iarr) for iarr in iarrs]
 	iboxes = sbox_fix(iboxes)
 	oboxes = sbox_fix(oboxes)
-	ndim   = iboxes[0].shape[-2]
+	ndim   = iboxes.shape[-2]
 	# mpi4py can't handle all ways of expressing the same dtype.
 	# this attempts to force the dtype into an equivalent form it can handle
-	dtype  = np.dtype(np.dtype(iarrs[0].dtype).char)
-	preshape = iarrs[0].shape[:-ndim]
+	# Tasks with no input arrays get the dtype and pre-dimensions from the others
+	infos  = comm.allgather((np.dtype(iarrs[0].dtype).char, iarrs[0].shape[:-ndim]) if len(iarrs) > 0 else None)
+	char, preshape = [info for info in infos if info is not None][0]
+	dtype  = np.dtype(char)
 	oshapes= [tuple(sbox_size(b)) for b in oboxes]
 	oarrs  = [np.zeros(preshape+oshape,dtype) for oshape in oshapes]
 	presize= np.prod(preshape,dtype=int)
-- 
2.43.0


From 952299df53781543d0532a0c120f0bf865686c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:57 +0000
Subject: [PATCH 145/151] fix: resample_fft mishandled maps that are a single
 pixel wide or high

---
 pixell/enmap.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 508032f..9d1f71f 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3205,10 +3205,13 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	def transfer(dest, source, norm, op):
 		if norm != 1: source = source*norm
 		dest[:] = op(dest, source)
-	transfer(fomap[...,:hny,       :hnx       ],fimap[...,:hny,       :hnx       ], norm, op)
-	transfer(fomap[...,:hny,       -(cnx-hnx):],fimap[...,:hny,       -(cnx-hnx):], norm, op)
-	transfer(fomap[...,-(cny-hny):,:hnx       ],fimap[...,-(cny-hny):,:hnx       ], norm, op)
-	transfer(fomap[...,-(cny-hny):,-(cnx-hnx):],fimap[...,-(cny-hny):,-(cnx-hnx):], norm, op)
+	# The negative frequencies can be none at all, so count them from the start of the axis
+	oy, ox = np.array(fomap.shape[-2:])-[cny-hny,cnx-hnx]
+	iy, ix = np.array(fimap.shape[-2:])-[cny-hny,cnx-hnx]
+	transfer(fomap[...,:hny,:hnx],fimap[...,:hny,:hnx], norm, op)
+	transfer(fomap[...,:hny,ox: ],fimap[...,:hny,ix: ], norm, op)
+	transfer(fomap[...,oy:, :hnx],fimap[...,iy:, :hnx], norm, op)
+	transfer(fomap[...,oy:, ox: ],fimap[...,iy:, ix: ], norm, op)
 	if np.any(off != 0):
 		# It's fastest to do this here when downsampling, but when upsampling
 		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
-- 
2.43.0


From 708dc1d5f113d024c6f205dd23fa175cecbce1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 146/151] fix: wavelet scales without any modes became NaN and
 spread to the whole reconstructed map

---
 pixell/wavelets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 0f42010..7c60ee6 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -412,6 +412,8 @@ class WaveletTransform:
 			F    = self.basis(i, ls)
 			W    = F**2*(2*ls+1)/(4*np.pi)
 		Wtot = np.sum(W)
+		# Scales that don't contain any of our modes have nothing to normalize
+		if Wtot == 0: return F, 1.0, self.basis.lmaxs[i]
 		norm = Wtot**0.5
 		lmid = np.sum(W*ls)/Wtot
 		return F, norm, lmid
-- 
2.43.0


From de4bb6dcb8cb60a0a85b6b61edcf273f85d7d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 147/151] fix: resample_fft moved the highest frequency of
 odd-length data to the wrong sign

---
 pixell/resample.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 21e5a36..d0cfbee 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -86,12 +86,12 @@ def resample_fft(d, n, axes=None):
 		dn   = nnew-nold
 		if dn > 0:
 			padvals = np.zeros(fd.shape[:ax]+(dn,)+fd.shape[ax+1:],fd.dtype)
-			spre  = tuple([slice(None)]*ax+[slice(0,nold//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nold//2,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,(nold+1)//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice((nold+1)//2,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],padvals,fd[spost]],axis=ax)
 		elif dn < 0:
-			spre  = tuple([slice(None)]*ax+[slice(0,nnew//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nnew//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,(nnew+1)//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice((nnew+1)//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],fd[spost]],axis=ax)
 		norm *= float(nnew)/nold
 	# And transform back
@@ -110,9 +110,9 @@ def resample_fft_simple(d, n, ngroup=100):
 	for di in range(0, d.shape[0], ngroup):
 		fd = fft.fft(d[di:di+ngroup])
 		if n < nold:
-			fd = np.concatenate([fd[:,:n//2],fd[:,n//2-dn:]],1)
+			fd = np.concatenate([fd[:,:(n+1)//2],fd[:,(n+1)//2-dn:]],1)
 		else:
-			fd = np.concatenate([fd[:,:nold//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,nold//2:]],-1)
+			fd = np.concatenate([fd[:,:(nold+1)//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,(nold+1)//2:]],-1)
 		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
 		del fd
 	res *= float(n)/nold
-- 
2.43.0


From 768d07e9a83db74c821053118ec83b5ff7dba281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 148/151] fix: resample_fft compared the requested lengths with
 the last axes instead of those being resampled

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index d0cfbee..f46689d 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -67,7 +67,7 @@ def resample_fft(d, n, axes=None):
 	else: assert len(n) == len(axes)
 	assert len(n) <= d.ndim
 	# Nothing to do?
-	if np.all(d.shape[-len(n):] == n): return d
+	if all(d.shape[ax] == nnew for ax, nnew in zip(axes, n)): return d
 	# Use the simple version if we can. It has lower memory overhead
 	if d.ndim == 2 and len(n) == 1 and (axes[0] == 1 or axes[0] == -1):
 		return resample_fft_simple(d, n[0])
-- 
2.43.0


From 4b9c16ab1f3bd615af7bb1f46f5c26a8f009ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 149/151] fix: resample_fft dropped the imaginary part of 2d
 complex arrays, and rounded integer ones

---
 pixell/resample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index f46689d..fb05704 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -105,7 +105,7 @@ def resample_fft_simple(d, n, ngroup=100):
 	last axis."""
 	nold = d.shape[1]
 	if n == nold: return d
-	res  = np.zeros([d.shape[0],n],dtype=d.dtype)
+	res  = np.zeros([d.shape[0],n],dtype=np.result_type(d.dtype,np.float32))
 	dn   = n-nold
 	for di in range(0, d.shape[0], ngroup):
 		fd = fft.fft(d[di:di+ngroup])
@@ -113,7 +113,8 @@ def resample_fft_simple(d, n, ngroup=100):
 			fd = np.concatenate([fd[:,:(n+1)//2],fd[:,(n+1)//2-dn:]],1)
 		else:
 			fd = np.concatenate([fd[:,:(nold+1)//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,(nold+1)//2:]],-1)
-		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
+		ores = fft.ifft(fd, normalize=True)
+		res[di:di+ngroup] = ores if np.iscomplexobj(res) else ores.real
 		del fd
 	res *= float(n)/nold
 	return res
-- 
2.43.0


From 6394665846391cf2988fa7736d239c6d3e896e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 150/151] fix: upsample_bin applied the steps to the axes in
 the opposite order of downsample_bin

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index fb05704..9aa8716 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -40,7 +40,7 @@ def downsample_bin(d, steps=[2], axes=None):
 def upsample_bin(d, steps=[2], axes=None):
 	shape = d.shape
 	assert len(steps) <= d.ndim
-	if axes is None: axes = np.arange(-1,-len(steps)-1,-1)
+	if axes is None: axes = range(-len(steps),0)
 	assert len(axes) == len(steps)
 	# Expand steps to cover every axis in order
 	fullsteps = np.zeros(d.ndim,dtype=int)+1
-- 
2.43.0


From 79182b37155ca833bdcd74b061ee5f0ea1d87143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:43 +0000
Subject: [PATCH 151/151] fix: Inverting a non-uniform transform of all-zero
 values gave NaN

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 88d5550..8da8825 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -555,7 +555,7 @@ def iu2nu(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=N
 		b = wzip(PT(h.nu[nuI].reshape(-1).astype(h.ctype, copy=False)))
 		def A(x): return wzip(PT(P(wunzip(x))))
 		solver = utils.CG(A, b)
-		while solver.err > h.epsilon:
+		while solver.rz > 0 and solver.err > h.epsilon:
 			solver.step()
 		res = wunzip(solver.x)
 		if not np.iscomplexobj(h.u):
@@ -585,7 +585,7 @@ def inu2u(fa, inds, out=None, axes=None, periodicity=None, epsilon=None, nthread
 		b = wzip(PT(h.u[uI].transpose(h.perm)))
 		def A(x): return wzip(PT(P(wunzip(x))))
 		solver = utils.CG(A, b)
-		while solver.err > h.epsilon:
+		while solver.rz > 0 and solver.err > h.epsilon:
 			solver.step()
 		res = wunzip(solver.x)
 		if not np.iscomplexobj(h.nu):
-- 
2.43.0

