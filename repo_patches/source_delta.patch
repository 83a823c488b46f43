From 0eaaf0c538f23bd86e5f194513b87a823f38b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 001/194] fix: expand out-of-bounds slices like numpy, so
 sliced maps keep the right wcs

---
 pixell/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a647e0a..41367ea 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2837,13 +2837,11 @@ def expand_slice(sel, n, nowrap=False):
 	Note, doing this twice may result in odd results, so don't send the result of this
 	into functions that expect an unexpanded slice. Might be replacable with slice.indices()."""
 	step = sel.step or 1
-	def cycle(i,n):
-		if nowrap: return i
-		else: return min(i,n) if i >= 0 else n+i
+	# slice.indices handles out-of-bounds start and stop the same way numpy does
+	if not nowrap: return slice(*slice(sel.start,sel.stop,step).indices(n))
 	def default(a, val): return a if a is not None else val
-	if step == 0: raise ValueError("slice step cannot be zero")
-	if step > 0: return slice(cycle(default(sel.start,0),n),cycle(default(sel.stop,n),n),step)
-	else: return slice(cycle(default(sel.start,n-1), n), cycle(sel.stop,n) if sel.stop is not None else -1, step)
+	if step > 0: return slice(default(sel.start,0), default(sel.stop,n), step)
+	else: return slice(default(sel.start,n-1), default(sel.stop,-1), step)
 
 def split_slice(sel, ndims):
 	"""Splits a numpy-compatible slice "sel" into sub-slices sub[:], such that
-- 
2.43.0


From c5dde23c1f9da72bd15f083ba7fb76f2fffc658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 002/194] fix: sky2pix no longer wraps the non-periodic
 latitude axis

---
 pixell/enmap.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c3767b7..ef6ac5a 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -513,12 +513,13 @@ def sky2pix(shape, wcs, coords, safe=True, corner=False, bcheck=False):
 		# of the map.
 		wrefpix = np.array(wshape)/2.
 		if corner: wrefpix += 0.5
-		for i in range(len(wpix)):
-			wn = np.abs(360./wcs.wcs.cdelt[i])
-			if safe == 1:
-				wpix[i] = utils.rewind(wpix[i], wrefpix[i], wn)
-			else:
-				wpix[i] = utils.unwind(wpix[i], period=wn, ref=wrefpix[i])
+		# Only the longitude axis is periodic. Wrapping the latitude axis too would
+		# alias points that are more than 180 intermediate degrees away in y into the map.
+		wn = np.abs(360./wcs.wcs.cdelt[0])
+		if safe == 1:
+			wpix[0] = utils.rewind(wpix[0], wrefpix[0], wn)
+		else:
+			wpix[0] = utils.unwind(wpix[0], period=wn, ref=wrefpix[0])
 	return wpix[::-1].reshape(coords.shape)
 
 def pix2l(shape, wcs, pix):
-- 
2.43.0


From 92615e1b604376d621329e9b9c4cc3cb59de5564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:29 +0000
Subject: [PATCH 003/194] fix: geometry2 boxes that cross the edge of the full
 sky are no longer truncated

---
 pixell/enmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index ef6ac5a..d47ab54 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2054,7 +2054,11 @@ def crop_geometry(shape, wcs, box=None, pixbox=None, oshape=None):
 		box    = np.asarray(box)
 		# Allow box and pixbox to be 1d, in which case we will
 		# crop around a central point
-		if box.ndim == 2: pixbox = subinds(shape, wcs, box)
+		if box.ndim == 2:
+			pixbox = subinds(shape, wcs, box)
+			# Cylindrical projections wrap horizontally, so boxes that cross the edge
+			# of the full sky are fine, and should not be truncated there
+			if wcsutils.is_cyl(wcs): pixbox[:,1] = subinds(shape, wcs, box, cap=False)[:,1]
 		else:             pixbox = utils.nint(sky2pix(shape, wcs, box))
 	# We assume that the box selects pixel edges, so any pixel that is
 	# even partially inside the box should be included. This means that
-- 
2.43.0


From 5a5dc51ca8efd16ede2784f02dfd5b2834c0d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:40 +0000
Subject: [PATCH 004/194] fix: geometry2 full-sky pixelizations put pixel
 centers where the variant says

---
 pixell/wcsutils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index c4325d4..8b36508 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -92,11 +92,10 @@ def pixelization(pwcs, shape=None, res=None, variant=None):
 	# can calculate cdelt and crpix
 	owcs  = pwcs.deepcopy()
 	owcs.wcs.cdelt = [(ra2-ra1)/(nx-1), (dec2-dec1)/(ny-1)]
-	# The bottom-left corner has pixel coordinates -ox1,-oy1
-	# The top-right   corner has pixel coordinates (nx-1)-ox2,(ny-1)-oy2
-	# The center is the average of these
-	owcs.wcs.crpix[0] = 1+((nx-1)-ox2-ox1)/2
-	owcs.wcs.crpix[1] = 1+((ny-1)-oy2-oy1)/2
+	# The first pixel has intermediate coordinates ra1,dec1, and the reference
+	# point has intermediate coordinates 0,0
+	owcs.wcs.crpix[0] = 1-ra1 /owcs.wcs.cdelt[0]
+	owcs.wcs.crpix[1] = 1-dec1/owcs.wcs.cdelt[1]
 	if lonpole is not None:
 		owcs.wcs.lonpole = lonpole
 	return (ny,nx), owcs
-- 
2.43.0


From 156f9c56a78843bb03aa2a6d9f889cd30abfaa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:51 +0000
Subject: [PATCH 005/194] fix: pixel sizes of non-cylindrical maps that cross
 the ra wraparound

---
 pixell/enmap.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index d47ab54..0db8791 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1080,7 +1080,8 @@ def pixshapemap(shape, wcs, bsize=1000, separable="auto", signed=False, bcheck=F
 				y, x = pix2sky(shape, wcs, pix, safe=True, corner=True, bcheck=bcheck)
 			del pix
 			dy = y[1:,1:]-y[:-1,:-1]
-			dx = x[1:,1:]-x[:-1,:-1]
+			# rows may be on different sides of the 2pi cut
+			dx = utils.rewind(x[1:,1:]-x[:-1,:-1])
 			if not signed: dy, dx = np.abs(dy), np.abs(dx)
 			cy = np.cos(y)
 			bad= cy<= 0
@@ -1173,15 +1174,16 @@ def pixsizemap_contour(shape, wcs, bsize=1000, bcheck=False):
 		poss[0] = np.clip(poss[0], -np.pi/2, np.pi/2)
 		dec, ra = poss
 		# Integrate (1-sin(dec))*dRA from [0,0] to [1,0], using the
-		# average msin value along this path
+		# average msin value along this path. The rewind is needed because rows
+		# may be on different sides of the 2pi cut
 		msin   = 1-np.sin(dec)
-		areas  = (ra[ 1:,:-1]-ra[:-1,:-1])*(msin[ 1:,:-1]+msin[:-1,:-1])/2
+		areas  = utils.rewind(ra[ 1:,:-1]-ra[:-1,:-1])*(msin[ 1:,:-1]+msin[:-1,:-1])/2
 		# [1,0] to [1,1]
-		areas += (ra[ 1:, 1:]-ra[ 1:,:-1])*(msin[ 1:, 1:]+msin[ 1:,:-1])/2
+		areas += utils.rewind(ra[ 1:, 1:]-ra[ 1:,:-1])*(msin[ 1:, 1:]+msin[ 1:,:-1])/2
 		# [1,1] to [0,1]
-		areas += (ra[:-1, 1:]-ra[ 1:, 1:])*(msin[:-1, 1:]+msin[ 1:, 1:])/2
+		areas += utils.rewind(ra[:-1, 1:]-ra[ 1:, 1:])*(msin[:-1, 1:]+msin[ 1:, 1:])/2
 		# [0,1] to [0,0]
-		areas += (ra[:-1,:-1]-ra[:-1, 1:])*(msin[:-1,:-1]+msin[:-1, 1:])/2
+		areas += utils.rewind(ra[:-1,:-1]-ra[:-1, 1:])*(msin[:-1,:-1]+msin[:-1, 1:])/2
 		psizes[y1:y2] = np.abs(areas)
 	return psizes
 
-- 
2.43.0


From 9b0e7e04aa580b795b31478a020ce9cad1f28e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:00 +0000
Subject: [PATCH 006/194] fix: ndmap.at passes on cval

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0db8791..a1b491b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -104,7 +104,7 @@ class ndmap(np.ndarray):
 	def extract_pixbox(self, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None, reverse=False): return extract_pixbox(self, pixbox, omap=omap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=reverse)
 	def insert(self, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert(self, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
 	def insert_at(self, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert_at(self, pix, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
-	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=0, unit=unit, safe=safe, ip=ip)
+	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=cval, unit=unit, safe=safe, ip=ip)
 	def argmax(self, unit="coord"): return argmax(self, unit=unit)
 	def autocrop(self, method="plain", value="auto", margin=0, factors=None, return_info=False): return autocrop(self, method, value, margin, factors, return_info)
 	def apod(self, width, profile="cos", fill="zero"): return apod(self, width, profile=profile, fill=fill)
-- 
2.43.0


From 32e83702238d10cc9fcdf24e8a3d42e1055d7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:00 +0000
Subject: [PATCH 007/194] fix: project honours the requested shape when only
 the wcs matches

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index a1b491b..75dc7d6 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -606,7 +606,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	  one go, ignoring bsize"""
 	# Skip expensive operation if map is compatible
 	if not force:
-		if wcsutils.equal(map.wcs, wcs) and tuple(shape[-2:]) == tuple(shape[-2:]):
+		if wcsutils.equal(map.wcs, wcs) and tuple(map.shape[-2:]) == tuple(shape[-2:]):
 			return map.copy()
 		elif wcsutils.is_compatible(map.wcs, wcs) and border == "constant":
 			return extract(map, shape, wcs, cval=cval)
-- 
2.43.0


From 9fb28a59c039fc9b20fca5df94406bc27be1bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:00 +0000
Subject: [PATCH 008/194] fix: nearest-neighbor project no longer blanks the
 rows at block edges

---
 pixell/enmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 75dc7d6..88f9b68 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -614,8 +614,9 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	# Save memory by looping over rows. This won't work for non-"prefiltered" interpolators
 	if ip and not ip.prefiltered: bsize=100000000
 	# Avoid unneccessary padding for local cases
-	if   ip or (mode == "spline" and order == 0): context = 0
-	elif        mode == "spline" and order == 1 : context = 1
+	# Order 0 rounds to the nearest pixel, so it too can need one extra row
+	if   ip: context = 0
+	elif mode == "spline" and order in [0,1]: context = 1
 	# It would have been nice to be able to use padtiles here, but
 	# the input and output tilings are very different
 	for i1 in range(0, shape[-2], bsize):
-- 
2.43.0


From ab76703c28b6929cea5863b64189cfbef1620feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:31 +0000
Subject: [PATCH 009/194] fix: reading through a delayed fits map no longer
 corrupts later reads

---
 pixell/enmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 88f9b68..29e6885 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3009,6 +3009,8 @@ class ndmap_proxy_fits(ndmap_proxy):
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-1,1])
 			res = self.hdu.section[sel1][(Ellipsis,)+sel2]
 		else: res = self.hdu.data[sel]
+		# The result can be a view into the hdu's own data, but will be modified below
+		res = np.array(res)
 		# Apply stokes flips if necessary. This is a bit complicated because we have to
 		# take into account that slicing might have already been done. The simplest way
 		# to do this is to make a sign array with the same shape as all the pre-dimensions
-- 
2.43.0


From fdaaffb81b7901ee850dd96f5ac460e180479cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:31 +0000
Subject: [PATCH 010/194] fix: read_hdf_geometry handles string header fields

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 29e6885..b98ada6 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2919,7 +2919,7 @@ def read_hdf_geometry(fname, address=None):
 		hwcs = hfile["wcs"]
 		header = astropy.io.fits.Header()
 		for key in hwcs:
-			header[key] = hwcs[key][()]
+			header[key] = fix_python3(hwcs[key][()])
 		wcs   = wcsutils.WCS(header).sub(2)
 		shape = hfile["data"].shape
 	return shape, wcs
-- 
2.43.0


From 76a8409577f064c1261c5538ce341361b839e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:31 +0000
Subject: [PATCH 011/194] fix: read_map no longer ignores mode when reading a
 box

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index b98ada6..6186483 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2948,7 +2948,7 @@ def read_helper(data, sel=None, box=None, pixbox=None, geometry=None, wrap="auto
 	"""Helper function for map reading. Handles the slicing, sky-wrapping and capping, etc."""
 	if delayed: return data # Slicing not supported yet when we want to return a proxy object
 	if geometry is not None: data = extract(data, *geometry, wrap=wrap)
-	if box      is not None: data = submap(data, box, wrap=wrap, recenter=recenter)
+	if box      is not None: data = submap(data, box, mode=mode, wrap=wrap, recenter=recenter)
 	if pixbox   is not None: data = extract_pixbox(data, pixbox, wrap=wrap, recenter=recenter)
 	if sel      is not None: data = data[sel]
 	data = data[:] # Get rid of the wrapper if it still remains
-- 
2.43.0


From d86ee35fc2402293b980a39b9705d93748c74309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:03 +0000
Subject: [PATCH 012/194] fix: ndmap.fillbad returns its result

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 6186483..1969e9b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -118,7 +118,7 @@ class ndmap(np.ndarray):
 	def center(self): return center(self.shape,self.wcs)
 	def downgrade(self, factor, op=np.mean, ref=None, off=None): return downgrade(self, factor, op=op, ref=ref, off=off)
 	def upgrade(self, factor,  off=None, oshape=None, inclusive=False): return upgrade(self, factor, off=off, oshape=oshape, inclusive=inclusive)
-	def fillbad(self, val=0, inplace=False): fillbad(self, val=val, inplace=inplace)
+	def fillbad(self, val=0, inplace=False): return fillbad(self, val=val, inplace=inplace)
 	def to_healpix(self, nside=0, order=3, omap=None, chunk=100000, destroy_input=False):
 		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk, destroy_input=destroy_input)
 	def to_flipper(self, omap=None, unpack=True): return to_flipper(self, omap=omap, unpack=unpack)
-- 
2.43.0


From 9b4f5f7043aca32099487c076ddf823e85466f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:03 +0000
Subject: [PATCH 013/194] fix: Geometry can be built from an object with a
 shape and wcs, as documented

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 1969e9b..3141137 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -301,7 +301,7 @@ class Geometry:
 	def __init__(self, shape, wcs=None):
 		try: self.shape, self.wcs = tuple(shape.shape), shape.wcs
 		except AttributeError: self.shape, self.wcs = tuple(shape), wcs
-		assert wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
+		assert self.wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
 	@property
 	def npix(self): return self.shape[-2]*self.shape[-1]
 	# Make it behave a bit like a tuple, so we can use it interchangably with a shape, wcs pair
-- 
2.43.0


From d39e2077445169eb28fc8d2362cd0ba2acdfd930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:03 +0000
Subject: [PATCH 014/194] fix: Geometry.downgrade no longer passes on an
 unsupported argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 3141137..b7f893a 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -325,7 +325,7 @@ class Geometry:
 		shape, wcs = scale_geometry(self.shape, self.wcs, scale)
 		return Geometry(shape, wcs)
 	def downgrade(self, factor, op=np.mean):
-		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor, op=op)
+		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor)
 		return Geometry(shape, wcs)
 	def copy(self):
 		return Geometry(tuple(self.shape), self.wcs.deepcopy())
-- 
2.43.0


From a0ac3a12bcf3d33709c778ab089885848c709f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:03 +0000
Subject: [PATCH 015/194] fix: insert no longer ignores wrap, cval and iwcs

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index b7f893a..23fa68b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -706,7 +706,7 @@ def extract_pixbox(map, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0,
 def insert(omap, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
 	"""Insert imap into omap based on their world coordinate systems, which
 	must be compatible. Essentially the reverse of extract."""
-	extract(omap, imap.shape, imap.wcs, imap, wrap="auto", op=op, cval=0, iwcs=None, reverse=True)
+	extract(omap, imap.shape, imap.wcs, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=True)
 	return omap
 
 def insert_at(omap, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
-- 
2.43.0


From 7ced39da3e2b361c9393917ccc0727161b0f6d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:03 +0000
Subject: [PATCH 016/194] fix: fourier-resampling of maps no longer garbles the
 highest frequency of odd-length axes

---
 pixell/enmap.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 23fa68b..b2bf366 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3170,15 +3170,17 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	# fourier center had been in the middle. This could be acieved using fftshift,
 	# but that would require two extra full-array shifts
 	cny, cnx = np.minimum(fimap.shape[-2:], oshape[-2:])
-	hny, hnx = cny//2, cnx//2
+	hny, hnx = (cny+1)//2, (cnx+1)//2 # number of non-negative frequencies. Nyquist counts as negative
+	iny, inx = np.array(fimap.shape[-2:])-([cny-hny,cnx-hnx])
+	ony, onx = np.array(oshape[-2:])-([cny-hny,cnx-hnx])
 	# This function is used to avoid paying the cost of multiplying by norm when it's one
 	def transfer(dest, source, norm, op):
 		if norm != 1: source = source*norm
 		dest[:] = op(dest, source)
 	transfer(fomap[...,:hny,       :hnx       ],fimap[...,:hny,       :hnx       ], norm, op)
-	transfer(fomap[...,:hny,       -(cnx-hnx):],fimap[...,:hny,       -(cnx-hnx):], norm, op)
-	transfer(fomap[...,-(cny-hny):,:hnx       ],fimap[...,-(cny-hny):,:hnx       ], norm, op)
-	transfer(fomap[...,-(cny-hny):,-(cnx-hnx):],fimap[...,-(cny-hny):,-(cnx-hnx):], norm, op)
+	transfer(fomap[...,:hny,       onx:       ],fimap[...,:hny,       inx:       ], norm, op)
+	transfer(fomap[...,ony:,       :hnx       ],fimap[...,iny:,       :hnx       ], norm, op)
+	transfer(fomap[...,ony:,       onx:       ],fimap[...,iny:,       inx:       ], norm, op)
 	if np.any(off != 0):
 		# It's fastest to do this here when downsampling, but when upsampling
 		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
-- 
2.43.0


From bbf2be1446cb541edb1c57ac366b8f7f65ae18bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:03 +0000
Subject: [PATCH 017/194] fix: fourier-resampling of arrays no longer garbles
 the highest frequency of odd-length axes

---
 pixell/resample.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 21e5a36..d0cfbee 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -86,12 +86,12 @@ def resample_fft(d, n, axes=None):
 		dn   = nnew-nold
 		if dn > 0:
 			padvals = np.zeros(fd.shape[:ax]+(dn,)+fd.shape[ax+1:],fd.dtype)
-			spre  = tuple([slice(None)]*ax+[slice(0,nold//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nold//2,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,(nold+1)//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice((nold+1)//2,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],padvals,fd[spost]],axis=ax)
 		elif dn < 0:
-			spre  = tuple([slice(None)]*ax+[slice(0,nnew//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nnew//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,(nnew+1)//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice((nnew+1)//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],fd[spost]],axis=ax)
 		norm *= float(nnew)/nold
 	# And transform back
@@ -110,9 +110,9 @@ def resample_fft_simple(d, n, ngroup=100):
 	for di in range(0, d.shape[0], ngroup):
 		fd = fft.fft(d[di:di+ngroup])
 		if n < nold:
-			fd = np.concatenate([fd[:,:n//2],fd[:,n//2-dn:]],1)
+			fd = np.concatenate([fd[:,:(n+1)//2],fd[:,(n+1)//2-dn:]],1)
 		else:
-			fd = np.concatenate([fd[:,:nold//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,nold//2:]],-1)
+			fd = np.concatenate([fd[:,:(nold+1)//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,(nold+1)//2:]],-1)
 		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
 		del fd
 	res *= float(n)/nold
-- 
2.43.0


From e9fd09b65ec71030d9a8326993739aa4becf9f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:03 +0000
Subject: [PATCH 018/194] fix: resample_fft checks the requested axes when
 deciding that there is nothing to do

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index d0cfbee..e451bb2 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -67,7 +67,7 @@ def resample_fft(d, n, axes=None):
 	else: assert len(n) == len(axes)
 	assert len(n) <= d.ndim
 	# Nothing to do?
-	if np.all(d.shape[-len(n):] == n): return d
+	if all([d.shape[ax] == nnew for ax, nnew in zip(axes, n)]): return d
 	# Use the simple version if we can. It has lower memory overhead
 	if d.ndim == 2 and len(n) == 1 and (axes[0] == 1 or axes[0] == -1):
 		return resample_fft_simple(d, n[0])
-- 
2.43.0


From 09f7f242c5e78e42959b5e507585289af5c39054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:03 +0000
Subject: [PATCH 019/194] fix: resample_fft no longer drops the imaginary part
 of 2d arrays

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index e451bb2..6eb5e56 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -69,7 +69,7 @@ def resample_fft(d, n, axes=None):
 	# Nothing to do?
 	if all([d.shape[ax] == nnew for ax, nnew in zip(axes, n)]): return d
 	# Use the simple version if we can. It has lower memory overhead
-	if d.ndim == 2 and len(n) == 1 and (axes[0] == 1 or axes[0] == -1):
+	if d.ndim == 2 and len(n) == 1 and (axes[0] == 1 or axes[0] == -1) and not np.iscomplexobj(d):
 		return resample_fft_simple(d, n[0])
 	# Perform the fourier transform
 	fd = fft.fft(d, axes=axes)
-- 
2.43.0


From 179d39149f5e1c5822687d449a42c84109a0d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:03 +0000
Subject: [PATCH 020/194] fix: upsample_bin assigns steps to axes in the same
 order as downsample_bin

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 6eb5e56..495201a 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -40,7 +40,7 @@ def downsample_bin(d, steps=[2], axes=None):
 def upsample_bin(d, steps=[2], axes=None):
 	shape = d.shape
 	assert len(steps) <= d.ndim
-	if axes is None: axes = np.arange(-1,-len(steps)-1,-1)
+	if axes is None: axes = range(-len(steps),0)
 	assert len(axes) == len(steps)
 	# Expand steps to cover every axis in order
 	fullsteps = np.zeros(d.ndim,dtype=int)+1
-- 
2.43.0


From 996f55e9de892bbdb1d3b0b7c37b555f41b181c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:45 +0000
Subject: [PATCH 021/194] fix: inclusive block_expand works with numpy integer
 offsets

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 41367ea..2771e84 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2225,7 +2225,7 @@ def block_expand(a, bsize, osize, axis=-1, off=0, op="nearest", inclusive=True):
 	axis  %= a.ndim
 	if op == "nearest":
 		if inclusive:
-			pre, mid, tail = np.split(a, [off>0,(off>0)+nwhole], axis)
+			pre, mid, tail = np.split(a, [int(off>0),int(off>0)+nwhole], axis)
 			parts = []
 			if pre.size > 0: parts.append(np.repeat(pre, off,   axis))
 			if mid.size > 0: parts.append(np.repeat(mid, bsize, axis))
-- 
2.43.0


From ae762781fd96fdf475ac12b453f7b1a3d3d60ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:57 +0000
Subject: [PATCH 022/194] fix: wcsutils.scale with corner=False keeps the
 center of the first pixel in place

---
 pixell/wcsutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index 8b36508..4c1bae3 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -194,12 +194,12 @@ def scale(wcs, scale=1, rowmajor=False, corner=True):
 	scale = np.zeros(2)+scale
 	if rowmajor: scale = scale[::-1]
 	wcs = wcs.deepcopy()
-	if corner:
-		wcs.wcs.crpix -= 0.5
+	# crpix counts from 1, so the center of the first pixel is at 1 and its start at 0.5
+	off = 0.5 if corner else 1
+	wcs.wcs.crpix -= off
 	wcs.wcs.crpix *= scale
 	wcs.wcs.cdelt /= scale
-	if corner:
-		wcs.wcs.crpix += 0.5
+	wcs.wcs.crpix += off
 	return wcs
 
 #def expand_res(res, default_dirs=[1,-1]):
-- 
2.43.0


From aed5b68c3afbc804490a52b2e0ed11dad0dde169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:48 +0000
Subject: [PATCH 023/194] fix: interpolation with border=wrap is periodic, as
 documented

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 2771e84..345e1da 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -604,7 +604,8 @@ class SplineInterpolator:
 		self.mode, self.order = _ip_get_mode(mode, order)
 		self.npre = npre % arr.ndim
 		self.cval = cval
-		self.border = border
+		# scipy's "wrap" makes the first and last sample overlap. Its "grid-wrap" is the periodic one
+		self.border = "grid-wrap" if border == "wrap" else border
 		if self.mode != "spline": raise ValueError("Unrecognized spline interpolation mode '%s'" % str(mode))
 		arr = np.asanyarray(arr)
 		if self.order > 1:
-- 
2.43.0


From 8395a05853eda9276b33509cbde5fece1bce5210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:48 +0000
Subject: [PATCH 024/194] fix: lens_map_flat passes its boundary condition in
 the right argument

---
 pixell/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 9145a85..b033723 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -72,7 +72,7 @@ def lens_map_flat(cmb_map, phi_map):
 	# mode="wrap", we must handle wrapping ourselves.
 	npad = int(np.ceil(max(np.max(-raw_pix),np.max(raw_pix-np.array(cmb_map.shape[-2:])[:,None,None]))))
 	pmap = enmap.pad(cmb_map, npad, wrap=True)
-	return enmap.samewcs(utils.interpol(pmap, raw_pix+npad, order=4, mode="wrap"), cmb_map)
+	return enmap.samewcs(utils.interpol(pmap, raw_pix+npad, order=4, border="wrap"), cmb_map)
 
 ######## Curved sky lensing ########
 
-- 
2.43.0


From fd1b2c41c857cbfe84a30676e40a0de5969c07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:48 +0000
Subject: [PATCH 025/194] fix: make_equispaced works with the current
 interpolation interface

---
 pixell/resample.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 495201a..c427e75 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -134,5 +134,8 @@ def make_equispaced(d, t, quantile=0.1, order=3, mask_nan=False):
 	# To interpolate, we need the input sample number as a function of time
 	samples = np.interp(tout, t, np.arange(len(t)))
 	# Now that we have the samples we can finally evaluate the function
-	dout = utils.interpol(d, samples[None], mode="nearest", order=order, mask_nan=mask_nan)
+	dout = utils.interpol(d, samples[None], border="nearest", order=order)
+	if mask_nan:
+		bad = utils.interpol((~np.isfinite(d)).astype(int), samples[None], mode="nn", border="nearest")
+		dout[bad!=0] = np.nan
 	return dout, tout
-- 
2.43.0


From 6662d7c6c071aa486e98eca330704becb09e07dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:35 +0000
Subject: [PATCH 026/194] fix: chebyshev transforms of multidimensional arrays
 scale the transformed axis

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index f486b48..204a184 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -309,13 +309,13 @@ def redft00(a, b=None, nthread=0, normalize=False, flags=None, engine="auto"):
 def chebt(a, b=None, nthread=0, flags=None, engine="auto"):
 	"""The chebyshev transform of a, along its last dimension."""
 	b = redft00(a, b, nthread, normalize=True, flags=flags, engine=engine)
-	b[1:-1] *= 2
+	b[...,1:-1] *= 2
 	return b
 
 def ichebt(a, b=None, nthread=0, engine="auto"):
 	"""The inverse chebyshev transform of a, along its last dimension."""
 	a = asfcarray(a).copy()
-	a[1:-1] *= 0.5
+	a[...,1:-1] *= 0.5
 	return redft00(a, b, nthread, engine=engine)
 
 def fft_len(n, direction="below", factors=None):
-- 
2.43.0


From bbe3c4b21c1dc05eab2b51844299964d68c475f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:35 +0000
Subject: [PATCH 027/194] fix: fft.resample no longer garbles the highest
 frequency of odd-length axes

---
 pixell/fft.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 204a184..013ddc1 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -416,13 +416,17 @@ def resample_fft(fa, n, out=None, axes=-1, norm=1, op=lambda a,b:b):
 		dest[:] = op(dest, source)
 	# Loop over start and end blocks for all dimensions
 	for bi, I in enumerate(utils.nditer([2]*len(axes))):
-		sel = [slice(None) for n in oshape]
+		isel = [slice(None) for n in oshape]
+		osel = list(isel)
 		for ai, ax in enumerate(axes):
 			c = min(fa.shape[ax], oshape[ax])
-			if I[ai] == 0: sel[ax] = slice(0,c//2)
-			else:          sel[ax] = slice(-(c-c//2),None)
-		sel = tuple(sel)
-		transfer(out[sel], fa[sel], norm, op)
+			# Nyquist counts as a negative frequency
+			h = (c+1)//2
+			if I[ai] == 0: isel[ax] = osel[ax] = slice(0,h)
+			else:
+				isel[ax] = slice(fa.shape[ax]-(c-h),None)
+				osel[ax] = slice(oshape[ax]-(c-h),None)
+		transfer(out[tuple(osel)], fa[tuple(isel)], norm, op)
 	return out
 
 def interpol_nufft(a, inds, out=None, axes=None, normalize=True,
-- 
2.43.0


From 034b3b39013f731d2093f03721b3c51cbf234ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:35 +0000
Subject: [PATCH 028/194] fix: irfft works for axes of length 2

---
 pixell/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 013ddc1..4e20010 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -53,7 +53,7 @@ class ducc_FFTW:
 				# Real to complex
 				ducc0.fft.r2c(self.a, axes=self.axes, out=self.b, nthreads=self.threads)
 		elif self.direction == "FFTW_BACKWARD":
-			if self.a.shape == self.b.shape:
+			if self.a.shape == self.b.shape and np.iscomplexobj(self.b):
 				# Complex to complex
 				ducc0.fft.c2c(a=self.a, axes=self.axes, out=self.b, forward=False, inorm=2 if normalise_idft else 0, nthreads=self.threads)
 			else:
-- 
2.43.0


From 3424a9608709c6f1c592a192a29933d40c487b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:28 +0000
Subject: [PATCH 029/194] fix: nearest_product returns the highest product
 below n, as documented

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 345e1da..a0a60ab 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -787,7 +787,7 @@ def nearest_product(n, factors, direction="below"):
 			m = i*f
 			if below:
 				if m > n: continue
-				else: best = m
+				elif best is None or m > best: best = m
 			else:
 				if m >= n and (best is None or best > m):
 					best = m
-- 
2.43.0


From 68f543514ae9f6cc98bb76d180f385a35203e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:08 +0000
Subject: [PATCH 030/194] fix: normalized enmap dct followed by idct gives back
 the map

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index b2bf366..556f5f7 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1274,7 +1274,7 @@ def fft(emap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=Fals
 	else:   res  = samewcs(enfft.fft(emap,omap,axes=[-2,-1],nthread=nthread), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_ifft: norm /= emap.pixsize()**0.5
@@ -1287,7 +1287,7 @@ def ifft(emap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=Fals
 	else:   res  = samewcs(enfft.ifft(emap,omap,axes=[-2,-1],nthread=nthread, normalize=False), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_fft: norm *= emap.pixsize()**0.5
-- 
2.43.0


From 87b12536aada0da932d61105263527946986d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:08 +0000
Subject: [PATCH 031/194] fix: pad with wrap=True handles sides with no padding

---
 pixell/enmap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 556f5f7..d2eedf3 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2266,10 +2266,11 @@ def pad(emap, pix, return_slice=False, wrap=False, value=0):
 	mslice = (Ellipsis,slice(pix[0,0],res.shape[-2]-pix[1,0]),slice(pix[0,1],res.shape[-1]-pix[1,1]))
 	res[mslice] = emap
 	if wrap:
-		res[...,:pix[0,0],:]  = res[...,-pix[0,0]-pix[1,0]:-pix[1,0],:]
-		res[...,-pix[1,0]:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
-		res[...,:,:pix[0,1]]  = res[...,:,-pix[0,1]-pix[1,1]:-pix[1,1]]
-		res[...,:,-pix[1,1]:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
+		(y1,x1), (y2,x2) = pix[0], res.shape[-2:]-pix[1]
+		res[...,:y1,:] = res[...,y2-y1:y2,:]
+		res[...,y2:,:] = res[...,y1:y1+pix[1,0],:]
+		res[...,:,:x1] = res[...,:,x2-x1:x2]
+		res[...,:,x2:] = res[...,:,x1:x1+pix[1,1]]
 	return (res,mslice) if return_slice else res
 
 def find_blank_edges(m, value="auto"):
-- 
2.43.0


From 7babe5cccd0600b49857ecaedb6760e88030bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:08 +0000
Subject: [PATCH 032/194] fix: smooth_spectrum uses the weight it is given

---
 pixell/enmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index d2eedf3..27d557c 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1910,6 +1910,7 @@ def smooth_spectrum(ps, kernel="gauss", weight="mode", width=1.0):
 	else:
 		tmp = np.atleast_2d(weight)
 		assert tmp.shape[-1] == W.shape[-1], "Spectrum weight must have the same length as spectrum"
+		W[:] = tmp
 	pWK = _convolute_sym(pflat*W, K)
 	WK  = _convolute_sym(W, K)
 	res = pWK/WK
-- 
2.43.0


From ba7bca8fb785d0b265518a093d6084e73ddcd7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:29 +0000
Subject: [PATCH 033/194] fix: strided boxes that wrap or stick out of the
 array select the right samples

---
 pixell/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a0a60ab..95e7a69 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1729,7 +1729,7 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 	# This function was surprisingly complicated. If I had known it would be
 	# this long I would have built it from the sbox-stuff above. But at least
 	# this one should have lower overhead than that would have had.
-	sbox = sbox_fix(sbox)
+	sbox = sbox_fix(np.array(sbox))
 	ndim = sbox.shape[0]
 	wrap = np.zeros(ndim,int)+wrap
 	cap  = np.zeros(ndim,int)+cap
@@ -1748,7 +1748,7 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			boxes_1d = []
 			i = 0
 			while ibox[1] > 0:
-				npre = max((-ibox[0])//ibox[2],0)
+				npre = max(-(ibox[0]//ibox[2]),0)
 				# ibox slice assuming all of the logical ibox is available
 				isub = sbox_fix([ibox[0]+npre*ibox[2],min(ibox[1],w),ibox[2]])
 				nsub = sbox_size(isub)
@@ -1769,8 +1769,8 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			# upwards and downwards capping. Find the number of samples to
 			# crop on each side
 			if c:
-				npre  = max((-ibox[0])//ibox[2],0)
-				npost = max((ibox[1]-ibox[2]-(c-1))//ibox[2],0)
+				npre  = max(-(ibox[0]//ibox[2]),0)
+				npost = max(-((c-1-ibox[1]+ibox[2])//ibox[2]),0)
 			else: npre, npost = 0, 0
 			# Don't produce a slice if it would be empty
 			if npre + npost < ilen:
-- 
2.43.0


From 985360ef3673ca195dd9f794ff281a33becfb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:04 +0000
Subject: [PATCH 034/194] fix: alm2map with the general method and alm2map_pos
 honour the alm layout

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 004ab7d..8cad202 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -972,7 +972,7 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	if epsilon is None:
 		if map.dtype == np.float64: epsilon = 1e-10
 		else:                       epsilon = 1e-6
-	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "nthreads":nthread, "epsilon":epsilon}
+	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "nthreads":nthread, "epsilon":epsilon, "mstart":ainfo.mstart}
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-- 
2.43.0


From 990ebae6e24b5f70ad4f4bd69a80e5e8c155e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:04 +0000
Subject: [PATCH 035/194] fix: general harmonic transforms of 2d maps with
 undefined pixels

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 8cad202..dcdff87 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -775,7 +775,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
@@ -854,7 +854,7 @@ def map2alm_general(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2]
 	if weights is None: weights = map.pixsizemap()[locinfo.mask].astype(map.dtype, copy=False)
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
-- 
2.43.0


From 7ee19d7991f5208e237acfd14c60bbec068305a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:04 +0000
Subject: [PATCH 036/194] fix: calc_locinfo no longer skips the last row of
 some maps

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index dcdff87..e097628 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1332,7 +1332,7 @@ def calc_locinfo(shape, wcs, bsize=1000):
 	loc  = np.zeros((shape[-2]*shape[-1],2))
 	mask = np.zeros(shape[-2:],bool)
 	off  = 0
-	for b1 in range(0, shape[-2]-1, bsize):
+	for b1 in range(0, shape[-2], bsize):
 		b2      = min(b1+bsize, shape[-2])
 		subgeo  = enmap.Geometry(shape, wcs)[b1:b2]
 		subpos  = enmap.posmap(*subgeo, safe=False)
-- 
2.43.0


From 70341d321bcee99cbbb5c31f379de077954e6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:04 +0000
Subject: [PATCH 037/194] fix: healpix transforms limited in theta look up the
 right pixels

---
 pixell/curvedsky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index e097628..bc90794 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -582,7 +582,8 @@ def apply_minfo_theta_lim(minfo, theta_min=None, theta_max=None):
 	if theta_min is not None: mask &= minfo.theta >= theta_min
 	if theta_max is not None: mask &= minfo.theta <= theta_max
 	res = minfo.copy()
-	for key in ["theta", "nphi", "phi0"]: res[key] = res[key][mask]
+	for key in ["theta", "nphi", "phi0", "offsets", "stride"]: res[key] = res[key][mask]
+	res.nrow = np.sum(mask)
 	return res
 
 def fill_gauss(arr, bsize=0x10000):
-- 
2.43.0


From 05989520cb5def767282af8c43ee967189b1f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:04 +0000
Subject: [PATCH 038/194] fix: healpix derivative synthesis

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index bc90794..e38c705 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -315,7 +315,7 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	healmap[...,ncomp,npix]."""
 	dtype      = utils.native_dtype(utils.real_dtype(alm.dtype))
 	alm, ainfo = prepare_alm(alm, ainfo, dtype=dtype)
-	healmap    = prepare_healmap(healmap, nside, alm.shape[:-1], dtype)
+	healmap    = prepare_healmap(healmap, nside, alm.shape[:-1]+((2,) if deriv else ()), dtype)
 	alm_full   = utils.atleast_Nd(alm, 2 if deriv else 3)
 	map_full   = utils.atleast_Nd(healmap, 3)
 	alm_full   = utils.fix_zero_strides(alm_full)
@@ -337,7 +337,7 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	# Loop over pre-dimensions
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=alm_full[I], map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
 			map_full[I+(0,)] *= -1
 		else:
-- 
2.43.0


From fa19b83249388df99bb8d783b911cb703bb5fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:25 +0000
Subject: [PATCH 039/194] fix: the 2d method recognizes Driscoll-Healy
 geometries

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index e38c705..2ee0681 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1305,7 +1305,7 @@ def get_ducc_geo(wcs, shape=None, tol=1e-6):
 	# makes it easier to read
 	if   hasoff(y1,0.0) and hasoff(y2,0.0):
 		if   near(y1,-1) and near(y2,Ny): name, o1, o2 = "F2", 1, 1
-		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 1, 0
+		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 0, 1
 		else: name, o1, o2 = "CC", 0, 0
 	elif hasoff(y1,0.5) and hasoff(y2,0.5): name, o1, o2 = "F1", 0.5, 0.5
 	elif hasoff(y1,0.5) and hasoff(y2,0.0): name, o1, o2 = "MW", 0.5, 0.0
-- 
2.43.0


From 3da41b05f20f9a04622fbcdbb0fbdff3d4de9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:56 +0000
Subject: [PATCH 040/194] fix: map2alm with the general method no longer
 ignores niter

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 2ee0681..cf1b76a 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -297,7 +297,7 @@ def map2alm(map, alm=None, lmax=None, spin=[0,2], deriv=False, adjoint=False,
 		if verbose: print("method: pos")
 		return map2alm_general(map, alm, ainfo=ainfo, lmax=lmax, spin=spin, deriv=deriv, copy=copy,
 			verbose=verbose, adjoint=adjoint, nthread=nthread, epsilon=epsilon,
-			locinfo=locinfo, weights=weights)
+			locinfo=locinfo, weights=weights, niter=niter)
 	else:
 		raise ValueError("Unrecognized alm2map method '%s'" % str(method))
 
-- 
2.43.0


From 797ba7af49a72dbdccd92646316cdde87705e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:56 +0000
Subject: [PATCH 041/194] fix: quadrature weights are only flipped when the map
 is

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index cf1b76a..088f7c5 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -486,7 +486,7 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 	weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
-	if minfo.flip: weights = weights[::-1]
+	if minfo.flip[0]: weights = weights[::-1]
 	weights/= minfo.ducc_geo.nx
 	return weights
 
@@ -829,7 +829,7 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 			weights/= minfo.ducc_geo.nx
 		else:
 			weights = map.pixsizemap(separable=True, broadcastable=True)[:,0]
-			if minfo.flip: weights = weights[::-1]
+			if minfo.flip[0]: weights = weights[::-1]
 		weights = weights.astype(map.dtype, copy=False)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
-- 
2.43.0


From 4a34180f20285acd0326c22dc4ad8677accaa502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:57 +0000
Subject: [PATCH 042/194] fix: map2alm falls back on the pixel area when ducc
 lacks weights for the geometry

---
 pixell/curvedsky.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 088f7c5..17b82d0 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -481,7 +481,7 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	weights[ny] where ny is shape[-2]. For cases where quadrature weights aren't available,
 	it's a pretty good approximation to just use the pixel area."""
 	minfo = analyse_geometry(shape, wcs, tol=pix_tol)
-	if minfo.ducc_geo.name is None:
+	if not has_gridweights(minfo.ducc_geo):
 		raise ValueError("Quadrature weights not available for geometry %s,%s" % (str(shape),str(wcs)))
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
@@ -822,7 +822,7 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Get our weights, approximate or not
 	if weights is None:
-		if minfo.ducc_geo is not None and minfo.ducc_geo.name is not None:
+		if has_gridweights(minfo.ducc_geo):
 			ny      = map.shape[-2]+np.sum(minfo.ypad)
 			weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 			weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
@@ -1318,6 +1318,11 @@ def get_ducc_geo(wcs, shape=None, tol=1e-6):
 	lmax = get_ducc_maxlmax(name, ny)
 	return bunch.Bunch(name=name, nx=utils.nint(nx), ny=ny, pole_offs=[o1,o2], phi0=phi0, yoff=yoff, lmax=lmax)
 
+def has_gridweights(ducc_geo):
+	"""Return whether ducc provides quadrature weights for the given ducc geometry,
+	as returned from get_ducc_geo"""
+	return ducc_geo is not None and ducc_geo.name in ["CC", "F1", "DH", "F2"]
+
 def get_ducc_maxlmax(name, ny):
 	if   name == "CC": return ny-2
 	elif name == "DH": return (ny-2)//2
-- 
2.43.0


From f283af527bdead28ab4576cb5ad62965bbb30254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:57 +0000
Subject: [PATCH 043/194] fix: healpix transforms honour copy

---
 pixell/curvedsky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 17b82d0..852dc50 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -313,6 +313,7 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 		copy=False, ainfo=None, nside=None, theta_min=None, theta_max=None, nthread=None):
 	"""Projects the given alm[...,ncomp,nalm] onto the given healpix map
 	healmap[...,ncomp,npix]."""
+	if adjoint and copy: alm = alm.copy()
 	dtype      = utils.native_dtype(utils.real_dtype(alm.dtype))
 	alm, ainfo = prepare_alm(alm, ainfo, dtype=dtype)
 	healmap    = prepare_healmap(healmap, nside, alm.shape[:-1]+((2,) if deriv else ()), dtype)
@@ -350,7 +351,7 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weights=None, deriv=False, copy=False, verbose=False, adjoint=False, niter=0, theta_min=None, theta_max=None, nthread=None):
 	"""map2alm for healpix maps. Similar to healpy's map2alm. See the map2alm docstring for details."""
 	if adjoint:
-		if copy and map is not None: map = map.copy()
+		if copy and healmap is not None: healmap = healmap.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
 	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=healmap.shape[:-1], dtype=utils.native_dtype(healmap.dtype))
-- 
2.43.0


From 10cc084c41b54f71fa3f4d39e45e827c91ad0001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:55 +0000
Subject: [PATCH 044/194] fix: derivative transforms: shapes and signs of
 map2alm and of the adjoints

---
 pixell/curvedsky.py | 60 ++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 852dc50..a4085e0 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -338,9 +338,10 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	# Loop over pre-dimensions
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			tmap = deriv_flip(map_full[I])
+			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=tmap, mode="DERIV1", spin=1, **kwargs)
+			if not adjoint: map_full[I] = deriv_flip(tmap)
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full[I].shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -354,7 +355,7 @@ def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weight
 		if copy and healmap is not None: healmap = healmap.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
-	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=healmap.shape[:-1], dtype=utils.native_dtype(healmap.dtype))
+	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=healmap.shape[:-2 if deriv else -1], dtype=utils.native_dtype(healmap.dtype))
 	alm_full   = utils.atleast_Nd(alm, 2 if deriv else 3)
 	map_full   = utils.atleast_Nd(healmap, 3)
 	alm_full   = utils.fix_zero_strides(alm_full)
@@ -376,10 +377,8 @@ def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weight
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(wmul(map,weights))
 			def WY(alm):  return wmul(Y(alm),weights)
-			decflip = np.array([-1,1])[:,None,None]
-			if adjoint: map_full[I] = jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter)*decflip
-			# does this need an [0] at the end like the other versions have?
-			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)
+			if adjoint: map_full[I] = deriv_flip(jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter))
+			else:       alm_full[I] = jacobi_inverse(Y, YTW, deriv_flip(map_full[I]), niter=niter)[0]
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -731,7 +730,7 @@ def alm2map_2d(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, copy=F
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3 if deriv else -2], dtype=utils.native_dtype(map.dtype))
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -751,7 +750,7 @@ def alm2map_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, copy=
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3 if deriv else -2], dtype=utils.native_dtype(map.dtype))
 	if minfo is None: minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -771,7 +770,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3 if deriv else -2], dtype=utils.native_dtype(map.dtype))
 	if locinfo is None: locinfo = calc_locinfo(map.shape, map.wcs)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -798,7 +797,7 @@ def map2alm_2d(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], der
 		if copy and map is not None: map = map.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
-	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-3 if deriv else -2], dtype=utils.native_dtype(map.dtype))
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -819,7 +818,7 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 		if copy and map is not None: map = map.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
-	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-3 if deriv else -2], dtype=utils.native_dtype(map.dtype))
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Get our weights, approximate or not
 	if weights is None:
@@ -851,7 +850,7 @@ def map2alm_general(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2]
 		if copy and map is not None: map = map.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
-	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=map.shape[:-3 if deriv else -2], dtype=utils.native_dtype(map.dtype))
 	if locinfo is None: locinfo = calc_locinfo(map.shape, map.wcs)
 	if weights is None: weights = map.pixsizemap()[locinfo.mask].astype(map.dtype, copy=False)
 	for I in utils.nditer(map.shape[:-3]):
@@ -888,9 +887,10 @@ def alm2map_raw_2d(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, ve
 	# pre-dimentions are map.shape[:-3]
 	for I in utils.nditer(map_full.shape[:-3]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			tmap = deriv_flip(map_full[I])
+			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=tmap, mode="DERIV1", spin=1, **kwargs)
+			if not adjoint: map_full[I] = deriv_flip(tmap)
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -924,9 +924,10 @@ def alm2map_raw_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, c
 	# dimensions, so this outermost loop usually does nothing
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			tmap = deriv_flip(map_full[I])
+			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=tmap, mode="DERIV1", spin=1, **kwargs)
+			if not adjoint: map_full[I] = deriv_flip(tmap)
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -978,9 +979,10 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			tmap = deriv_flip(map_full[I])
+			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=tmap, mode="DERIV1", spin=1, **kwargs)
+			if not adjoint: map_full[I] = deriv_flip(tmap)
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -1011,8 +1013,7 @@ def map2alm_raw_2d(map, alm=None, ainfo=None, lmax=None, spin=[0,2], deriv=False
 	for I in utils.nditer(map_full.shape[:-3]):
 		if deriv:
 			# Flip sign of theta derivative to get dec derivative
-			decflip = np.array([-1,1])[:,None,None]
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
+			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=deriv_flip(map_full[I]), mode="DERIV1", spin=1, **kwargs)
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -1042,10 +1043,9 @@ def map2alm_raw_cyl(map, alm=None, ainfo=None, lmax=None, spin=[0,2], weights=No
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(wmul(map,weights))
 			def WY(alm):  return wmul(Y(alm),weights)
-			decflip = np.array([-1,1])[:,None,None]
 			# The with deriv, alm has a shape of [1,nalm]. The [0] reduces this to [nalm]
-			if adjoint: map_full[I] = jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter)*decflip
-			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)[0]
+			if adjoint: map_full[I] = deriv_flip(jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter))
+			else:       alm_full[I] = jacobi_inverse(Y, YTW, deriv_flip(map_full[I]), niter=niter)[0]
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -1078,9 +1078,8 @@ def map2alm_raw_general(map, loc, alm=None, ainfo=None, lmax=None, spin=[0,2], w
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis_general(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(map*weights)
 			def WY(alm):  return wmul(Y(alm),weights)
-			decflip = np.array([-1,1])[:,None,None]
-			if adjoint: map_full[I] = jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter)*decflip
-			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)[0]
+			if adjoint: map_full[I] = deriv_flip(jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter))
+			else:       alm_full[I] = jacobi_inverse(Y, YTW, deriv_flip(map_full[I]), niter=niter)[0]
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -1403,7 +1402,7 @@ def prepare_alm(alm=None, ainfo=None, lmax=None, pre=(), dtype=np.float64):
 	return alm, ainfo
 
 def prepare_raw(alm, map, ainfo=None, lmax=None, deriv=False, verbose=False, nthread=None, pixdims=2):
-	alm, ainfo = prepare_alm(alm, ainfo, lmax=lmax, pre=map.shape[:-pixdims], dtype=utils.native_dtype(map.dtype))
+	alm, ainfo = prepare_alm(alm, ainfo, lmax=lmax, pre=map.shape[:-pixdims-1 if deriv else -pixdims], dtype=utils.native_dtype(map.dtype))
 	# Maybe this should be a part of map_info too
 	nthread  = int(utils.fallback(utils.getenv("OMP_NUM_THREADS", nthread),0))
 	# Massage to the shape the general ducc interface wants.
@@ -1421,5 +1420,10 @@ def prepare_raw(alm, map, ainfo=None, lmax=None, deriv=False, verbose=False, nth
 	map_full = utils.fix_zero_strides(map_full)
 	return alm_full, map_full, ainfo, nthread
 
+def deriv_flip(map):
+	"""Return a copy of map[2,...] with the sign of the first component flipped. This
+	translates between the dec derivative we use and ducc's theta derivative"""
+	return np.concatenate([-map[:1],map[1:]])
+
 def dangerous_dtype(dtype):
 	return dtype.byteorder != "="
-- 
2.43.0


From 21c10b7d30a163a32d966c79fbc38dcd43c7405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:08 +0000
Subject: [PATCH 045/194] fix: single precision lmul with a long matrix no
 longer writes outside the alm

---
 cython/cmisc_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc_core.c b/cython/cmisc_core.c
index ded2d9a..cb751b0 100644
--- a/cython/cmisc_core.c
+++ b/cython/cmisc_core.c
@@ -208,7 +208,7 @@ void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm
 		float * vimag = calloc(N, sizeof(float));
 		#pragma omp for
 		for(int m = 0; m <= mmax; m++) {
-			for(int l = m; l <= lfmax; l++) {
+			for(int l = m; l <= leff; l++) {
 				int64_t i = mstart[m]+l;
 				// Zero out the work arrays
 				for(int r = 0; r < N; r++) { vreal[r] = vimag[r] = 0; }
-- 
2.43.0


From ee904b26f911d9bb1bea88bdb69cd8aefd4043b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:08 +0000
Subject: [PATCH 046/194] fix: lmul rejects an out argument of the wrong dtype
 instead of writing outside it

---
 cython/cmisc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc.pyx b/cython/cmisc.pyx
index 6b5ea81..9ada4fe 100644
--- a/cython/cmisc.pyx
+++ b/cython/cmisc.pyx
@@ -157,7 +157,7 @@ def lmul(ainfo, alm, lfun, out=None):
 	# The arrays need to be contiguous along the last dimension
 	alm  = aslastcontig(alm,  dtype=ctype)
 	lfun = aslastcontig(lfun, dtype=rtype)
-	if out is not None and not islastcontig(out) and out.dtype != ctype:
+	if out is not None and (not islastcontig(out) or out.dtype != ctype):
 		raise ValueError("lmul's out argument must be contiguous along last axis, and have the same dtype as alm")
 	# Are we doing a matmul?
 	if lfun.ndim == 3 and alm.ndim == 2:
-- 
2.43.0


From d0eb61e7940f7d48e139d00276cd3602c7973bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:36 +0000
Subject: [PATCH 047/194] fix: distances in pixels that contain points or are
 next to points outside the map

---
 cython/distances_core.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/cython/distances_core.c b/cython/distances_core.c
index 276a5fc..0b676b7 100644
--- a/cython/distances_core.c
+++ b/cython/distances_core.c
@@ -206,9 +206,11 @@ void distance_from_points_bubble(int ny, int nx, double * posmap, inum npoint, d
 		int y = point_y[i], x = point_x[i];
 		inum pix = (inum)y*nx+x;
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], pix_ra[pix], cos(pix_dec[pix]), sin(pix_dec[pix]));
+		// Several points can share a pixel, so only keep the closest
+		if(dist >= dists[(inum)y*nx+x]) continue;
 		pointvec_push(curr, y, x);
-		dists[y*nx+x]   = dist;
-		domains[y*nx+x] = i;
+		dists[(inum)y*nx+x]   = dist;
+		domains[(inum)y*nx+x] = i;
 	}
 
 	inum it = 0;
@@ -290,9 +292,11 @@ void distance_from_points_bubble_separable(int ny, int nx, double * ypos, double
 	for(inum i = 0; i < npoint; i++) {
 		int y = point_y[i], x = point_x[i];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], xpos[x], pix_cos_dec[y], pix_sin_dec[y]);
+		// Several points can share a pixel, so only keep the closest
+		if(dist >= dists[(inum)y*nx+x]) continue;
 		pointvec_push(curr, y, x);
-		dists[y*nx+x]   = dist;
-		domains[y*nx+x] = i;
+		dists[(inum)y*nx+x]   = dist;
+		domains[(inum)y*nx+x] = i;
 	}
 
 	inum it = 0;
@@ -681,9 +685,14 @@ void distance_from_points_cellgrid(int ny, int nx, double * ypos, double * xpos,
 		int y1 = by*bsize_y, yrel = point_y[i]-y1;
 		int x1 = bx*bsize_x, xrel = point_x[i]-x1;
 		int pixrel = yrel*grid.cells[ci].nx+xrel;
+		// The point does not need to be at the pixel center, and several points can share a pixel
+		inum ypix = separable ? point_y[i] : (inum)point_y[i]*nx+point_x[i];
+		inum xpix = separable ? point_x[i] : (inum)point_y[i]*nx+point_x[i];
+		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], xpos[xpix], cos(ypos[ypix]), sin(ypos[ypix]));
+		if(dist >= grid.cells[ci].dists[pixrel]) continue;
 		pointvec_push(grid.cells[ci].current, yrel, xrel);
 		grid.cells[ci].domains[pixrel] = i;
-		grid.cells[ci].dists[pixrel] = 0;
+		grid.cells[ci].dists[pixrel] = dist;
 	}
 	// Initialize them
 	#pragma omp parallel for
@@ -1032,6 +1041,7 @@ void distance_from_points_bubble_healpix(healpix_info * geo, inum npoint, double
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
+		if(dist >= dists[pix]) continue;
 		pointvec_push(curr, y, x);
 		dists[pix]   = dist;
 		domains[pix] = i;
@@ -1167,6 +1177,7 @@ void distance_from_points_heap_healpix(healpix_info * geo, inum npoint, double *
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
+		if(dist >= dists[pix]) continue;
 		HeapEntry entry = { dist, y, x };
 		pointheap_push(heap, entry);
 		dists[pix]   = dist;
-- 
2.43.0


From 402ab970c5bfeaefe048ded1079050dd0ae13af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:36 +0000
Subject: [PATCH 048/194] fix: healpix distances when there are no points or
 edges, and integer healpix domains

---
 cython/distances.pyx | 16 ++++++++++++----
 pixell/enmap.py      | 13 ++++++++++---
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/cython/distances.pyx b/cython/distances.pyx
index b648b17..a91babe 100644
--- a/cython/distances.pyx
+++ b/cython/distances.pyx
@@ -382,8 +382,12 @@ def find_edges_healpix(healpix_info info, mask, flat=True):
 	cdef uint8_t[::1] mask_ = mask
 	nedge = c.find_edges_healpix(info.info, &mask_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
@@ -408,8 +412,12 @@ def find_edges_labeled_healpix(healpix_info info, labels, flat=True):
 	cdef int[::1] labels_ = labels.reshape(-1)
 	nedge = c.find_edges_labeled_healpix(info.info, &labels_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
diff --git a/pixell/enmap.py b/pixell/enmap.py
index 27d557c..15f40fd 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2191,7 +2191,7 @@ def distance_transform_healpix(mask, omap=None, rmax=None, method="heap"):
 		edge_pix = distances.find_edges_healpix(info, mflat[i])
 		edge_pos = np.array(healpy.pix2ang(info.nside, edge_pix))
 		edge_pos[0] = np.pi/2-edge_pos[0]
-		distances.distance_from_points_healpix(info, edge_pos, edge_pix, omap=omap[i], rmax=rmax, method=method)
+		distance_from_healpix(nside, edge_pos, omap=omap[i], rmax=rmax, method=method)
 	omap = omap.reshape(mask.shape)
 	# Distance is always zero inside mask
 	omap *= mask
@@ -2208,12 +2208,12 @@ def labeled_distance_transform_healpix(labels, omap=None, odomains=None, rmax=No
 	nside = healpy.npix2nside(npix)
 	info  = distances.healpix_info(nside)
 	if omap is None: omap = np.zeros(lflat.shape)
-	if odomains is None: odomains = np.zeros(lflat.shape)
+	if odomains is None: odomains = np.zeros(lflat.shape, np.int32)
 	for i in range(len(lflat)):
 		edge_pix = distances.find_edges_labeled_healpix(info, lflat[i])
 		edge_pos = np.array(healpy.pix2ang(info.nside, edge_pix))
 		edge_pos[0] = np.pi/2-edge_pos[0]
-		_, domains = distances.distance_from_points_healpix(info, edge_pos, edge_pix, omap=omap[i], domains=True, rmax=rmax, method=method)
+		_, domains = distance_from_healpix(nside, edge_pos, omap=omap[i], domains=True, rmax=rmax, method=method)
 		# Get the edge_pix to label mapping
 		mapping = lflat[i][edge_pix]
 		mask    = domains >= 0
@@ -2237,6 +2237,13 @@ def distance_from_healpix(nside, points, omap=None, odomains=None, domains=False
 	info = distances.healpix_info(nside)
 	if omap is None: omap = np.empty(info.npix)
 	if domains and odomains is None: odomains = np.empty(info.npix, np.int32)
+	points = np.asarray(points)
+	if points.ndim == 1: points = points[:,None]
+	# Handle case where no points are specified
+	if points.size == 0:
+		omap[:] = np.inf if rmax is None else rmax
+		if domains: odomains[:] = -1
+		return (omap, odomains) if domains else omap
 	pixs = utils.nint(healpy.ang2pix(nside, np.pi/2-points[0], points[1]))
 	return distances.distance_from_points_healpix(info, points, pixs, rmax=rmax, omap=omap, odomains=odomains, domains=domains, method=method)
 
-- 
2.43.0


From 8af5f5dd01c70ebcb2de8125854f7b9ce16ced41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:06 +0000
Subject: [PATCH 049/194] fix: healpix distance transform of a mask with only
 false pixels

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 15f40fd..8ac6997 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2194,7 +2194,7 @@ def distance_transform_healpix(mask, omap=None, rmax=None, method="heap"):
 		distance_from_healpix(nside, edge_pos, omap=omap[i], rmax=rmax, method=method)
 	omap = omap.reshape(mask.shape)
 	# Distance is always zero inside mask
-	omap *= mask
+	omap[np.asarray(mask)==0] = 0
 	return omap
 
 def labeled_distance_transform_healpix(labels, omap=None, odomains=None, rmax=None, method="heap"):
-- 
2.43.0


From f489e358bf7c7413cc860a935414ffd4f81ce714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:12 +0000
Subject: [PATCH 050/194] fix: labeled distance transforms with rmax keep the
 label of pixels deep inside a labeled region

---
 pixell/enmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 8ac6997..ed4b55e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2118,6 +2118,7 @@ def labeled_distance_transform(labels, omap=None, odomains=None, rmax=None, meth
 		# Distance is always zero inside each labeled region
 		mask    = labels.preflat[i] != 0
 		omap.preflat[i][mask] = 0
+		odomains.preflat[i][mask] = labels.preflat[i][mask]
 	return omap, odomains
 
 def distance_from(shape, wcs, points, omap=None, odomains=None, domains=False, method="cellgrid", rmax=None, step=1024):
@@ -2221,6 +2222,7 @@ def labeled_distance_transform_healpix(labels, omap=None, odomains=None, rmax=No
 		# Distance is always zero inside each labeled region
 		mask = lflat[i] != 0
 		omap[i][mask] = 0
+		odomains[i][mask] = lflat[i][mask]
 	omap = omap.reshape(labels.shape)
 	odomains = odomains.reshape(labels.shape)
 	return omap, odomains
-- 
2.43.0


From 3a9a24fbafc6b5627840edca20b0ec6ee0bee613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 051/194] fix: interpolation with border=zero keeps the
 contributions of cells inside the array

---
 fortran/interpol.F90 | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 92c2da8..7a14e66 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -471,6 +471,15 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 		if(.not. trans) res  = 0
 		inds = 0
 		cloop: do ci = 1, ncon
+			! Advance to the next cell. This must happen also for cells that
+			! don't contribute
+			if(ci > 1) then
+				do i = ndim,1,-1
+					inds(i) = inds(i) + 1
+					if(inds(i) < nw) exit
+					inds(i) = 0
+				end do
+			end if
 			! Get the value of this cell of context, taking into
 			! account boundary conditions
 			dind = 0
@@ -504,12 +513,6 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 					idata(dind+1,j) = idata(dind+1,j) + v(j)
 				end do
 			end if
-			! Advance to next cell
-			do i = ndim,1,-1
-				inds(i) = inds(i) + 1
-				if(inds(i) < nw) exit
-				inds(i) = 0
-			end do
 		end do cloop
 		if(.not. trans) odata(si,:) = res
 	end do
@@ -557,6 +560,15 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 		if(.not. trans) res  = 0
 		inds = 0
 		cloop: do ci = 1, ncon
+			! Advance to the next cell. This must happen also for cells that
+			! don't contribute
+			if(ci > 1) then
+				do i = ndim,1,-1
+					inds(i) = inds(i) + 1
+					if(inds(i) < nw) exit
+					inds(i) = 0
+				end do
+			end if
 			! Get the value of this cell of context, taking into
 			! account boundary conditions
 			dind = 0
@@ -599,12 +611,6 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 					end do
 				end do
 			end if
-			! Advance to next cell
-			do i = ndim,1,-1
-				inds(i) = inds(i) + 1
-				if(inds(i) < nw) exit
-				inds(i) = 0
-			end do
 		end do cloop
 		if(.not. trans) odata(si,:,:) = res
 	end do
-- 
2.43.0


From ab537a63617a90d85cd67f4bf59db7d69c4b490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 052/194] fix: interpolation derivatives where a weight is
 zero, and their transpose

---
 fortran/interpol.F90 | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 7a14e66..d586483 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -582,33 +582,28 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 				dind = dind * n + xi
 			end do
 			if(.not. trans) then
-				! Standard interpolation
-				v = idata(dind+1,:)
-				! Now multiply this value by all the relevant weights, one
-				! for each dimension
+				! Standard interpolation. The derivative along axis i replaces the
+				! weight for that axis with its derivative
 				do i = 1, ndim
-					v = v * weights(inds(i)+1,i)
-				end do
-				! Deriv of v1 v2 v3 ... = (dv1/v1 + dv2/v2 + ...)*v1*v2*v3 ...
-				do j = 1, npre
-					if(v(j) == 0) cycle
-					do i = 1, ndim
-						res(j,i) = res(j,i) + v(j) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
+					v = idata(dind+1,:) * dweights(inds(i)+1,i)
+					do j = 1, ndim
+						if(j .ne. i) v = v * weights(inds(j)+1,j)
 					end do
+					res(:,i) = res(:,i) + v
 				end do
 			else
 				! Transposed interpolation
 				res = odata(si,:,:)
+				v   = 0
 				do i = 1, ndim
-					res(i,:) = res(i,:) * weights(inds(i)+1,i)
+					do j = 1, ndim
+						if(j .ne. i) res(:,i) = res(:,i) * weights(inds(j)+1,j)
+					end do
+					v = v + res(:,i) * dweights(inds(i)+1,i)
 				end do
 				do j = 1, npre
-					do i = 1, ndim
-						if(weights(j,i) .ne. 0) then
-							!$omp atomic
-							idata(dind+1,j) = idata(dind+1,j) + res(j,i) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
-						end if
-					end do
+					!$omp atomic
+					idata(dind+1,j) = idata(dind+1,j) + v(j)
 				end do
 			end if
 		end do cloop
-- 
2.43.0


From 2a595d31626e6d6ecf4d82d498edd5edd4225b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 053/194] fix: derivatives of the third and fifth order spline
 weights and of the lanczos kernel

---
 fortran/interpol.F90 | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index d586483..9250a45 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -24,7 +24,7 @@ pure function dsinc(x)
 	real(_), parameter :: cut = 1e-4, pi = 3.14159265358979323846d0
 	y = abs(pi*x)
 	if(y < cut) then
-		dsinc = -sin(y)/2
+		dsinc = -pi*y/3
 	else
 		dsinc = cos(y)/x - sin(y)/(x*y)
 	end if
@@ -372,17 +372,16 @@ pure subroutine calc_weights_deriv(type, order, p, weights, off)
 							if    (x < 0.5) then; weights(j,i) = -2*x
 							elseif(x < 1.5) then; weights(j,i) = -(1.5-x); end if
 						case(3)
-							if    (x < 1.0) then; weights(j,i) = x**2 - x*2/3
+							if    (x < 1.0) then; weights(j,i) = 1.5*x**2 - 2*x
 							elseif(x < 2.0) then; weights(j,i) = -(2-x)**2/2; end if
 						case(4)
 							if    (x < 0.5) then; weights(j,i) = 2*x * (x**2 * 0.25-0.625d0) + x**2 * 2*x * 0.25
 							elseif(x < 1.5) then; weights(j,i) = x**2*5/2 - x**3*2/3  - 2*x*1.25 + 5d0/24
 							elseif(x < 2.5) then; weights(j,i) = (x-2.5)**3/6; end if
 						case(5)
-							! Not computed yet
-							!if    (x < 1.0) then; weights(j,i) = x**2*(x**2*(0.25d0-x/12)-0.5d0)+0.55d0
-							!elseif(x < 2.0) then; weights(j,i) = x*(x*(x*(x*(x/24-0.375d0)+1.25d0)-1.75d0)+0.625d0)+0.425d0
-							!elseif(x < 3.0) then; weights(j,i) = (3-x)**5/120d0; end if
+							if    (x < 1.0) then; weights(j,i) = x*(x**2*(1-x*5/12)-1)
+							elseif(x < 2.0) then; weights(j,i) = x*(x*(x*(x*5/24-1.5d0)+3.75d0)-3.5d0)+0.625d0
+							elseif(x < 3.0) then; weights(j,i) = -(3-x)**4/24; end if
 					end select
 				case(2) ! lanczos
 					if(order == 0) then
-- 
2.43.0


From 5eca55a5945c856ba23c924dd0f32b42545bf15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 054/194] fix: derivatives of linear interpolation at integer
 positions

---
 fortran/interpol.F90 | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 9250a45..b46c986 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -352,14 +352,14 @@ pure subroutine calc_weights_deriv(type, order, p, weights, off)
 		off(i) = floor(p(i)-(nw-2)*0.5d0)
 		do j = 1, nw
 			x = p(i)-(j-1)-off(i)
-			if(x > 0) then; sgn = 1; else; sgn = -1; end if
+			if(x >= 0) then; sgn = 1; else; sgn = -1; end if
 			x = abs(x)
 			weights(j,i) = 0
 			select case(type)
 				case(0) ! convolution
 					select case(order)
 						case(0); if(x < 0.5) weights(j,i) = 0
-						case(1); if(x < 1.0) weights(j,i) = -1
+						case(1); if(x <= 1.0) weights(j,i) = -1
 						case(3)
 							if    (x < 1) then; weights(j,i) =  4.5*x**2 - 5*x
 							elseif(x < 2) then; weights(j,i) = -1.5*x**2 + 5*x - 4; end if
@@ -367,7 +367,7 @@ pure subroutine calc_weights_deriv(type, order, p, weights, off)
 				case(1) ! spline
 					select case(order)
 						case(0); if(x < 0.5) weights(j,i) = 0
-						case(1); if(x < 1.0) weights(j,i) = -1
+						case(1); if(x <= 1.0) weights(j,i) = -1
 						case(2)
 							if    (x < 0.5) then; weights(j,i) = -2*x
 							elseif(x < 1.5) then; weights(j,i) = -(1.5-x); end if
@@ -523,9 +523,8 @@ end subroutine
 ! This has some problems for 0th and 1st order interpolation:
 ! 0th order: Derivative is computed as 0 everywhere, even though it should be
 !            infinite at pixel boundaries
-! 1st order: Derivative has nonsensical values at exact integer positions, where
-!            the derivative changes discontinuously. It's broken even if the
-!            derivative on each side is the same.
+! 1st order: The derivative changes discontinuously at exact integer positions,
+!            where the derivative on the upper side is used.
 subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 	implicit none
 	real(_), intent(inout) :: idata(:,:), odata(:,:,:) ! (ngrid,npre) and (npoint,npre,ndim)
-- 
2.43.0


From 03a6df6c038d4da056bc47fc23a5f0456caf43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 055/194] fix: spline interpolation along axes with a single
 sample no longer reads outside the array

---
 fortran/interpol.F90 | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index b46c986..b55c9f5 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -112,6 +112,8 @@ subroutine spline_filter1d(data, dims, axis, order, border, trans)
 			pole(2) = sqrt(67.5d0 + sqrt(4436.25d0)) - sqrt(26.25d0) - 6.5d0
 		case default; return
 	end select
+	! A single sample is already its own spline coefficient, unless it's surrounded by zeros
+	if(n == 1 .and. border .ne. 0) return
 	weight = product((1-pole(1:npole))*(1-1/pole(1:npole)))
 	if(.not. trans) then
 		pi1 = 1; pi2 = npole; dpi = 1
@@ -190,11 +192,13 @@ subroutine spline_filter1d(data, dims, axis, order, border, trans)
 				else
 					! Transposed case
 					! Perform the transposed backwards recursion
-					a(1) = -p*a(1)
-					do i = 2, n-1
-						a(i) = p*(a(i-1)-a(i))
-					end do
-					a(n) = a(n) - a(n-1)
+					if(n > 1) then
+						a(1) = -p*a(1)
+						do i = 2, n-1
+							a(i) = p*(a(i-1)-a(i))
+						end do
+						a(n) = a(n) - a(n-1)
+					end if
 					! Initialize the tranposed backwards recursion
 					select case(border)
 						case(0) ! Zero
@@ -408,7 +412,7 @@ pure function map_border(border, n, i) result(v)
 			case(2) ! cyclic
 				v = modulo(i, n)
 			case(3) ! mirrored
-				v = modulo(i, 2*n-2)
+				v = modulo(i, max(1,2*n-2))
 				if(v >= n) v = 2*n-2-v
 			case default
 				v = -1
-- 
2.43.0


From dccd555c19efe147fd907b4c2c54c0d9ee1237ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 056/194] fix: spline_filter of arrays in fortran order

---
 pixell/interpol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index d6aaaf9..2880ee9 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -105,7 +105,7 @@ def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
 	to be interpolated. This overhead can be avoided by manually filtering the array
 	once, and then passing in the filtered array to map_coordinates with prefilter=False
 	to turn off the internal filtering."""
-	data = np.array(data)
+	data = np.array(data, order="C")
 	core = get_core(data.dtype)
 	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3}[border]
 	if ndim is None: ndim = data.ndim
-- 
2.43.0


From 987c8a661b10f239d566c2ad9a0079ea3268e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 057/194] fix: spline interpolation accepts border=reflect, as
 documented

---
 pixell/interpol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index 2880ee9..8045788 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -107,7 +107,7 @@ def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
 	to turn off the internal filtering."""
 	data = np.array(data, order="C")
 	core = get_core(data.dtype)
-	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3}[border]
+	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3, "reflect":3}[border]
 	if ndim is None: ndim = data.ndim
 	for axis in range(data.ndim-ndim,data.ndim)[::-1 if trans else 1]:
 		core.spline_filter1d(data.reshape(-1), data.shape, axis, order, iborder, trans)
-- 
2.43.0


From 751106e17e0d491bf800d872c811a39d43c5a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 058/194] fix: map_coordinates no longer loses its result when
 the array to write to is not contiguous

---
 pixell/interpol.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index 8045788..7200421 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -65,36 +65,41 @@ def map_coordinates(idata, points, odata=None, mode="spline", order=3, border="c
 				odata = np.empty((ndim,)+dpre+points.shape[1:],dtype=idata.dtype)
 		if mode == "spline" and prefilter:
 			idata = spline_filter(idata, order=order, border=border, ndim=ndim, trans=False)
+		# The core needs a contiguous array to write to
+		owork = odata if odata.flags["C_CONTIGUOUS"] else np.zeros_like(odata, order="C")
 		if not deriv:
 			core.interpol(
 				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
-				odata.reshape(iprod(dpre),iprod(points.shape[1:])).T,
+				owork.reshape(iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim, -1).T,
 				imode, order, iborder, False)
 		else:
 			core.interpol_deriv(
 				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
-				odata.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
+				owork.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim, -1).T,
 				imode, order, iborder, False)
+		if owork is not odata: odata[...] = owork
 		return odata
 	else:
 		# We cannot infer the shape of idata from odata and points. So both
 		# idata and odata must be specified in this case.
+		iwork = idata if idata.flags["C_CONTIGUOUS"] else np.zeros_like(idata, order="C")
 		if not deriv:
 			core.interpol(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
+				iwork.reshape(iprod(dpre),iprod(dpost)).T, dpost,
 				odata.reshape(iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim,-1).T,
 				imode, order, iborder, True)
 		else:
 			core.interpol_deriv(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
+				iwork.reshape(iprod(dpre),iprod(dpost)).T, dpost,
 				odata.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim,-1).T,
 				imode, order, iborder, True)
 		if mode == "spline" and prefilter:
-			idata[:] = spline_filter(idata, order=order, border=border, ndim=ndim, trans=True)
+			iwork = spline_filter(iwork, order=order, border=border, ndim=ndim, trans=True)
+		if iwork is not idata: idata[...] = iwork
 		return idata
 
 def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
-- 
2.43.0


From 02c34cb3af15f40151c45cfa5b0e7234e7335ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 059/194] fix: interpol.build works for any number of output
 components and reports the whole output range

---
 pixell/interpol.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index 7200421..074a1d5 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -177,10 +177,6 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 				if np.any(np.isnan(ytrue)):
 					raise ValueError("Function to interpolate returned invalid value")
 				err = np.max(np.abs((ytrue-yinter).reshape(ytrue.shape[0],-1)), 1)
-				# Find the worst failure:
-				ytrue_flat = ytrue.reshape(4,-1)
-				yinter_flat= yinter.reshape(4,-1)
-				badi = np.argmax(np.abs((ytrue_flat[2]-yinter_flat[2])))
 				if verbose: print(x.shape, x.size, err/errlim)
 				if any(err > errlim):
 					# Not good enough, so accept improvement
@@ -190,7 +186,7 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 				errs[i] = err
 				# update output box
 				obox[0] = np.minimum(obox[0], np.min(ytrue.reshape(ytrue.shape[0],-1),1))
-				obox[1] = np.maximum(obox[0], np.max(ytrue.reshape(ytrue.shape[0],-1),1))
+				obox[1] = np.maximum(obox[1], np.max(ytrue.reshape(ytrue.shape[0],-1),1))
 			else: nok += 1
 		if nok >= idim: break
 	res = (ip,)
-- 
2.43.0


From 581dda71dba0733df7f760c39aefdf3996326555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:27 +0000
Subject: [PATCH 060/194] fix: interpol.build returns the same values when it
 gives up as when it succeeds

---
 pixell/interpol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index 074a1d5..d4c7b31 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -154,7 +154,7 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 		depth += 1
 		if maxsize and np.prod(n) > maxsize:
 			if return_status:
-				return ip if not return_obox else ip, np.array(obox), False, err
+				return (ip,np.array(obox),False,err) if return_obox else (ip,False,err)
 			raise OverflowError("Maximum refinement mesh size exceeded")
 		nok = 0
 		# Consider accuracy for each input parameter by tentatively doubling
@@ -164,7 +164,7 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 			if any(errs[i] > errlim):
 				if maxtime and time.time() - t0 > maxtime:
 					if return_status:
-						return ip if not return_obox else ip, np.array(obox), False, err
+						return (ip,np.array(obox),False,err) if return_obox else (ip,False,err)
 					raise OverflowError("Maximum refinement time exceeded")
 				# Grid may not be good enough in this direction.
 				# Try doubling resolution
-- 
2.43.0


From 0c6247c15fd807a29de24994c243c5a28cc0964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:02 +0000
Subject: [PATCH 061/194] fix: map_coordinates accepts input arrays that are
 not contiguous

---
 pixell/interpol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index d4c7b31..46decf4 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -65,7 +65,8 @@ def map_coordinates(idata, points, odata=None, mode="spline", order=3, border="c
 				odata = np.empty((ndim,)+dpre+points.shape[1:],dtype=idata.dtype)
 		if mode == "spline" and prefilter:
 			idata = spline_filter(idata, order=order, border=border, ndim=ndim, trans=False)
-		# The core needs a contiguous array to write to
+		# The core needs contiguous arrays
+		idata = np.ascontiguousarray(idata)
 		owork = odata if odata.flags["C_CONTIGUOUS"] else np.zeros_like(odata, order="C")
 		if not deriv:
 			core.interpol(
@@ -84,6 +85,7 @@ def map_coordinates(idata, points, odata=None, mode="spline", order=3, border="c
 	else:
 		# We cannot infer the shape of idata from odata and points. So both
 		# idata and odata must be specified in this case.
+		odata = np.ascontiguousarray(odata)
 		iwork = idata if idata.flags["C_CONTIGUOUS"] else np.zeros_like(idata, order="C")
 		if not deriv:
 			core.interpol(
-- 
2.43.0


From 762c3021052ec231ff3e28b810e3be70062bcb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:51 +0000
Subject: [PATCH 062/194] fix: profiles shared by many objects are no longer
 cut off too early

---
 cython/srcsim_core.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 65af39b..ce3cf16 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -258,19 +258,14 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 				vmax = v;
 			}
 		}
-		// This corresponds to cases where the cutoff is bigger than
-		// any value the beam can reach. Should really set it to 0
-		// in this case, but easier for measure_rmax if se set it to
-		// 1
-		prof_info[i*prof_levels+0] = 1;
 		// The last level just goes all the way out to the end
 		prof_info[i*prof_levels+prof_levels-1] = prof_ns[i];
 		// Populate the others by inwards from the edge
 		int ri = prof_ns[i]-1;
-		for(int li = prof_levels-2; li > 0; li--) {
-			float vlim = vmax * powf(prof_base, -li);
+		for(int li = prof_levels-2; li >= 0; li--) {
+			float vlim = powf(prof_base, -li);
 			for(; ri > imax && fabsf(prof_vs[i][ri]) < vlim; ri--);
-			prof_info[i*prof_levels+li] = ri;
+			prof_info[i*prof_levels+li] = ri+1;
 		}
 	}
 	return prof_info;
@@ -278,11 +273,11 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 
 int prof_info_lookup(int * prof_info, int prof, float vrel) {
 	// Calculate what power of our base (e.g. power of ten) we are
-	// away from the profile peak
-	int ind = (int)ceilf(-logf(vrel)/logf(prof_base));
-	// Cap to [0:nlevel]
-	if(ind < 0) ind = 0;
-	else if(ind >= prof_levels) ind = prof_levels-1;
+	// away from one
+	float level = ceilf(-logf(vrel)/logf(prof_base));
+	// Cap to [0:nlevel]. Must be done before converting to int,
+	// since vrel can be zero or infinite
+	int ind = level >= prof_levels-1 ? prof_levels-1 : level > 0 ? (int)level : 0;
 	// And look up the relevant starting point in the profile
 	return prof_info[prof_levels*prof+ind];
 }
-- 
2.43.0


From c63f20d31c4eed26a07993890107177244b87e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:51 +0000
Subject: [PATCH 063/194] fix: objects that wrap around maps that aren't a
 whole number of cells wide

---
 cython/srcsim_core.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index ce3cf16..214875e 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -141,7 +141,7 @@ void estimate_bounding_box(
 		float * pix_ras,  //
 		int * box         // {y1,y2,x1,x2} in pixels.
 	);
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox);
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int * cellbox);
 void wrap_box(int * box, int ny, int nx);
 
 typedef struct IntList { int n, cap; int * vals; } IntList;
@@ -364,8 +364,8 @@ int assign_cells(
 		// This means that the sloppy wrapping we do that doesn't know about
 		// the real wrapping length of the sky will not cover any tile more than
 		// once.
-		pixbox2cellbox(pixbox, csize, ncy, ncx, cellboxes+4*oi);
-		wrap_box(cellboxes+4*oi, ncy, ncx);
+		wrap_box(pixbox, ny, nx);
+		pixbox2cellbox(pixbox, csize, ny, nx, cellboxes+4*oi);
 	}
 	// 3. For each cell in each object's cell box, register the object in that cell.
 	for(int oi = 0; oi < nobj; oi++) {
@@ -422,17 +422,24 @@ int assign_cells(
 }
 
 int mod(int a, int b) { int c = a % b; return c < 0 ? c+b : c; }
-int floor_div(int a, int b) { int c = a / b; return c*b > a ? c-1 : c; }
+
+// Convert pixel range p1:p2 to cell range c1:c2 along an axis with n pixels.
+// p1:p2 must have been through wrap_box, so p2 can be beyond the end, in which
+// case c2 will be too. This is done in pixels because the last cell can be smaller
+// than the others.
+void pixrange2cellrange(int p1, int p2, int csize, int n, int * c1, int * c2) {
+	int nc = (n+csize-1)/csize;
+	*c1 = p1/csize;
+	*c2 = p2 <= n ? (p2-1)/csize+1 : nc+(p2-n-1)/csize+1;
+	// Don't visit any cell twice
+	if(*c2 > *c1+nc) *c2 = *c1+nc;
+}
 
 // Convert y1 y2 x1 x2 -> cy1 cy2 cx1 cx2. The ranges are
 // half-open like in python
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox) {
-	// Go from raw pixel bounds to raw cell bounds
-	int cy1 = floor_div(pixbox[0], csize), cy2 = floor_div(pixbox[1]-1, csize)+1;
-	int cx1 = floor_div(pixbox[2], csize), cx2 = floor_div(pixbox[3]-1, csize)+1;
-	// Put into output
-	cellbox[0] = cy1; cellbox[1] = cy2;
-	cellbox[2] = cx1; cellbox[3] = cx2;
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int * cellbox) {
+	pixrange2cellrange(pixbox[0], pixbox[1], csize, ny, cellbox+0, cellbox+1);
+	pixrange2cellrange(pixbox[2], pixbox[3], csize, nx, cellbox+2, cellbox+3);
 }
 
 // wrap an integer box such that the start point is >= 1, and
-- 
2.43.0


From 090332a3a849af66ee0556a40bd8ba35ea410656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:51 +0000
Subject: [PATCH 064/194] fix: bounding boxes of objects next to the poles,
 across the angle cut and in maps with a single row or column

---
 cython/srcsim_core.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 214875e..1afe25f 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -657,12 +657,13 @@ float calc_dist(float dec1, float ra1, float dec2, float ra2) {
 
 float calc_grad(int i, int n, int s, float * v) {
 	float dv, di;
+	if(n < 2) return 0;
 	// Handle edge cases
 	if     (i <= 0  ) { dv = v[s      ]-v[0      ]; di = 1; }
 	else if(i >= n-1) { dv = v[s*(n-1)]-v[s*(n-2)]; di = 1; }
 	else              { dv = v[s*(i+1)]-v[s*(i-1)]; di = 2; }
 	// Handle angle cut
-	dv = fmod(dv + M_PI, 2*M_PI) - M_PI;
+	dv = remainder(dv, 2*M_PI);
 	return dv/di;
 }
 
@@ -710,8 +711,9 @@ void estimate_bounding_box(
 	float dy0, dx0;
 	calc_pix_shape(obj_y, obj_x, ny, nx, separable, pix_decs, pix_ras, &dy0, &dx0);
 	// 2. Use this to define a preliminary rectangle
-	int Dy = (int)fabsf(rmax/dy0)+1;
-	int Dx = (int)fabsf(rmax/dx0)+1;
+	//    There's no point in making it bigger than the map
+	int Dy = (int)fminf(fabsf(rmax/dy0),ny)+1;
+	int Dx = (int)fminf(fabsf(rmax/dx0),nx)+1;
 	// 3. and visit its four corners, measuring the smallest dy
 	//    and dx for all of them
 	float dy = dy0, dx = dx0;
@@ -725,8 +727,8 @@ void estimate_bounding_box(
 	dy = fmaxf(dy, tol);
 	dx = fmaxf(dx, tol);
 	// 4. Use this to define a final rectangle
-	Dy = (int)(rmax/dy)+1;
-	Dx = (int)(rmax/dx)+1;
+	Dy = (int)fminf(rmax/dy,ny)+1;
+	Dx = (int)fminf(rmax/dx,nx)+1;
 	box[0] = obj_y - Dy;
 	box[1] = obj_y + Dy+1;
 	box[2] = obj_x - Dx;
-- 
2.43.0


From 2b43ef4b9baf574b12c7fae471ce13a71974d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:51 +0000
Subject: [PATCH 065/194] fix: transposed object simulation no longer leaks its
 work space

---
 cython/srcsim_core.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 1afe25f..a07558b 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -766,7 +766,6 @@ float *** calloc_pppf(int n1, int n2, int n3) {
 
 void free_pppf(float *** a, int n1, int n2) {
 	for(int i1 = 0; i1 < n1; i1++) {
-		a[i1] = calloc(n2, sizeof(float*));
 		for(int i2 = 0; i2 < n2; i2++)
 			free(a[i1][i2]);
 		free(a[i1]);
-- 
2.43.0


From 3cfffad7d85ee593624f71160ee0edffc61a8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:51 +0000
Subject: [PATCH 066/194] fix: radial_sum no longer loses signal in the last
 bin

---
 cython/srcsim_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index a07558b..a8535b9 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -810,7 +810,7 @@ void radial_sum(
 		double * times    // Time taken in the different steps
 	) {
 	// 1. Figure out how far away we need to consider each object
-	float rmax    = rs[nbin-1];
+	float rmax    = rs[nbin];
 	// 2. Loop over each object
 	double t1     = wall_time();
 	#pragma omp parallel for
@@ -828,7 +828,7 @@ void radial_sum(
 				if(separable) { dec = pix_decs[y];      ra = pix_ras[x];      }
 				else          { dec = pix_decs[y*nx+x]; ra = pix_ras[y*nx+x]; }
 				float r = calc_dist(dec, ra, obj_decs[oi], obj_ras[oi]);
-				int i   = equi ? equi_search(nbin, rs, r) : binary_search(nbin, rs, r);
+				int i   = equi ? equi_search(nbin, rs, r) : binary_search(nbin+1, rs, r);
 				if(i < 0 || i >= nbin) continue;
 				for(int ci = 0; ci < ncomp; ci++)
 					bins[oi][ci][i] += imap[ci][y*nx+x];
-- 
2.43.0


From 1c064b494c9a467bb104adfc042ae4e6d08b2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:51 +0000
Subject: [PATCH 067/194] fix: sim_objects and sim_srcs no longer ignore op and
 pixwin_order

---
 pixell/pointsrcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index c039927..2e9027d 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -115,7 +115,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
+	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
@@ -247,7 +247,7 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		amps  = amps.reshape(shape[:-2]+(nobj,))
 		# Handle beam = float, in which case a gaussian beam is made
 		beam  = expand_beam(beam, nsigma, rmax)
-		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op, pixwin=pixwin, pixwin_order=0, separable=separable, cache=cache)
+		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=pixwin_order, separable=separable, cache=cache)
 	elif method == "python":
 		return sim_srcs_python(shape, wcs, srcs, beam, omap=omap, dtype=dtype, nsigma=nsigma, rmax=rmax, smul=smul, return_padded=return_padded, pixwin=pixwin, pixwin_order=pixwin_order, op=op, wrap=wrap, verbose=verbose, cache=cache, separable=separable)
 
-- 
2.43.0


From 2ed8635d75b574598d1d1eda466861e1ffe7b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:12 +0000
Subject: [PATCH 068/194] fix: radial_sum and radial_bin accept maps that
 aren't single precision and contiguous

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 2e9027d..50d1c5a 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -158,7 +158,7 @@ def radial_sum(map, poss, bins, oprofs=None, separable="auto",
 	nobj     = len(obj_decs)
 	# map and number of components
 	pre      = map.shape[:-2]
-	map_flat = map.preflat
+	map_flat = np.ascontiguousarray(map.preflat, dtype=dtype)
 	ncomp    = len(map_flat)
 	# bins
 	bins     = np.asarray(bins, dtype=dtype)
-- 
2.43.0


From 64d22ca7e9de23cae4d5bda884938be4728399d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:12 +0000
Subject: [PATCH 069/194] fix: sim_srcs evaluates faint objects as far out as
 bright ones, like its python version

---
 pixell/pointsrcs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 50d1c5a..26f40f6 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -233,7 +233,6 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 	if method in ["c", "C"]:
 		assert dtype is None or dtype == np.float32, "method 'c' only supports float32. Use method='python' if you need others"
 		assert smul == 1, "method 'c' does not support smul != 1. Use method='python' if you need this"
-		if vmin is None: vmin = np.exp(-0.5*nsigma**2)
 		if   op == np.add or op == np.ndarray.__iadd__ or op == "add": op_ = "add"
 		elif op == np.max or op == "max": op_ = "max"
 		elif op == np.min or op == "min": op_ = "min"
@@ -247,6 +246,11 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		amps  = amps.reshape(shape[:-2]+(nobj,))
 		# Handle beam = float, in which case a gaussian beam is made
 		beam  = expand_beam(beam, nsigma, rmax)
+		# By default evaluate the beam until it has fallen to exp(-0.5*nsigma**2),
+		# regardless of the amplitude
+		if vmin is None:
+			vmin = 0
+			if not rmax: rmax = nsigma2rmax(beam, nsigma)
 		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=pixwin_order, separable=separable, cache=cache)
 	elif method == "python":
 		return sim_srcs_python(shape, wcs, srcs, beam, omap=omap, dtype=dtype, nsigma=nsigma, rmax=rmax, smul=smul, return_padded=return_padded, pixwin=pixwin, pixwin_order=pixwin_order, op=op, wrap=wrap, verbose=verbose, cache=cache, separable=separable)
-- 
2.43.0


From 238299a38de246ebc802a97eb1ad3b53dc7fa2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:12 +0000
Subject: [PATCH 070/194] fix: crossmatch returns [nmatch,2] also when there
 are no matches

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 26f40f6..198456a 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -487,7 +487,7 @@ def crossmatch(srcs1, srcs2, tol=1*utils.arcmin, safety=4):
 		best  = np.argmin(dists)
 		if dists[best] > tol: continue
 		matches.append([gi, group[best]])
-	matches = np.array(matches)
+	matches = np.array(matches, dtype=int).reshape(-1,2)
 	return matches
 
 #### Source parameter I/O ####
-- 
2.43.0


From 5e5765c12b98a0ef5c45e461a5fe9c97b97dc348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:12 +0000
Subject: [PATCH 071/194] fix: sim_objects with an empty list of objects

---
 pixell/pointsrcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 198456a..cf8d898 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -104,7 +104,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	if prof_equi == "auto": prof_equi = all([is_equi(prof[0]) for prof in profile])
 	# If user hasn't specified how faint things to simulate, then set the limit a bit
 	# below the peak of the faintest object
-	if vmin is None: vmin = np.min(np.abs(amps))*1e-3
+	if vmin is None: vmin = np.min(np.abs(amps))*1e-3 if nobj > 0 else 0
 	if rmax is None: rmax = 0
 	# Set up the pixel coordinates
 	if separable: posmap = utils.cache_get(cache, "posmap", lambda: enmap.posaxes(shape, wcs, dtype=dtype))
@@ -115,7 +115,8 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
+	if nobj == 0: times = np.zeros(3)
+	else: times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
-- 
2.43.0


From dce0e679a837daab35406e5897bcc40e33060313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:32 +0000
Subject: [PATCH 072/194] fix: sim_srcs_python works with the current
 interpolation interface

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index cf8d898..da5780a 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -338,7 +338,7 @@ def eval_srcs_loop(posmap, poss, amps, beam, cres, nhit, cell_srcs, dtype=np.flo
 			r      = utils.angdist(pixpos[::-1,None,:,:],srcpos[::-1,:,None,None])
 			bpix   = (r - beam[0,0])/(beam[0,1]-beam[0,0])
 			# Evaluate the beam at these locations
-			bval   = utils.interpol(beam[1], bpix[None], mode="constant", order=1, mask_nan=False) # [nsrc,ry,rx]
+			bval   = utils.interpol(beam[1], bpix[None], border="constant", order=1) # [nsrc,ry,rx]
 			cmodel = srcamp[:,:,None,None]*bval
 			cmodel = op.reduce(cmodel,-3)
 			op(model[:,y1:y2,x1:x2], cmodel, model[:,y1:y2,x1:x2])
-- 
2.43.0


From 78a952f3a377c9ed7205ca895645cf8ddef1e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:32 +0000
Subject: [PATCH 073/194] fix: sim_objects with an empty list of objects and
 several components

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index da5780a..bcc7ea9 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -91,7 +91,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	# Object amplitudes, and number of components
 	amps     = np.asanyarray(amps, dtype=dtype, order="C")
 	pre      = amps.shape[:-1]
-	amps_flat= amps.reshape(-1, amps.shape[-1])
+	amps_flat= amps.reshape(np.prod(pre,dtype=int), amps.shape[-1])
 	ncomp    = len(amps_flat)
 	# Profiles. For point sources this would just be the beam, but extended objects
 	# can have differnet profiles. We will support both [{r,b}] and [[{r,b}],[{r,b}],...]
-- 
2.43.0


From 38074b802ecf485ebaf2f338878ed86bcf90a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:21 +0000
Subject: [PATCH 074/194] fix: objects closer to the pole than the edge of the
 map reach all the pixels they should

---
 cython/srcsim_core.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index a8535b9..33c43cf 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -134,6 +134,7 @@ void calc_pix_shape(int y, int x, int ny, int nx, int separable, float * pix_dec
 void estimate_bounding_box(
 		int   obj_y,      // object pixel coordinates
 		int   obj_x,      //
+		float obj_dec,    // object declination
 		float rmax,       // max relevant radius for object
 		int ny, int nx,   // map dimensions
 		int separable,    // Are ra/dec separable?
@@ -358,7 +359,7 @@ int assign_cells(
 	#pragma omp parallel for
 	for(int oi = 0; oi < nobj; oi++) {
 		int pixbox[4];
-		estimate_bounding_box(obj_ys[oi], obj_xs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
+		estimate_bounding_box(obj_ys[oi], obj_xs[oi], obj_decs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
 		// This also handles wrapping such that the start will always be
 		// positive, and the end will be at most start beyond the end.
 		// This means that the sloppy wrapping we do that doesn't know about
@@ -700,6 +701,7 @@ void calc_pix_shape(int y, int x, int ny, int nx, int separable, float * pix_dec
 void estimate_bounding_box(
 		int   obj_y,      // object pixel coordinates
 		int   obj_x,      //
+		float obj_dec,    // object declination
 		float rmax,       // max relevant radius for object
 		int ny, int nx,   // map dimensions
 		int separable,    // are ra/dec separable?
@@ -723,6 +725,12 @@ void estimate_bounding_box(
 		if(dy0 < dy) dy = dy0;
 		if(dx0 < dx) dx = dx0;
 	}
+	// The corners can be outside the map, in particular for objects closer to the pole
+	// than any pixel, so take into account how far from the equator we actually reach
+	if(separable) {
+		dx0 = fabsf(calc_grad(obj_x, nx, 1, pix_ras)*cosf(fminf(fabsf(obj_dec)+rmax, M_PI/2)));
+		if(dx0 < dx) dx = dx0;
+	}
 	float tol = fmaxf(fmaxf(dy, dx)*1e-6, 1e-12);
 	dy = fmaxf(dy, tol);
 	dx = fmaxf(dx, tol);
@@ -817,7 +825,7 @@ void radial_sum(
 	for(int oi = 0; oi < nobj; oi++) {
 		// 3. Figure out which pixels are relevant
 		int pixbox[4];
-		estimate_bounding_box(obj_ys[oi], obj_xs[oi], rmax, ny, nx, separable, pix_decs, pix_ras, pixbox);
+		estimate_bounding_box(obj_ys[oi], obj_xs[oi], obj_decs[oi], rmax, ny, nx, separable, pix_decs, pix_ras, pixbox);
 		wrap_box(pixbox, ny, nx);
 		for(int y_ = pixbox[0]; y_ < pixbox[1]; y_++) {
 			// We only need to handle upper wrapping due to wrap_box
-- 
2.43.0


From 6f5e9f19f53de9d37ae844cc362a0b7a6ee3b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:53 +0000
Subject: [PATCH 075/194] fix: equi-spaced profiles and bins with few samples
 beyond a radian

---
 cython/srcsim_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 33c43cf..136e87d 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -633,7 +633,7 @@ int binary_search(int n, float * rs, float r) {
 int equi_search(int n, float * rs, float r) {
 	int i = (int)(r/rs[1]);
 	if(i < 0) return -1;
-	if(r >= n) return n;
+	if(i >= n) return n;
 	return i;
 }
 
-- 
2.43.0


From beb78420ec737225c97e446f60c8753c9c4f4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:56 +0000
Subject: [PATCH 076/194] fix: roll_rows with offsets larger than the row
 length no longer writes out of bounds

---
 fortran/array_ops.F90 | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/fortran/array_ops.F90 b/fortran/array_ops.F90
index f45b528..28010b6 100644
--- a/fortran/array_ops.F90
+++ b/fortran/array_ops.F90
@@ -119,12 +119,7 @@ subroutine roll_rows(imap, offsets, omap)
 	!$omp parallel do private(ix,ox)
 	do y = 1, ny
 		do ix = 1, nx
-			ox = ix + offsets(y)
-			if    (ox < 1 ) then
-				ox = ox + nx
-			elseif(ox > nx) then
-				ox = ox - nx
-			end if
+			ox = modulo(ix-1+offsets(y), nx)+1
 			omap(ox,y) = imap(ix,y)
 		end do
 	end do
-- 
2.43.0


From a957ab577fd2faa4523824fc554e97c006d30ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:56 +0000
Subject: [PATCH 077/194] fix: array_ops.matmul works with rectangular matrices

---
 pixell/array_ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/array_ops.py b/pixell/array_ops.py
index 17f69d9..b190c93 100644
--- a/pixell/array_ops.py
+++ b/pixell/array_ops.py
@@ -51,7 +51,9 @@ def matmul(A, B, axes=[-2,-1]):
 	core.matmul_multi(Af.T, Bf.T, Xf.T)
 	# Unwrangle
 	if mustadd: Xf = Xf[:,0,:]
-	X = utils.partial_expand(Xf, B.shape, bax)
+	oshape = list(B.shape)
+	oshape[bax[-1]] = Xf.shape[-1]
+	X = utils.partial_expand(Xf, oshape, bax)
 	return X
 
 def wrap_mm_m(name, vec2mat=False):
-- 
2.43.0


From 64ae697a39b82dbebad0294523feeffac072cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:56 +0000
Subject: [PATCH 078/194] fix: direct_colorcap colors no longer leak between
 threads

---
 fortran/colorize.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/colorize.f90 b/fortran/colorize.f90
index 7dca1be..e0f9b29 100644
--- a/fortran/colorize.f90
+++ b/fortran/colorize.f90
@@ -61,7 +61,7 @@ subroutine direct_colorcap(a, res)
 	real(8) :: v, hue(3), amp, color(3)
 	integer :: i, nc
 	nc = size(a,2)
-	!$omp parallel do private(i,v)
+	!$omp parallel do private(i,v,hue,amp,color)
 	do i = 1, size(a,1)
 		v = a(i,1)+a(i,2)+a(i,3)
 		if(v .ne. v) then
-- 
2.43.0


From 58f9937b9798b8b889fc25f308c0ff09f4c587ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:56 +0000
Subject: [PATCH 079/194] fix: direct color mode: very bright pixels saturate,
 and pixels with any nan are transparent

---
 fortran/colorize.f90 | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/fortran/colorize.f90 b/fortran/colorize.f90
index e0f9b29..573df57 100644
--- a/fortran/colorize.f90
+++ b/fortran/colorize.f90
@@ -35,15 +35,13 @@ subroutine direct(a, res)
 	implicit none
 	real(8),    intent(in)    :: a(:,:)
 	integer(2), intent(inout) :: res(:,:)
-	real(8) :: v
 	integer :: i
-	!$omp parallel do private(i,v)
+	!$omp parallel do private(i)
 	do i = 1, size(a,1)
-		v = a(i,1)
-		if(v .ne. v) then
+		if(any(a(i,:) .ne. a(i,:))) then
 			res(:,i) = 0
 		else
-			res(1:size(a,2),i)  = min(max(0,nint(a(i,:)*256)),255)
+			res(1:size(a,2),i)  = nint(min(max(0d0,a(i,:)*256),255d0))
 			res(size(a,2)+1:,i) = 255
 		end if
 	end do
@@ -58,13 +56,12 @@ subroutine direct_colorcap(a, res)
 	implicit none
 	real(8),    intent(in)    :: a(:,:)
 	integer(2), intent(inout) :: res(:,:)
-	real(8) :: v, hue(3), amp, color(3)
+	real(8) :: hue(3), amp, color(3)
 	integer :: i, nc
 	nc = size(a,2)
-	!$omp parallel do private(i,v,hue,amp,color)
+	!$omp parallel do private(i,hue,amp,color)
 	do i = 1, size(a,1)
-		v = a(i,1)+a(i,2)+a(i,3)
-		if(v .ne. v) then
+		if(any(a(i,:) .ne. a(i,:))) then
 			res(:,i) = 0
 		else
 			! Split rgb into hue and light strength
@@ -76,10 +73,10 @@ subroutine direct_colorcap(a, res)
 			! Reconstruct color
 			color = hue*amp
 			! Then turn this into rgb
-			res(1:3,i)  = min(max(0,nint(color*256)),255)
+			res(1:3,i)  = nint(min(max(0d0,color*256),255d0))
 			! Alpha channel handled separately. We copy it from a if available,
 			! otherwise set it to 255
-			res(4:nc,i) = min(max(0,nint(a(i,4:nc)*256)),255)
+			res(4:nc,i) = nint(min(max(0d0,a(i,4:nc)*256),255d0))
 			res(nc+1:4,i) = 255
 		end if
 	end do
-- 
2.43.0


From 2addd843e1046ae1a501495ea85beacdc77b76c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:56 +0000
Subject: [PATCH 080/194] fix: the python driver of the direct color mode works
 and agrees with the fortran one

---
 pixell/colorize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/colorize.py b/pixell/colorize.py
index e987e59..3a461fb 100644
--- a/pixell/colorize.py
+++ b/pixell/colorize.py
@@ -140,10 +140,10 @@ def colorize_scalar_python(a, desc):
 
 def colorize_direct_python(a, desc):
 	nc  = a.shape[0]
-	res = np.empty((a.shape[1],4),dtype=np.uint16)
-	good = np.isfinite(a[0])
+	res = np.empty((a.shape[1],4),dtype=np.uint8)
+	good = np.all(~np.isnan(a),0)
 	res[~good] = 0
-	res[good,:nc] = np.maximum(0,np.minimum(255,a[:nc,good]*256))
+	res[good,:nc] = np.round(np.maximum(0,np.minimum(255,a[:nc,good]*256))).T
 	res[good,nc:] = 255
 	return res
 
-- 
2.43.0


From 9c324a17b0ca20a8fbc9f6cc48dbc2ce256804df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:15 +0000
Subject: [PATCH 081/194] fix: enplot's -g option toggles the grid when given
 as an argument string

---
 pixell/enplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index df2d04d..34971db 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -110,6 +110,8 @@ def plot_iterator(*arglist, **kwargs):
 		if isinstance(arg, basestring):
 			parsed = parse_args(arg, noglob=noglob, nodef=True)
 			imaps += parsed.ifiles
+			# Options that count how often they were given start from the current value
+			if "grid" in parsed: parsed.grid += args.grid
 			args.update(parsed)
 		else:
 			imaps.append(arg)
-- 
2.43.0


From 6d84ca4510741c91f6be9900bb795ae79217af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:22 +0000
Subject: [PATCH 082/194] fix: autocrop works on multi-component maps with its
 default settings

---
 pixell/enmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index ed4b55e..b98a42e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2289,14 +2289,15 @@ def find_blank_edges(m, value="auto"):
 	"value" determines which value is considered blank. Can be a float value,
 	or the strings "auto" or "none". Auto will choose the value that maximizes
 	the edge area considered blank. None will result in nothing being consideered blank."""
-	if value == "auto":
+	isstr = isinstance(value, str)
+	if isstr and value == "auto":
 		# Find the median value along each edge
 		medians = [np.median(m[...,:,i],-1) for i in [0,-1]] + [np.median(m[...,i,:],-1) for i in [0,-1]]
 		bs = [find_blank_edges(m, med) for med in medians]
 		nb = [np.prod(np.sum(b,0)) for b in bs]
 		blanks = bs[np.argmax(nb)]
 		return blanks
-	elif value == "none":
+	elif isstr and value == "none":
 		# Don't use any values for cropping, so no cropping is done
 		return np.zeros([2,2],dtype=int)
 	else:
-- 
2.43.0


From e5e2453657f78d45503ad203e69ca5a181c95085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:22 +0000
Subject: [PATCH 083/194] fix: autocrop honours its factors argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index b98a42e..67ee656 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2327,7 +2327,7 @@ def autocrop(m, method="plain", value="auto", margin=0, factors=None, return_inf
 	if method == "plain":
 		goodshape = minshape
 	elif method == "fft":
-		goodshape = np.array([enfft.fft_len(l, direction="above", factors=None) for l in minshape])
+		goodshape = np.array([enfft.fft_len(l, direction="above", factors=factors) for l in minshape])
 	else:
 		raise ValueError("Unknown autocrop method %s!" % method)
 	# Pad if necessary
-- 
2.43.0


From fc5cbddd2ac6fbfdb33ed59ab900d48030533506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:22 +0000
Subject: [PATCH 084/194] fix: inpaint fills maps whose leading dimensions are
 not contiguous in memory

---
 pixell/enmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 67ee656..e4171f2 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1422,7 +1422,8 @@ def inpaint(map, mask, method="nearest"):
 	if pix_good.size == 0: return map*0
 	omap = map.copy()
 	# Loop over each scalar component of omap
-	for m in omap.preflat:
+	for I in np.ndindex(omap.shape[:-2]):
+		m = omap[I]
 		val_good = m[border].reshape(-1)
 		val_ipol = interpolate.griddata(pix_good, val_good, pix_bad, method=method)
 		m[pix_bad[:,0],pix_bad[:,1]] = val_ipol
-- 
2.43.0


From 7e4b432b965f3b685e646cd232357f97582540a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 085/194] fix: nu2u and iu2nu accept real samples and
 multidimensional sample arrays, as documented

---
 pixell/fft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 4e20010..11421b9 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -501,7 +501,8 @@ def nu2u(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=No
 		epsilon=epsilon, nthread=nthread, normalize=normalize, complex=complex)
 	work = np.zeros(h.tshape, h.ctype)
 	for uI, nuI in zip(h.uiter, h.nuiter):
-		res = ducc0.nufft.nu2u(points=h.nu[nuI], coord=h.iflat, out=work,
+		points = h.nu[nuI].reshape(-1).astype(h.ctype, copy=False)
+		res = ducc0.nufft.nu2u(points=points, coord=h.iflat, out=work,
 			forward=forward, epsilon=h.epsilon, nthreads=h.nthread,
 			periodicity=h.periodicity, fft_order=True)
 		if not np.iscomplexobj(h.u):
@@ -544,7 +545,7 @@ def iu2nu(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=N
 		# with solution out = (P'P)"P'a. The CG solver wants real numbers, though,
 		# so we hack around that with view
 		# Set up the equation system. Our degrees of freedom are flattened real u
-		b = wzip(PT(h.nu[nuI].reshape(-1)))
+		b = wzip(PT(h.nu[nuI].reshape(-1).astype(h.ctype, copy=False)))
 		def A(x): return wzip(PT(P(wunzip(x))))
 		solver = utils.CG(A, b)
 		while solver.err > h.epsilon:
-- 
2.43.0


From 46c301010f02ba753f62f1539039f56a4aab0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 086/194] fix: inufft_adjoint honours its complex argument

---
 pixell/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 11421b9..6b12f23 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -605,7 +605,7 @@ def nufft_adjoint(a, inds, out=None, oshape=None, axes=None, periodicity=None, e
 
 def inufft_adjoint(fa, inds, out=None, axes=None, periodicity=None, epsilon=None, nthread=None, normalize=False, flip=False, complex=True):
 	"""Alias of inu2u(..., forward=not flip). This involves inverting a system with conjugate gradients"""
-	return inu2u(fa, inds, out=out, axes=axes, periodicity=periodicity, epsilon=epsilon, nthread=nthread, normalize=normalize, forward=not flip)
+	return inu2u(fa, inds, out=out, axes=axes, periodicity=periodicity, epsilon=epsilon, nthread=nthread, normalize=normalize, forward=not flip, complex=complex)
 
 # Incremental nufft. This is useful for low-latency interpolation, or interpolation
 # where you don't know how many points there will be
-- 
2.43.0


From 9985745654a7420756a745a0616ae7ddcbf7e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 087/194] fix: higher-order spline interpolation of integer
 arrays no longer truncates the spline coefficients

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 95e7a69..18eb544 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -609,7 +609,8 @@ class SplineInterpolator:
 		if self.mode != "spline": raise ValueError("Unrecognized spline interpolation mode '%s'" % str(mode))
 		arr = np.asanyarray(arr)
 		if self.order > 1:
-			arr = arr.copy()
+			# The spline coefficients of an integer array are not integers
+			arr = asfarray(arr).copy()
 			for I in nditer(arr.shape[:npre]):
 				arr[I] = scipy.ndimage.spline_filter(arr[I], order=self.order, mode=self.border)
 		self.arr = arr
-- 
2.43.0


From e468cb75a196d77ac66e63bb7c23041504ccdaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:24 +0000
Subject: [PATCH 088/194] fix: lensing.offset_by_grad gave the wrong longitude
 for paths crossing a pole

---
 pixell/lensing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index b033723..6f8f502 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -340,8 +340,8 @@ def offset_by_grad_helper(ipos, grad, pol):
 	cosd, sind = np.cos(d), np.sin(d)
 	cost, sint = np.cos(ipos[0]), np.sin(ipos[0])
 	ocost  = cosd*cost-sind*sint*grad[0]
-	osint  = (1-ocost**2)**0.5
-	ophi   = ipos[1] + np.arcsin(sind*grad[1]/osint)
+	# Need the full quadrant here, since the path can cross the pole
+	ophi   = ipos[1] + np.arctan2(sind*grad[1], cosd*sint+sind*cost*grad[0])
 	if not pol:
 		return np.array([np.arccos(ocost), ophi]), None
 	# Compute the induced polarization rotation.
-- 
2.43.0


From 0de1650284df8bcb1d1c2011bec0cbde571fd6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:24 +0000
Subject: [PATCH 089/194] fix: lensing.offset_by_grad returned twice the
 polarization rotation angle

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 6f8f502..1b89289 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -307,14 +307,14 @@ def offset_by_grad(ipos, grad, geodesic=True, pol=None):
 			small_grad = gflat[:,i:i+step].copy(); small_grad[0] = -small_grad[0]
 			small_ipos = iflat[:,i:i+step].copy(); small_ipos[0] = np.pi/2-small_ipos[0]
 			# Compute the offset position and polarization rotation, the latter in the
-			# form of cos and sin of the polarization rotation angle
+			# form of cos and sin of twice the polarization rotation angle
 			small_opos, small_orot = offset_by_grad_helper(small_ipos, small_grad, ncomp>2)
 			oflat[0,i:i+step] = np.pi/2 - small_opos[0]
 			oflat[1,i:i+step] = small_opos[1]
 			# Handle rotation if necessary
 			if oflat.shape[0] > 2:
-				# Recover angle from cos and sin
-				oflat[2,i:i+step] = np.arctan2(small_orot[1],small_orot[0])
+				# Recover angle from cos and sin of twice the angle
+				oflat[2,i:i+step] = np.arctan2(small_orot[1],small_orot[0])/2
 				if iflat.shape[0] > 2:
 					oflat[2,i:i+step] += iflat[2,i:i+step]
 	else:
-- 
2.43.0


From 7ba3ea093affb8f1eafc1e06942e110bc61255bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:24 +0000
Subject: [PATCH 090/194] fix: lens_map_curved returned uninitialised memory
 for "u" without "l"

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 1b89289..57f04af 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -216,15 +216,15 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		if "a" in output: grad = grad_map[...,i1:i2,:]
 		else: grad = enmap.zeros((2,)+lshape[-2:], lwcs, dtype=dtype)
 		curvedsky.alm2map(phi_alm, grad, deriv=True)
+		if "u" in output:
+			if verbose: print("Computing unlensed map")
+			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
 		if "l" not in output: continue
 		if verbose: print("Computing observed coordinates")
 		obs_pos = enmap.posmap(lshape, lwcs)
 		if verbose: print("Computing alpha map")
 		raw_pos = enmap.samewcs(offset_by_grad(obs_pos, grad, pol=shape[-3]>1, geodesic=geodesic), obs_pos)
 		del obs_pos, grad
-		if "u" in output:
-			if verbose: print("Computing unlensed map")
-			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
 		if verbose: print("Computing lensed map")
 		cmb_obs[...,i1:i2,:] = curvedsky.alm2map_pos(cmb_alm, raw_pos[:2], spin=spin)
 		if raw_pos.shape[0] > 2 and np.any(raw_pos[2]):
-- 
2.43.0


From 98d7ea5103de0e2d4edd24dc51f2b946bea0cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:24 +0000
Subject: [PATCH 091/194] fix: lens_map_curved ignored phi_ainfo

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 57f04af..9287d07 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -200,7 +200,7 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		kappa_map = enmap.empty(shape[-2:], wcs, dtype=dtype)
 		kappa_alm = phi_to_kappa(phi_alm,phi_ainfo=phi_ainfo)
 		for i1 in range(0, shape[-2], bsize):
-			curvedsky.alm2map(kappa_alm, kappa_map[...,i1:i1+bsize,:])
+			curvedsky.alm2map(kappa_alm, kappa_map[...,i1:i1+bsize,:], ainfo=phi_ainfo)
 		del kappa_alm
 	if "a" in output: grad_map  = enmap.empty((2,)+shape[-2:], wcs, dtype=dtype)
 	if "u" in output: cmb_raw   = enmap.empty(shape, wcs, dtype=dtype)
@@ -211,11 +211,11 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		lshape, lwcs = enmap.slice_geometry(shape, wcs, (slice(i1,i2),slice(None)))
 		if "p" in output:
 			if verbose: print("Computing phi map")
-			curvedsky.alm2map(phi_alm, phi_map[...,i1:i2,:])
+			curvedsky.alm2map(phi_alm, phi_map[...,i1:i2,:], ainfo=phi_ainfo)
 		if verbose: print("Computing grad map")
 		if "a" in output: grad = grad_map[...,i1:i2,:]
 		else: grad = enmap.zeros((2,)+lshape[-2:], lwcs, dtype=dtype)
-		curvedsky.alm2map(phi_alm, grad, deriv=True)
+		curvedsky.alm2map(phi_alm, grad, deriv=True, ainfo=phi_ainfo)
 		if "u" in output:
 			if verbose: print("Computing unlensed map")
 			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
-- 
2.43.0


From e0c0c666618462ed710911505d6bdb66abd539fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:24 +0000
Subject: [PATCH 092/194] fix: lensing.rand_alm with phi_seed crashed without
 ncomp and left m=0,l=lmax complex

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 9287d07..117769d 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -254,13 +254,13 @@ def rand_alm(ps_lensinput, lmax=None, dtype=np.float64, seed=None, phi_seed=None
 	else:
 		# We want separate seeds for cmb and phi. This means we have to do things a bit more manually
 		wps, ainfo = curvedsky.prepare_ps(ps_lensinput, lmax=lmax)
-		alm = np.empty([1+ncomp,ainfo.nelem],ctype)
+		alm = np.empty([len(wps),ainfo.nelem],ctype)
 		curvedsky.rand_alm_white(ainfo, alm=alm[:1], seed=phi_seed)
 		curvedsky.rand_alm_white(ainfo, alm=alm[1:], seed=seed)
 		ps12 = enmap.multi_pow(wps, 0.5)
 		ainfo.lmul(alm, (ps12/2**0.5).astype(dtype), alm)
-		alm[:,:ainfo.lmax].imag  = 0
-		alm[:,:ainfo.lmax].real *= 2**0.5
+		alm[:,:ainfo.lmax+1].imag  = 0
+		alm[:,:ainfo.lmax+1].real *= 2**0.5
 		del wps, ps12
 		
 	# Return phi_alm and cmb_alm
-- 
2.43.0


From 20079f7e013b8e212facfe6a96772f87da56f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:24 +0000
Subject: [PATCH 093/194] fix: aberration mirrored the wrong axis when
 extending full-sky maps beyond the poles

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 771aca9..e2baec4 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -250,7 +250,7 @@ def interpol_map(imap, pixs, epsilon=None, nthread=None, ydouble=False):
 		# fullsky maps, but makes less sense for partial sky maps
 		dmap = enmap.zeros(imap.shape[:-2]+(2*ny,nx), imap.wcs, imap.dtype)
 		dmap[...,:ny,:] = imap
-		dmap[...,ny:,:] = np.roll(imap[...,::-1], nx//2, -1)
+		dmap[...,ny:,:] = np.roll(imap[...,::-1,:], nx//2, -1)
 	else:
 		dmap = imap
 	periodicity = np.array(dmap.shape[-2:])
-- 
2.43.0


From f34f2e45e7a3f7da020486b24853477062926c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:24 +0000
Subject: [PATCH 094/194] fix: lin2T modulation ignored T0

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index e2baec4..7932ac3 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -350,7 +350,7 @@ def _modulate_lin2T(map, A, T0=utils.T_cmb, freq=150e9, map_unit=1e-6, spin=0, d
 			oval  = iplanck(freq, oval)
 			# Apply modulation
 			oval *= a
-			oval -= utils.T_cmb
+			oval -= T0
 			map[y,x] = oval/map_unit
 
 @numba.njit
-- 
2.43.0


From 798afa55afb8d7c0194fc4a0df56f97c7bead8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:24 +0000
Subject: [PATCH 095/194] fix: Modulator overwrote its input map

---
 pixell/aberration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 7932ac3..7dd2cbb 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -1,4 +1,4 @@
-import numpy as np, numba, ducc0, time
+import numpy as np, numba, ducc0, time, warnings
 from . import coordinates, enmap, utils, curvedsky, wcsutils
 
 beta    = 0.001235
@@ -191,7 +191,8 @@ class Modulator:
 		if spin is None: spin = self.spin
 		if map.dtype != self.dtype:
 			warnings.warn("Modulator dtype does not match argument dtype")
-		return apply_modulation(map, self.A, spin=spin, T0=self.T0, freq=self.freq,
+		# apply_modulation works in-place, but the caller's map should be left alone
+		return apply_modulation(map.copy(), self.A, spin=spin, T0=self.T0, freq=self.freq,
 			map_unit=self.map_unit, mode=self.modulation, dipole=self.dipole)
 
 def calc_boost_1d(z, beta):
-- 
2.43.0


From 902b2656d4cc089ee7a5d1aaea1550f307b99905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:11 +0000
Subject: [PATCH 096/194] Revert "fix: lensing.offset_by_grad returned twice
 the polarization rotation angle"

This reverts commit 0de1650284df8bcb1d1c2011bec0cbde571fd6d9.
---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 117769d..8cb0597 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -307,14 +307,14 @@ def offset_by_grad(ipos, grad, geodesic=True, pol=None):
 			small_grad = gflat[:,i:i+step].copy(); small_grad[0] = -small_grad[0]
 			small_ipos = iflat[:,i:i+step].copy(); small_ipos[0] = np.pi/2-small_ipos[0]
 			# Compute the offset position and polarization rotation, the latter in the
-			# form of cos and sin of twice the polarization rotation angle
+			# form of cos and sin of the polarization rotation angle
 			small_opos, small_orot = offset_by_grad_helper(small_ipos, small_grad, ncomp>2)
 			oflat[0,i:i+step] = np.pi/2 - small_opos[0]
 			oflat[1,i:i+step] = small_opos[1]
 			# Handle rotation if necessary
 			if oflat.shape[0] > 2:
-				# Recover angle from cos and sin of twice the angle
-				oflat[2,i:i+step] = np.arctan2(small_orot[1],small_orot[0])/2
+				# Recover angle from cos and sin
+				oflat[2,i:i+step] = np.arctan2(small_orot[1],small_orot[0])
 				if iflat.shape[0] > 2:
 					oflat[2,i:i+step] += iflat[2,i:i+step]
 	else:
-- 
2.43.0


From 13868f03549ae30788e56482871a6be520faf9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:11 +0000
Subject: [PATCH 097/194] Revert "fix: lensing.offset_by_grad gave the wrong
 longitude for paths crossing a pole"

This reverts commit e468cb75a196d77ac66e63bb7c23041504ccdaaa.
---
 pixell/lensing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 8cb0597..c8817a5 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -340,8 +340,8 @@ def offset_by_grad_helper(ipos, grad, pol):
 	cosd, sind = np.cos(d), np.sin(d)
 	cost, sint = np.cos(ipos[0]), np.sin(ipos[0])
 	ocost  = cosd*cost-sind*sint*grad[0]
-	# Need the full quadrant here, since the path can cross the pole
-	ophi   = ipos[1] + np.arctan2(sind*grad[1], cosd*sint+sind*cost*grad[0])
+	osint  = (1-ocost**2)**0.5
+	ophi   = ipos[1] + np.arcsin(sind*grad[1]/osint)
 	if not pol:
 		return np.array([np.arccos(ocost), ophi]), None
 	# Compute the induced polarization rotation.
-- 
2.43.0


From e44142914bcfb9ae1c16723982d1e9763aee79e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:36 +0000
Subject: [PATCH 098/194] fix: alm2map_pos gave wrong values for ra more than a
 turn away

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index a4085e0..122826b 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -189,8 +189,8 @@ def alm2map_pos(alm, pos=None, loc=None, ainfo=None, map=None, spin=[0,2], deriv
 		# This should use less memory than writing loc[:,0] = np.pi/2-loc[:,0]
 		loc[...,0] *= -1
 		loc[...,0] += np.pi/2
-		# Should use rewind here, but this is more efficient
-		loc[loc[...,1]<0,1] += 2*np.pi
+		# ducc only handles ra between 0 and 2pi
+		loc[...,1] %= 2*np.pi
 		# Support arbitrary pre-dimensions for loc (post-dimensions for pos)
 	lpre = loc.shape[:-1]
 	loc  = loc.reshape(-1,2)
-- 
2.43.0


From 634c3a316a0faae6eaf74a7f279046f73610e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:58 +0000
Subject: [PATCH 099/194] fix: lens_map_flat interpolated inaccurately near the
 edges of the map

---
 pixell/lensing.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index c8817a5..4df19cf 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -68,11 +68,8 @@ def displace_map(imap, pix, order=3, mode="spline", border="cyclic", trans=False
 # its gradient as an argument.
 def lens_map_flat(cmb_map, phi_map):
 	raw_pix  = cmb_map.pixmap() + enmap.grad_pix(phi_map)
-	# And extract the interpolated values. Because of a bug in map_pixels with
-	# mode="wrap", we must handle wrapping ourselves.
-	npad = int(np.ceil(max(np.max(-raw_pix),np.max(raw_pix-np.array(cmb_map.shape[-2:])[:,None,None]))))
-	pmap = enmap.pad(cmb_map, npad, wrap=True)
-	return enmap.samewcs(utils.interpol(pmap, raw_pix+npad, order=4, border="wrap"), cmb_map)
+	# And extract the interpolated values, with periodic boundaries
+	return enmap.samewcs(utils.interpol(cmb_map, raw_pix, order=4, border="wrap"), cmb_map)
 
 ######## Curved sky lensing ########
 
-- 
2.43.0


From 40b7ae4cb8a19efe52bdd5aa23e0973748321ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:58 +0000
Subject: [PATCH 100/194] fix: offset_by_grad gave nan longitudes for points
 that end up on a pole

---
 pixell/lensing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 4df19cf..b70fb25 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -338,7 +338,9 @@ def offset_by_grad_helper(ipos, grad, pol):
 	cost, sint = np.cos(ipos[0]), np.sin(ipos[0])
 	ocost  = cosd*cost-sind*sint*grad[0]
 	osint  = (1-ocost**2)**0.5
-	ophi   = ipos[1] + np.arcsin(sind*grad[1]/osint)
+	# osint can be zero if we end up on the pole
+	sinphi = sind*grad[1]/np.maximum(osint, 1e-200)
+	ophi   = ipos[1] + np.arcsin(np.clip(sinphi, -1, 1))
 	if not pol:
 		return np.array([np.arccos(ocost), ophi]), None
 	# Compute the induced polarization rotation.
-- 
2.43.0


From ada1e0d6dd464690fa79bc92a1920ac21ed1a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:03 +0000
Subject: [PATCH 101/194] fix: offset_by_grad rotated the polarization of
 undisplaced points on a pole

---
 pixell/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index b70fb25..536c5ef 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -329,7 +329,7 @@ def offset_by_grad_helper(ipos, grad, pol):
 	# Decompose grad into direction and length.
 	# Fix zero-length gradients first, to avoid
 	# division by zero.
-	grad[:,np.all(grad==0,0)] = 1e-20
+	grad[0,np.all(grad==0,0)] = 1e-20
 	d = np.sum(grad**2,0)**0.5
 	grad  /=d
 	# Perform the position offset using spherical
-- 
2.43.0


From 1802815a9e24222cece159711d7393f568602d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:03 +0000
Subject: [PATCH 102/194] fix: lens_map_curved crashed for delta_theta of about
 one pixel

---
 pixell/lensing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 536c5ef..c4ac6ac 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -187,10 +187,10 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 	if len(oshape) == 2: shape = (1,)+tuple(shape)
 	if delta_theta is None: bsize = shape[-2]
 	else:
-		bsize = utils.nint(abs(delta_theta/utils.degree/wcs.wcs.cdelt[1]))
+		bsize = max(1,utils.nint(abs(delta_theta/utils.degree/wcs.wcs.cdelt[1])))
 		# Adjust bsize so we don't get any tiny blocks at the end
 		nblock= shape[-2]//bsize
-		bsize = int(shape[-2]/(nblock+0.5))
+		bsize = max(1,int(shape[-2]/(nblock+0.5)))
 	# Allocate output maps
 	if "p" in output: phi_map   = enmap.empty(shape[-2:], wcs, dtype=dtype)
 	if "k" in output:
-- 
2.43.0


From a531b0154c7db8fb15b575d0c23bc41e674e1d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 103/194] fix: vec_angdist gave nan for parallel vectors of
 different length

---
 pixell/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 18eb544..8e3637e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1858,7 +1858,11 @@ def vec_angdist(v1, v2, axis=0):
 	b  = np.sum(v2**2,axis)**0.5
 	c  = np.sum((v1-v2)**2,axis)**0.5
 	mu = np.where(b>=c, c-(a-b), b-(a-c))
-	ang= 2*np.arctan(((((a-b)+c)*mu)/((a+(b+c))*((a-c)+b)))**0.5)
+	# These are non-negative, but can end up negative due to rounding
+	# when the vectors are (anti)parallel
+	y  = np.maximum((a-b)+c,0)*np.maximum(mu,0)
+	x  = (a+(b+c))*np.maximum((a-c)+b,0)
+	ang= 2*np.arctan2(y**0.5, x**0.5)
 	return ang
 
 def rotmatrix(ang, raxis, axis=-1, dtype=None):
-- 
2.43.0


From 04b2995bd837f058a6d526f55c4fc899ad26a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 104/194] fix: transform_raw truncated the result when given
 integer coordinates

---
 pixell/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index 037c5c2..3548244 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -133,10 +133,10 @@ def transform_raw(from_sys, to_sys, coords, time=None, site=default_site, bore=N
 	as coords*time[None]."""
 	# Prepare input and output arrays
 	if time is None:
-		coords = np.array(coords)[:2]
+		coords = utils.asfarray(np.array(coords))[:2]
 	else:
 		time   = np.asarray(time)
-		coords = np.asarray(coords)
+		coords = utils.asfarray(coords)
 		# Broadasting. A bit complicated because we want to handle
 		# both time needing to broadcast and coords needing to
 		time   = time + np.zeros(coords[0].shape,time.dtype)
-- 
2.43.0


From 22ae97432596ab00107d8c688fda0c42298fc6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 105/194] fix: recenter and decenter modified the center
 argument when restore was used

---
 pixell/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index 3548244..49fdc6e 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -301,14 +301,14 @@ def recenter(angs, center, restore=False):
 	# lon_from,lat_from,lon_to,lat_to
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra1,dec0-dec1,-ra0], angs, kind="zyz")
 
 def decenter(angs, center, restore=False):
 	"""Inverse operation of recenter."""
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra0,dec1-dec0,-ra1],  angs, kind="zyz")
 
 def nohor(sys): return sys if sys not in ["altaz","tele","bore"] else "icrs"
-- 
2.43.0


From 18afb17d06cfe3a2cd92296535533e3cabf675d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:58 +0000
Subject: [PATCH 106/194] fix: healpix2map spline with rotation crashed for
 multi-component spin-0 maps

---
 pixell/reproject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 577ec0d..40a21f2 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -352,6 +352,7 @@ def healpix2map(iheal, shape=None, wcs=None, lmax=None, out=None, rot=None, spin
 			if rot is not None and iheal.ndim > 1:
 				# Update the polarization to account for the new coordinate system
 				for s, c1, c2 in enmap.spin_helper(spin, iheal.shape[-2]):
+					if s == 0: continue
 					vals = enmap.rotate_pol(vals, -pos[2], spin=s, comps=[c1,c2-1], axis=-2)
 			out[...,i1:i2,:] = vals.reshape(vals.shape[:-1]+(i2-i1,-1))
 	else:
-- 
2.43.0


From ff32814238f5a53daeb21fd576d9563faeac8501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:58 +0000
Subject: [PATCH 107/194] fix: map2healpix spline crashed when given an output
 array

---
 pixell/reproject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 40a21f2..54e1d5f 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -202,6 +202,7 @@ def map2healpix(imap, nside=None, lmax=None, out=None, rot=None, spin=[0,2], met
 			nside = restrict_nside(((4*np.pi/ires**2)/12)**0.5, nside_mode)
 		out = np.zeros(imap.shape[:-2]+(12*nside**2,), imap.dtype)
 	npix     = out.shape[-1]
+	nside    = curvedsky.npix2nside(npix)
 	opixsize = 4*np.pi/npix
 	# Might not be safe to go all the way to the Nyquist l, but looks that way to my tests.
 	if lmax is None: lmax = lnyq
-- 
2.43.0


From 34b151e7adc4d5772dd163517fd26a713d6a3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:58 +0000
Subject: [PATCH 108/194] fix: to_healpix crashed, as a method and for
 multi-component maps

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index e4171f2..423c27c 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -120,7 +120,7 @@ class ndmap(np.ndarray):
 	def upgrade(self, factor,  off=None, oshape=None, inclusive=False): return upgrade(self, factor, off=off, oshape=oshape, inclusive=inclusive)
 	def fillbad(self, val=0, inplace=False): return fillbad(self, val=val, inplace=inplace)
 	def to_healpix(self, nside=0, order=3, omap=None, chunk=100000, destroy_input=False):
-		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk, destroy_input=destroy_input)
+		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk)
 	def to_flipper(self, omap=None, unpack=True): return to_flipper(self, omap=omap, unpack=unpack)
 	def __getitem__(self, sel):
 		# Split sel into normal and wcs parts.
@@ -2588,7 +2588,7 @@ def to_healpix(imap, omap=None, nside=0, order=3, chunk=100000):
 	give higher speed."""
 	warnings.warn("enmap.to_healpix is deprecated. Reprojecting this way is error-prone due to the potential loss of information, and the (very small) loss of high-l power due to the use of spline interpolation. Use reproject.map2healpix instead. And read its docstring!")
 	import healpy
-	ip = utils.interpolator(imap, order=order)
+	ip = utils.interpolator(imap, npre=-2, order=order)
 	if omap is None:
 		# Generate an output map
 		if not nside:
-- 
2.43.0


From 502005095373900ae359e35b834c102187d5766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:58 +0000
Subject: [PATCH 109/194] fix: deprecated reprojection functions crashed on a
 missing import and float indices

---
 pixell/reproject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 54e1d5f..9d979c8 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -1,5 +1,5 @@
 from __future__ import print_function
-import numpy as np
+import numpy as np, warnings
 from scipy import spatial
 from . import wcsutils, utils, enmap, coordinates, fft, curvedsky
 
@@ -614,8 +614,8 @@ def enmap_from_healpix_interp(hp_map, shape, wcs , rot="gal,equ",
 	imap = enmap.zeros(shape, wcs)
 	Ny, Nx = shape
 	pixmap = enmap.pixmap(shape, wcs)
-	y = pixmap[0, ...].T.ravel()
-	x = pixmap[1, ...].T.ravel()
+	y = utils.nint(pixmap[0, ...].T.ravel())
+	x = utils.nint(pixmap[1, ...].T.ravel())
 	del pixmap
 	posmap = enmap.posmap(shape, wcs)
 	if rot is not None:
-- 
2.43.0


From 0526c752e0d235f834ea68b21583c66880736fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:15 +0000
Subject: [PATCH 110/194] fix: map2healpix crashed for extensive
 single-precision maps

---
 pixell/reproject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 9d979c8..bb66229 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -207,7 +207,7 @@ def map2healpix(imap, nside=None, lmax=None, out=None, rot=None, spin=[0,2], met
 	# Might not be safe to go all the way to the Nyquist l, but looks that way to my tests.
 	if lmax is None: lmax = lnyq
 	if extensive:
-		imap = imap * (opixsize / imap.pixsizemap(broadcastable=True)) # not /= to avoid changing original imap
+		imap = (imap * (opixsize / imap.pixsizemap(broadcastable=True))).astype(imap.dtype, copy=False) # not /= to avoid changing original imap
 	if method in ["harm", "harmonic"]:
 		# Harmonic interpolation preserves the power spectrum, but can introduce ringing.
 		# Probably not a good choice for positive-only quantities like hitcounts.
-- 
2.43.0


From 655a7a7bc9c7248cee38581fe8145141de022953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:52 +0000
Subject: [PATCH 111/194] fix: get_pixsize_rect was wrong for maps with north
 at the start

---
 pixell/reproject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index bb66229..05b072c 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -811,6 +811,7 @@ def get_pixsize_rect(shape, wcs):
 	number of rows in the image. All pixels on the same row have the same area."""
 	ymin = enmap.sky2pix(shape, wcs, [-np.pi / 2, 0])[0]
 	ymax = enmap.sky2pix(shape, wcs, [np.pi / 2, 0])[0]
+	ymin, ymax = min(ymin, ymax), max(ymin, ymax)
 	y = np.arange(shape[-2])
 	x = y * 0
 	dec1 = enmap.pix2sky(shape, wcs, [np.maximum(ymin, y - 0.5), x])[0]
-- 
2.43.0


From 2f4243d79cd95ab66d9f8c275351821eb5b34383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 112/194] fix: TileMap.with_tiles crashed or did nothing when
 the number of active tiles differed

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index b126e64..2644d54 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -116,7 +116,7 @@ class TileMap(np.ndarray):
 		should be considerably faster."""
 		try: active = other.geometry.active
 		except AttributeError: active = _parse_active(other, self.ntile)
-		if np.all(active == self.geometry.active):
+		if np.array_equal(active, self.geometry.active):
 			return self.copy()
 		# Construct the new geometry
 		if strict: new_geom = self.geometry.copy(active    =active)
-- 
2.43.0


From 4f44d6fd5f2887d15e1a2f85f71e58b8fe9a7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 113/194] fix: slicing the pixel axis of a TileMap returned a
 TileMap with a wrong geometry instead of a plain array

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 2644d54..aaf8885 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -83,7 +83,7 @@ class TileMap(np.ndarray):
 			raise IndexError("too many indices")
 		elif len(sel2) == 1:
 			# Degrade to plain array if we index the last, special pixel/tile axis
-			return np.ndarray.__getitem__(self, sel)
+			return np.ndarray.__getitem__(np.asarray(self), sel)
 		else:
 			res  = np.ndarray.__getitem__(self, sel)
 			ogeo = self.geometry.copy()
-- 
2.43.0


From 09dd3e77c043fc850593a84cb2590aff94f4a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 114/194] fix: numpy functions that change the leading
 dimensions of a TileMap left its geometry behind

---
 pixell/tilemap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index aaf8885..7243df0 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -75,7 +75,8 @@ class TileMap(np.ndarray):
 		# In the future need to support `return_scalar`, but that is seemingly
 		# undocumented and not actually supported in numpy 2.0? So for now we
 		# just ignore it.
-		return TileMap(arr, self.geometry)
+		if arr.ndim == 0 or arr.shape[-1] != self.shape[-1]: return TileMap(arr, self.geometry)
+		return TileMap(arr, self.geometry.copy(pre=arr.shape[:-1]))
 	def __getitem__(self, sel):
 		# Split sel into normal and wcs parts.
 		sel1, sel2 = utils.split_slice(sel, [self.ndim-1,1])
-- 
2.43.0


From e056a7b3afdb84db2da7095ed39894b13ca19b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 115/194] fix: tilemap.redistribute mixed up the tiles when the
 active tiles were not in ascending order

---
 pixell/tilemap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 7243df0..fd44e52 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -462,7 +462,11 @@ def redistribute(imap, comm, active=None, omap=None):
 	iflat     = np.ascontiguousarray(imap.T).reshape(-1)
 	send_sizes= np.sum(omask*isizes,1)
 	send_offs = utils.cumsum(send_sizes)
-	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for rank, iact in np.argwhere(omask)]
+	# Tiles are sent in ascending order of their global index, which is the order the
+	# receiver expects them in, regardless of the order of the active tiles
+	iorder    = np.argsort(imap.active, kind="stable")
+	oorder    = np.argsort(omap.active, kind="stable")
+	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for iact in [iorder[i] for rank, i in np.argwhere(omask[:,iorder])]]
 	send_buf  = np.concatenate(send_buf, dtype=iflat.dtype) if len(send_buf) > 0 else np.zeros(0, iflat.dtype)
 	# 5. Build the alltoallv receive info
 	recv_sizes= np.sum(imask*osizes,1)
@@ -474,7 +478,7 @@ def redistribute(imap, comm, active=None, omap=None):
 	# 7. Copy and reduce into flattened output tiles
 	oflat     = np.zeros(omap.size, omap.dtype)
 	rbuf_off  = 0
-	for rank, oact in np.argwhere(imask):
+	for oact in [oorder[i] for rank, i in np.argwhere(imask[:,oorder])]:
 		oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] += recv_buf[rbuf_off:rbuf_off+osizes[oact]]
 		rbuf_off += osizes[oact]
 	del recv_buf
-- 
2.43.0


From 18d4547db96ae84a2dc3958a515770cf232aaed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 116/194] fix: multimap arithmetic used an array_wrap signature
 that numpy no longer accepts

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index b7002bb..54a8ecc 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -18,7 +18,7 @@ class ndmaps(np.ndarray):
 	def __repr__(self):
 		return "ndmaps(%s,%s)" % (np.asarray(self), str(self.geometries))
 	def __str__(self): return repr(self)
-	def __array_wrap__(self, arr, context=None):
+	def __array_wrap__(self, arr, context=None, return_scalar=False):
 		return ndmaps(arr, self.geometries)
 	def contig(self): return ndmaps(np.ascontiguousarray(self), self.geometries)
 	@property
-- 
2.43.0


From 87f67a31a8dcfb200fa8ff8a2126a010864685c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 117/194] fix: multimap.full failed for maps with leading
 dimensions

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 54a8ecc..dde82c1 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -118,7 +118,7 @@ def full(geometries, val, dtype=None):
 	omaps= ndmaps(flat, geometries)
 	# Fill with target values
 	for i, map in enumerate(omaps.maps):
-		map[:] = val[...,i]
+		map[:] = val[...,i,None,None]
 	return omaps
 
 def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float64):
-- 
2.43.0


From 178a8408c32151b8cd69929722e6ca63aeeb94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 118/194] fix: multimap lmap, modlmap and pixmap crashed, and
 posmap and modrmap ignored arguments

---
 pixell/multimap.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index dde82c1..1717de1 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -37,11 +37,11 @@ class ndmaps(np.ndarray):
 	@property
 	def maps(self):
 		return _map_view(self)
-	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, corner=corner, separable=separable, dtype=dtype)
+	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, safe=safe, corner=corner, separable=separable, dtype=dtype)
 	def pixmap(self, dtype=np.float64): return pixmap(self.geometries, dtype=dtype)
 	def pixsize(self, dtype=np.float64): return pixsize(self.geometries, dtype=dtype)
 	def lmap(self, oversample=1, dtype=np.float64): return lmap(self.geometries, oversample=oversample, dtype=dtype)
-	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample)
+	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample, dtype=dtype)
 	def modrmap(self, ref="center", safe=True, corner=False, dtype=np.float64): return modrmap(self.geometries, ref=ref, safe=safe, corner=corner, dtype=dtype)
 
 class _map_view:
@@ -127,23 +127,23 @@ def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float
 
 def pixmap(geometries, dtype=np.float64):
 	"""Return a multimap containing the pixel map for the given geometries"""
-	return multimap([enmap.pixmap(*geo, dtype=dtype) for geo in geometries])
+	return multimap([enmap.pixmap(*geo).astype(dtype) for geo in geometries])
 
-def lmap(geometries, dtype=np.float64):
+def lmap(geometries, oversample=1, dtype=np.float64):
 	"""Return a mapmultimap of all the wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.lmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.lmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
-def modlmap(geometries, dtype=np.float64):
+def modlmap(geometries, oversample=1, dtype=np.float64):
 	"""Return a mapmultimap of all the abs wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.modlmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.modlmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
 def modrmap(geometries, ref="center", safe=True, corner=False, dtype=np.float64):
 	"""Return a multimap where each entry is the distance from center
 	of that entry. Results are returned in radians, and if safe is true
 	(default), then sharp coordinate edges will be avoided."""
-	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe).astype(dtype) for geo in geometries])
+	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe, corner=corner).astype(dtype) for geo in geometries])
 
 def pixsize(geometries, dtype=np.float64):
 	return np.array([enmap.pixsize(*geo).astype(dtype) for geo in geometries])
-- 
2.43.0


From 26a46eedd809f568594a7d07272c750cdd787066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 119/194] fix: empty multimaps could not be constructed

---
 pixell/multimap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 1717de1..f072696 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -66,7 +66,7 @@ class _map_view:
 
 def multimap(maps):
 	"""Construct a multimap (ndmaps instance) from a list of enmaps. These must have compatible pre-dimensions."""
-	if len(maps) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(maps) == 0: return ndmaps(np.zeros(0), [])
 	for i, map in enumerate(maps):
 		if map.shape[:-2] != maps[0].shape[:-2]:
 			raise ValueError("Map %d in multimaps constructor has pre-shape %s, incompatible with map 0 with %s" % (i, str(map.shape[:-2]), str(maps[0].shape[:-2])))
@@ -85,14 +85,14 @@ def _geo_helper(geometries):
 
 def zeros(geometries, dtype=np.float64):
 	"""Construct a zero-initialized multimap with the given geometries and data type"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	flat = np.zeros(geometries[0].shape[:-2]+(ntot,), dtype)
 	return ndmaps(flat, geometries)
 
 def empty(geometries, dtype=np.float64):
 	"""Construct an uninitialized multimap with the given geometries and data type"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	flat = np.empty(geometries[0].shape[:-2]+(ntot,), dtype)
 	return ndmaps(flat, geometries)
@@ -103,7 +103,7 @@ def full(geometries, val, dtype=None):
 	geometries[0].shape[:-2]+(len(geometries),). This allows one to initialize each map with a
 	separate constant.
 	"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	# Broadcast val and geometries
 	pre  = geometries[0].shape[:-2]
-- 
2.43.0


From 96a8ddeb8e04fc4a532619b1436a61d620cbd4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 120/194] fix: multimap.harm2map ignored keep_imag

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index f072696..ac221a1 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -231,7 +231,7 @@ def map2harm(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], adjoint_har
 	return multimap([enmap.map2harm(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_harm2map=adjoint_harm2map) for m in mmap.maps])
 
 def harm2map(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False, adjoint_map2harm=False):
-	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
+	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
 
 def map2harm_adjoint(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False):
 	return harm2map(mmap, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=True)
-- 
2.43.0


From 20b830f3a253b73b714638b538e27de74cd435dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 121/194] fix: allgatherv crashed without mpi

---
 pixell/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/mpiutils.py b/pixell/mpiutils.py
index 5d28516..42d6067 100644
--- a/pixell/mpiutils.py
+++ b/pixell/mpiutils.py
@@ -11,7 +11,7 @@ class FakeCommunicator:
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Allgather(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[0] = _unbuf(sendbuf)
-    def Allgatherv(self, sendbuf, redvbuf):
+    def Allgatherv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Alltoallv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
-- 
2.43.0


From 8c9b749fd6d5dc97d4c4e5746dc6e5a2f95ceeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 122/194] fix: sbox_intersect and redistribute used a removed
 numpy name

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 8e3637e..c612ccb 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1580,7 +1580,7 @@ def sbox_intersect(a,b,wrap=0):
 	ndim = a.shape[-2]
 	wrap = np.zeros(ndim,int)+wrap
 	# Loop over all combinations
-	res = np.empty((fa.shape[0],fb.shape[0]),dtype=np.object)
+	res = np.empty((fa.shape[0],fb.shape[0]),dtype=object)
 	for ai, a1 in enumerate(fa):
 		for bi, b1 in enumerate(fb):
 			peraxis = [sbox_intersect_1d(a1[d],b1[d],wrap=wrap[d]) for d in range(ndim)]
-- 
2.43.0


From 0184a1786ece677a7970d445d8ec45d70bccfad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:19 +0000
Subject: [PATCH 123/194] fix: multimap.dct and idct crashed

---
 pixell/multimap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index ac221a1..3c14252 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -202,11 +202,11 @@ def std(mmap):
 	return np.array([np.std(m,(-2,-1)) for m in mmap.maps])
 
 def fft(mmap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=False):
-	if omap is None: omap = mmap*0j
+	if omap is None: omap = mmap*0 if dct else mmap*0j
 	return multimap([enmap.fft(im.astype(om.dtype), omap=om, nthread=nthread, normalize=normalize, adjoint_ifft=adjoint_ifft, dct=dct) for im, om in zip(mmap.maps, omap.maps)])
 
 def ifft(mmap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=False):
-	mmap = utils.ascomplex(mmap)
+	if not dct: mmap = utils.ascomplex(mmap)
 	if omap is None: omap = mmap.copy()
 	return multimap([enmap.ifft(im, omap=om, nthread=nthread, normalize=normalize, adjoint_fft=adjoint_fft, dct=dct) for im, om in zip(mmap.maps, omap.maps)])
 
-- 
2.43.0


From 59159820831805ef965d383b318c6e3f253c801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:19 +0000
Subject: [PATCH 124/194] fix: utils.redistribute mixed up data when tasks had
 several boxes, and with wrapping

---
 pixell/utils.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index c612ccb..eac4b78 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1502,7 +1502,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	# mpi4py can't handle all ways of expressing the same dtype.
 	# this attempts to force the dtype into an equivalent form it can handle
 	dtype  = np.dtype(np.dtype(iarrs[0].dtype).char)
-	preshape = iarrs[0].shape[:-2]
+	preshape = iarrs[0].shape[:-ndim]
 	oshapes= [tuple(sbox_size(b)) for b in oboxes]
 	oarrs  = [np.zeros(preshape+oshape,dtype) for oshape in oshapes]
 	presize= np.prod(preshape,dtype=int)
@@ -1522,11 +1522,12 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	# Set up receive buffer
 	nrecv = np.zeros(len(niarrs), int)
 	all_iboxes = allgatherv(iboxes, comm)
-	rboxes     = sbox_intersect(all_iboxes, oboxes, wrap=wrap)
+	# The boxes must be visited in the same order as when building the send buffer below
+	rboxes     = sbox_intersect(oboxes, all_iboxes, wrap=wrap).T
 	for i1 in range(rboxes.shape[0]):
 		count = 0
 		for i2 in range(rboxes.shape[1]):
-			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2])
+			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2], wrap=wrap)
 			for box in rboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 		nrecv[nimap[i1]] += count*presize
@@ -1540,7 +1541,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	for i1 in range(sboxes.shape[0]):
 		count = 0
 		for i2 in range(sboxes.shape[1]):
-			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2])
+			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2], wrap=wrap)
 			for box in sboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 				sendbuf.append(iarrs[i2][sbox2slice(box)].reshape(-1))
@@ -1555,13 +1556,15 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 
 	# Copy out the result
 	off = 0
-	for i1 in range(rboxes.shape[0]):
+	for task in range(len(niarrs)):
 		for i2 in range(rboxes.shape[1]):
-			for rbox in rboxes[i1,i2]:
-				rshape = tuple(sbox_size(rbox))
-				data   = recvbuf[off:off+np.prod(rshape)*presize]
-				oarrs[i2][sbox2slice(rbox)] = data.reshape(preshape + rshape)
-				off += data.size
+			for i1 in range(rboxes.shape[0]):
+				if nimap[i1] != task: continue
+				for rbox in rboxes[i1,i2]:
+					rshape = tuple(sbox_size(rbox))
+					data   = recvbuf[off:off+np.prod(rshape)*presize]
+					oarrs[i2][sbox2slice(rbox)] = data.reshape(preshape + rshape)
+					off += data.size
 	return oarrs
 
 def sbox_intersect(a,b,wrap=0):
-- 
2.43.0


From ac318e8600f058a869b7273d8bdc85b454974a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:03 +0000
Subject: [PATCH 125/194] fix: sbox_mul selected the wrong elements of reversed
 boxes

---
 pixell/utils.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index eac4b78..70a19b0 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1651,23 +1651,14 @@ def sbox_div(a,b,wrap=0):
 
 def sbox_mul(a,b):
 	"""Find c such that arr[c] = arr[a][b]"""
-	a = sbox_fix(a).copy()
-	b = sbox_fix(b).copy()
-	# It's easiest to implement this for sboxes in normal ordering.
-	# So we will flip a and b as needed, and then flip back the result
-	# if necessary. First compute which  result entries must be flipped.
-	flip = (a[...,2] < 0)^(b[...,2] < 0)
-	# Then flip
-	a[a[...,2]<0] = sbox_flip(a[a[...,2]<0])
-	b[b[...,2]<0] = sbox_flip(b[b[...,2]<0])
-	# Now that everything is in the right order, we combine
+	a = sbox_fix(a)
+	b = sbox_fix(b)
 	c0 = a[...,0] + b[...,0]*a[...,2]
-	c1 = np.minimum(a[...,0] + b[...,1]*a[...,2],a[...,1])
+	# Indexing past the end of a is truncated, as for normal slices
+	b1 = np.where(b[...,2]>0, np.minimum(b[...,1], sbox_size(a)), b[...,1])
+	c1 = a[...,0] + b1*a[...,2]
 	c2 = a[...,2]*b[...,2]
-	res = sbox_fix(np.stack([c0,c1,c2],-1))
-	# Flip back where necessary
-	res[flip] = sbox_flip(res[flip])
-	return res
+	return sbox_fix(np.stack([c0,c1,c2],-1))
 
 def sbox_flip(sbox):
 	sbox = sbox_fix0(sbox)
-- 
2.43.0


From cf3d8c42d619ea418af4929fea4eae6d9492a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:03 +0000
Subject: [PATCH 126/194] fix: sbox functions modified their arguments

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 70a19b0..94c5d54 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1689,7 +1689,7 @@ def sbox_fix0(sbox):
 
 def sbox_fix(sbox):
 	# Ensure that we have a step, setting it to 1 if missing
-	sbox = sbox_fix0(sbox)
+	sbox = np.array(sbox_fix0(sbox))
 	# Make sure our end point is a whole multiple of the step
 	# from the start
 	sbox[...,1] = sbox[...,0] + sbox_size(sbox)*sbox[...,2]
-- 
2.43.0


From 6befdb2e48c4869efe97438b9c682ddc5af1fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:00 +0000
Subject: [PATCH 127/194] fix: reading a one pixel wide fits map garbled its
 first pixel

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 423c27c..52f5f48 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3002,9 +3002,9 @@ class ndmap_proxy_fits(ndmap_proxy):
 		# Note that 'section' is not part of some HDU types, such as CompImageHDU.
 		self.use_section = hasattr(hdu, 'section')
 		if self.use_section:
-			dtype    = fix_endian(hdu.section[(slice(0,1),)*hdu.header["NAXIS"]]).dtype
+			dtype    = fix_endian(np.array(hdu.section[(slice(0,1),)*hdu.header["NAXIS"]])).dtype
 		else:
-			dtype    = fix_endian(hdu.data[(slice(0,1),)*hdu.header["NAXIS"]]).dtype
+			dtype    = fix_endian(np.array(hdu.data[(slice(0,1),)*hdu.header["NAXIS"]])).dtype
 		self.stokes_flips = get_stokes_flips(hdu)
 		def slist(vals):
 			return ",".join([str(v) for v in vals])
-- 
2.43.0


From e65a0235313b83a7d5e13c6fd0789653d1597c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 128/194] fix: sym_expand ignored combined

---
 pixell/powspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index b9d80d9..c6a1998 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -30,9 +30,9 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
 		val = m[i]/2 if combined and w[0]!=w[1] else m[i]
-		res[w[0],w[1]] = m[i]
+		res[w[0],w[1]] = val
 		if w[0] != w[1]:
-			res[w[1],w[0]] = m[i]
+			res[w[1],w[0]] = val
 	return np.rollaxis(np.rollaxis(res, 1, axis), 0, axis)
 
 def sym_expand_camb_full_lens(a):
-- 
2.43.0


From da8197e3748acffaa398215a5988eee270c1a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 129/194] fix: sym_compress and sym_expand mixed up the axes
 unless they came first

---
 pixell/powspec.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index c6a1998..a9ccae7 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -12,12 +12,14 @@ def sym_compress(mat, which=None, n=None, scheme=None, axes=[0,1], combined=Fals
 	elements). The 'axes' argument indicates which axes to operate on."""
 	if n is None: n = mat.shape[axes[0]]*(mat.shape[axes[0]]+1)//2
 	if which==None: which = compressed_order(n, scheme)
-	m = np.rollaxis(np.rollaxis(mat, axes[1]), axes[0])
+	# Careful with negative axes, as the matrix axes will be replaced by a single one
+	axes = [ax%mat.ndim for ax in axes]
+	m = np.moveaxis(mat, axes, [0,1])
 	if combined:
 		res = np.array([m[w[0],w[1]]+m[w[1],w[0]]*(w[1]!=w[0]) for w in which])
 	else:
 		res = np.array([m[w[0],w[1]] for w in which])
-	return np.rollaxis(res, 0, axes[0])
+	return np.moveaxis(res, 0, min(axes))
 
 def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False):
 	"""The inverse of sym_compress. Expands a flat array of numbers
@@ -25,7 +27,8 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	mapping which (or construct one using the given scheme)."""
 	if which==None: which = compressed_order(mat.shape[axis], scheme=scheme)
 	if ncomp==None: ncomp = np.max(which)+1
-	m = np.rollaxis(mat, axis)
+	axis = axis%mat.ndim
+	m = np.moveaxis(mat, axis, 0)
 	shape = [ncomp,ncomp] + list(m.shape[1:])
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
@@ -33,7 +36,7 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 		res[w[0],w[1]] = val
 		if w[0] != w[1]:
 			res[w[1],w[0]] = val
-	return np.rollaxis(np.rollaxis(res, 1, axis), 0, axis)
+	return np.moveaxis(res, [0,1], [axis,axis+1])
 
 def sym_expand_camb_full_lens(a):
 	# This complicated ordering doesn't fit into any of our expansion patterns,
-- 
2.43.0


From aff73c7f00810b756c9472db68758e9aadebf45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 130/194] fix: rand_alm_healpy ignored dtype

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 122826b..198be77 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -56,7 +56,7 @@ def rand_alm_healpy(ps, lmax=None, seed=None, dtype=np.complex128):
 	alm = np.asarray(healpy.synalm(fps, lmax=lmax, new=True))
 	# Produce scalar output for scalar inputs
 	if ps.ndim == 1: alm = alm[0]
-	return alm
+	return alm.astype(dtype, copy=False)
 
 def rand_alm(ps, ainfo=None, lmax=None, seed=None, dtype=np.complex128, m_major=True, return_ainfo=False):
 	"""This is a replacement for healpy.synalm. It generates the random
-- 
2.43.0


From 05deeef15d8fa72425e76f87fe64917af26793f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 131/194] fix: curvedsky.rand_map with verbose crashed unless
 lmax was given

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 198be77..cb7b403 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -27,7 +27,7 @@ def rand_map(shape, wcs, ps, lmax=None, dtype=np.float64, seed=None, spin=[0,2],
 	ps = ps[:ncomp,:ncomp]
 
 	ctype = np.result_type(dtype,0j)
-	if verbose: print("Generating alms with seed %s up to lmax=%d dtype %s" % (str(seed), lmax, np.dtype(ctype).char))
+	if verbose: print("Generating alms with seed %s up to lmax=%s dtype %s" % (str(seed), str(lmax), np.dtype(ctype).char))
 	alm   = rand_alm_healpy(ps, lmax=lmax, seed=seed, dtype=ctype)
 	if verbose: print("Allocating output map shape %s dtype %s" % (str((ncomp,)+shape[-2:]), np.dtype(dtype).char))
 	map   = enmap.empty((ncomp,)+shape[-2:], wcs, dtype=dtype)
-- 
2.43.0


From 12cdf3746fc9ad8aabee4c3f9bd86ab8445312ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 132/194] fix: rand_alm crashed for spectra given as lists

---
 pixell/curvedsky.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index cb7b403..3105619 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -65,6 +65,7 @@ def rand_alm(ps, ainfo=None, lmax=None, seed=None, dtype=np.complex128, m_major=
 	scales. It uses 2/3 of the memory of healpy.synalm, and has comparable
 	speed."""
 	rtype      = np.zeros([0],dtype=dtype).real.dtype
+	ps         = np.asarray(ps)
 	wps, ainfo = prepare_ps(ps, ainfo=ainfo, lmax=lmax)
 	alm = rand_alm_white(ainfo, pre=[wps.shape[0]], seed=seed, dtype=dtype, m_major=m_major)
 	# Scale alms by spectrum, taking into account which alms are complex
-- 
2.43.0


From 7cece7ae3bf6e0fbe417dd4e8ff82aa8fe25042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 133/194] fix: spec2flat_corr modified its input

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 52f5f48..2057199 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1861,7 +1861,7 @@ def spec2flat_corr(shape, wcs, cov, exp=1.0, border="constant"):
 	oshape = cov.shape[:-1] + tuple(shape)[-2:]
 	if cov.ndim == 1: cov = cov[None,None]
 	if exp != 1.0: cov = multi_pow(cov, exp)
-	cov[~np.isfinite(cov)] = 0
+	cov = np.where(np.isfinite(cov), cov, 0)
 	# Convert power spectrum to correlation
 	ext  = extent(shape,wcs)
 	rmax = np.sum(ext**2)**0.5
-- 
2.43.0


From 48ee40d550221af70cf9d0294b6843a496ea858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 134/194] fix: resample_fft shifted what it was adding to when
 accumulating several maps

---
 pixell/enmap.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 2057199..575be2e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3186,18 +3186,21 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	hny, hnx = (cny+1)//2, (cnx+1)//2 # number of non-negative frequencies. Nyquist counts as negative
 	iny, inx = np.array(fimap.shape[-2:])-([cny-hny,cnx-hnx])
 	ony, onx = np.array(oshape[-2:])-([cny-hny,cnx-hnx])
+	# The shift is applied to what we transfer, not to fomap, since that may already
+	# contain something we're adding to
+	shift  = np.any(off != 0)
+	py, px = [np.exp(-2j*np.pi*enfft.fftfreq(n)*o) for n, o in zip(oshape[-2:], off)]
 	# This function is used to avoid paying the cost of multiplying by norm when it's one
-	def transfer(dest, source, norm, op):
+	def transfer(oy, ox, iy, ix):
+		dest, source = fomap[...,oy,ox], fimap[...,iy,ix]
 		if norm != 1: source = source*norm
+		if shift:     source = source*(py[oy,None]*px[ox])
+		if not np.iscomplexobj(dest): source = source.real
 		dest[:] = op(dest, source)
-	transfer(fomap[...,:hny,       :hnx       ],fimap[...,:hny,       :hnx       ], norm, op)
-	transfer(fomap[...,:hny,       onx:       ],fimap[...,:hny,       inx:       ], norm, op)
-	transfer(fomap[...,ony:,       :hnx       ],fimap[...,iny:,       :hnx       ], norm, op)
-	transfer(fomap[...,ony:,       onx:       ],fimap[...,iny:,       inx:       ], norm, op)
-	if np.any(off != 0):
-		# It's fastest to do this here when downsampling, but when upsampling
-		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
-		fomap[:] = enfft.shift(fomap, off, axes=(-2,-1), nofft=True)
+	transfer(slice(0,hny),    slice(0,hnx),    slice(0,hny),    slice(0,hnx))
+	transfer(slice(0,hny),    slice(onx,None), slice(0,hny),    slice(inx,None))
+	transfer(slice(ony,None), slice(0,hnx),    slice(iny,None), slice(0,hnx))
+	transfer(slice(ony,None), slice(onx,None), slice(iny,None), slice(inx,None))
 	return fomap
 
 def spin_helper(spin, n):
-- 
2.43.0


From c4bbc4a6fb50ffda30c477d21dbc5949aca39dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 135/194] fix: flat-sky wavelets used phase-shifted, sometimes
 negative multipoles

---
 pixell/wavelets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 1c954f2..e4d5676 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -385,7 +385,8 @@ class WaveletTransform:
 		"""Get the multipole indices for wavelet scale i. This will be an enmap
 		in if the uht is flat, otherwise it's a 1d array"""
 		if self.uht.mode == "flat":
-			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=True)
+			# These aren't fourier coefficients, so don't phase shift them
+			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=False)
 		else:
 			return self.uht.l
 	def get_variance_transform(self):
-- 
2.43.0


From b9c0e86aa181860de2b3faaece0a97a668ffe958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 136/194] fix: WaveletTransform.wcs returned the shape

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index e4d5676..134c42b 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -299,7 +299,7 @@ class WaveletTransform:
 	@property
 	def shape(self): return self.uht.shape
 	@property
-	def wcs(self): return self.uht.shape
+	def wcs(self): return self.uht.wcs
 	@property
 	def geometry(self): return self.shape, self.wcs
 	@property
-- 
2.43.0


From acca87d4f0b586775318aefb35069e927e2b6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 137/194] fix: flat-sky map2wave ignored fill_value

---
 pixell/wavelets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 134c42b..783e24c 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -338,8 +338,7 @@ class WaveletTransform:
 					owave.maps[i] = enmap.ifft(fsmall, normalize=False).real
 				else:
 					owave.maps[i] = enmap.zeros(shape,wcs)
-					if fill_value is not None: owave.maps[i][:] = np.nan
-					
+					if fill_value is not None: owave.maps[i][:] = fill_value
 		else:
 			ainfo = curvedsky.alm_info(lmax=self.basis.lmax)
 			alm   = curvedsky.map2alm(map, ainfo=ainfo)
-- 
2.43.0


From 340f5c0a68bb897daf8feb150b6196102ff907b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 138/194] fix: UHT.harm2map_adjoint ignored spin on the curved
 sky

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 285dcd7..72602eb 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -106,7 +106,7 @@ class UHT:
 		if self.mode == "flat":
 			return enmap.harm2map_adjoint(map, spin=spin, normalize="phys")
 		else:
-			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo)
+			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo, spin=spin)
 	def map2harm_adjoint(self, harm, spin=0):
 		if self.mode == "flat":
 			return enmap.map2harm_adjoint(harm, spin=spin, normalize="phys")
-- 
2.43.0


From 46e21d4d6aca10fef636b4ac8672765772ba205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 139/194] fix: harm2profile_flat_2d did not return the radii

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 72602eb..2f961e8 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -252,7 +252,7 @@ def harm2profile_flat_2d(harm, r=None):
 	cpos = bmap.pix2sky(cpix)
 	bmap = enmap.shift(bmap, cpix, keepwcs=True)
 	wbr, wr = bmap.rbin(center=cpos)
-	if r is None: return wbr, r
+	if r is None: return wbr, wr
 	else:         return utils.interp(r, wr, wbr, right=0)
 
 def beam2res(br, r):
-- 
2.43.0


From 6f14c2cb827cca3310ca337127e8d28b69d31c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:06 +0000
Subject: [PATCH 140/194] fix: flat-sky UHT.hrand drew from the wrong spectrum
 and only worked for square scalar maps

---
 pixell/uharm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 2f961e8..122c5b2 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -166,8 +166,10 @@ class UHT:
 	def hrand(self, hprof):
 		"""Draw a random realization of the harmonic profile hprof"""
 		if self.mode == "flat":
-			noise = enmap.rand_gauss_harm(self.shape, self.wcs)
-			return enmap.map_mul(enmap.multi_pow(hprof/noise.pixsize(),0.5), noise)
+			# Normalized like map2harm, so the mean of harm2powspec will be hprof
+			noise = enmap.fft(enmap.rand_gauss(hprof.shape[1:-2]+tuple(self.shape), self.wcs))
+			if hprof.ndim == 2: return hprof**0.5 * noise
+			else:               return enmap.map_mul(enmap.multi_pow(hprof,0.5), noise)
 		else:
 			return curvedsky.rand_alm(hprof, lmax=self.lmax)
 	def harm2powspec(self, harm, harm2=None, patch=False):
-- 
2.43.0


From 0328fac0d4a61ad57aa2192db1d4499ab3d0b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 141/194] fix: the last cosine needlet was zero at its peak

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 783e24c..2614222 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -144,7 +144,7 @@ class CosineNeedlet:
 	def n(self): return len(self.lpeaks)
 	def __call__(self, i, l):
 		lpeaki = self.lpeaks[i]
-		out = l*0.
+		out = np.where(l==lpeaki, 1., 0.)
 		if i>0:
 			lpeakim1 = self.lpeaks[i-1]
 			sel1 = np.logical_and(l>=lpeakim1,l<lpeaki)
-- 
2.43.0


From c69b4906b77c7df3d7a75f24ce1e5fa25de89e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:20 +0000
Subject: [PATCH 142/194] fix: UHT.hprof2harm did not work on the curved sky
 because alm_info.get_map was missing

---
 pixell/curvedsky.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 3105619..9912dc5 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -434,7 +434,13 @@ class alm_info:
 		return (self.mstart[m].astype(int, copy=False)+l*self.stride).astype(int, copy=False)
 	def get_map(self):
 		"""Return the explicit [nelem,{l,m}] mapping this alm_info represents."""
-		raise NotImplementedError
+		res = np.zeros((self.nelem,2), int)
+		for m in range(self.mmax+1):
+			l    = np.arange(m, self.lmax+1)
+			inds = self.lm2ind(l, m)
+			res[inds,0] = l
+			res[inds,1] = m
+		return res
 	def transpose_alm(self, alm, out=None):
 		"""In order to accomodate l-major ordering, which is not directly
 		supported, this function efficiently transposes Alm into
-- 
2.43.0


From 864b73effa2424df612b198cf76eb689b4d03bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:20 +0000
Subject: [PATCH 143/194] fix: WaveletTransform crashed when given an explicit
 resolution

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 2614222..83295a9 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -285,7 +285,7 @@ class WaveletTransform:
 			if ores is None:
 				oress = np.maximum(np.pi/self.basis.lmaxs, ires)
 			else:
-				oress = np.zeros(self.nlevel)+ores
+				oress = np.zeros(self.basis.n)+ores
 			# Build the geometries for each wavelet scale
 			if uht.mode == "flat":
 				self.geometries = [make_wavelet_geometry_flat(uht.shape, uht.wcs, ires, ores) for ores in oress[:-1]] + [(uht.shape, uht.wcs)]
-- 
2.43.0


From e1a2e841707d3db1bb3b485ec3cad6a0d671b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:20 +0000
Subject: [PATCH 144/194] fix: wavelet levels without any modes in the map gave
 nan

---
 pixell/wavelets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 83295a9..fffa9cf 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -412,6 +412,8 @@ class WaveletTransform:
 			F    = self.basis(i, ls)
 			W    = F**2*(2*ls+1)/(4*np.pi)
 		Wtot = np.sum(W)
+		# Levels without any modes in the map don't contribute
+		if Wtot == 0: return F, 1.0, 0.0
 		norm = Wtot**0.5
 		lmid = np.sum(W*ls)/Wtot
 		return F, norm, lmid
-- 
2.43.0


From 3bb9381ae73bec90ad5fe0dd1487d88f429db344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:44 +0000
Subject: [PATCH 145/194] fix: pixshapebounds mixed up heights and widths for
 non-cylindrical maps

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 575be2e..d6541dc 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1196,7 +1196,7 @@ def pixshapebounds(shape, wcs, separable="auto"):
 	if separable == True or (separable == "auto" and wcsutils.is_separable(wcs)):
 		return utils.minmax(pixshapes_cyl(shape, wcs),1)
 	else:
-		return utils.minmax(pixshapemap(shape, wcs))
+		return utils.minmax(pixshapemap(shape, wcs),(-2,-1))
 
 def lmap(shape, wcs, oversample=1, method="auto"):
 	"""Return a map of all the wavenumbers in the fourier transform
-- 
2.43.0


From 075c0fd6304cb42250525fa3a4d2611059133d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:18 +0000
Subject: [PATCH 146/194] fix: calc_beam_area, and with it the source
 modellers, needed a function scipy has removed

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 94c5d54..e436bfc 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2307,7 +2307,7 @@ def calc_beam_area(beam_profile):
 	r is in radians, b should have a peak of 1.."""
 	from scipy import integrate
 	r, b = beam_profile
-	return integrate.simps(2*np.pi*r*b,r)
+	return integrate.simpson(2*np.pi*r*b,x=r)
 
 def planck(f, T=T_cmb):
 	"""Return the Planck spectrum at the frequency f and temperature T in Jy/sr"""
-- 
2.43.0


From e5f09274522e846778517448a92782cbf01760a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:18 +0000
Subject: [PATCH 147/194] fix: NmatWavelet.matched_filter crashed, and
 phase-shifted the beam

---
 pixell/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 4a0c9cf..2444006 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -114,7 +114,7 @@ print("%-15s %8.3f %8.3f %8.3f" % ("lowcorr full emp", flux, dflux, flux/dflux))
 
 import numpy as np, time
 from scipy import ndimage
-from . import enmap, utils, uharm, wavelets, bunch
+from . import enmap, utils, uharm, wavelets, bunch, multimap
 
 # TODO: Figure out the proper way to handle fourier-space
 # linear operators. Currently I have a mess of map2harm, harm2map
@@ -494,7 +494,7 @@ class NmatWavelet(Nmat):
 		# Then get kappa
 		fkappa = enmap.zeros(self.wiN.pre + map.shape[-2:], map.wcs, utils.complex_dtype(map.dtype))
 		for i in range(self.wt.nlevel):
-			sub_Q  = self.wt.filters[i]*enmap.resample_fft(beam, self.wt.geometries[i][0], norm=None, corner=True)
+			sub_Q  = self.wt.filters[i]*enmap.resample_fft(beam, self.wt.geometries[i][0], norm=None, corner=False)
 			# Is it right to do this component-wise?
 			sub_Q2 = rop(sub_Q, op=lambda a: a[:,None]*a[None,:])
 			fsmall = sub_Q2*enmap.fft(self.wiN.maps[i], normalize=False)/self.wiN.npixs[i]
-- 
2.43.0


From 339bfa033a45d442bab4a5668f61b872bdace914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:19 +0000
Subject: [PATCH 148/194] fix: MeasurerMulti used the wrong measurer when some
 cases were missing

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 2444006..fb581b5 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -938,7 +938,7 @@ class MeasurerMulti(Measurer):
 		for i, ca in enumerate(uvals):
 			subicat = icat[order[edges[i]:edges[i+1]]]
 			if len(subicat) == 0: continue
-			subocat = self.measurers[i](map, subicat).cat
+			subocat = self.measurers[ca](map, subicat).cat
 			cat[order[edges[i]:edges[i+1]]] = subocat
 		return bunch.Bunch(cat=cat)
 
-- 
2.43.0


From b5a217ded10923831e5a0774407452e30aa0ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:19 +0000
Subject: [PATCH 149/194] fix: simulating from noise models needed a module
 outside pixell

---
 pixell/analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index fb581b5..b370682 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -1116,10 +1116,9 @@ def get_ref(a, tol=1e-3, default=0, n=1000):
 	return ref
 
 def safe_pow(N, pow, bad_tol=1e-3):
-	from enlib import array_ops
 	v   = np.einsum("aa...->a...", N)
 	ref = np.array([get_ref(vi) for vi in v])
-	return array_ops.eigpow(N, pow, axes=[0,1], lim0=ref*bad_tol)
+	return enmap.samewcs(utils.eigpow(N, pow, axes=[0,1], alim=np.min(ref)*bad_tol), N)
 
 def make_circle_labels(shape, wcs, pixs, inds=None, r=2*utils.arcmin):
 	if inds is None: inds = np.arange(1,len(pixs[0])+1)
-- 
2.43.0


From 5e1a4e1b412cfa632b0aa154536d495fc5753b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:19 +0000
Subject: [PATCH 150/194] fix: cache_get never stored anything in an empty
 cache

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e436bfc..7e699df 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3470,7 +3470,7 @@ def glob(desc):
 	else: return res
 
 def cache_get(cache, key, op):
-	if not cache: return op()
+	if cache is None: return op()
 	if key not in cache:
 		cache[key] = op()
 	return cache[key]
-- 
2.43.0


From 2708d10529815129aa33b960e79e721b3b3a832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:29 +0000
Subject: [PATCH 151/194] fix: solve_mapsys, and with it the source finders and
 measurers, crashed with numpy 2

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index b370682..301f3c4 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -1055,7 +1055,7 @@ def solve_mapsys(kappa, rho):
 		dflux = kappa**-0.5
 	else:
 		# Check if this is slow
-		flux  = enmap.samewcs(np.linalg.solve(kappa.T, rho.T).T, rho)
+		flux  = enmap.samewcs(np.linalg.solve(kappa.T, rho.T[...,None])[...,0].T, rho)
 		dflux = enmap.samewcs(np.einsum("aayx->ayx",np.linalg.inv(kappa.T).T)**0.5, kappa)
 	return flux, dflux
 
-- 
2.43.0


From db33143903a6cac2ea34a30264fb87c9c2450f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:49 +0000
Subject: [PATCH 152/194] fix: lowcorr matched filter with high_acc crashed for
 multi-component maps with a common ivar

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 301f3c4..81fd6b1 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -258,7 +258,7 @@ def matched_filter_constcorr_lowcorr(map, B, ivar, iC, uht=None, B2=None, high_a
 		u    = map*0; u[...,pix[0],pix[1]] = 1
 		kappa_ii = (uht.harm2map(uht.hmul(B,uht.harm2map_adjoint(V*uht.map2harm_adjoint(uht.hmul(iC,uht.map2harm(V*uht.harm2map(uht.hmul(B,uht.map2harm(u/pixarea)))))))))/pixarea)[...,pix[0],pix[1]]
 		alpha  = kappa[...,pix[0],pix[1]]/kappa_ii
-		kappa /= alpha[...,None,None]
+		kappa  = kappa/alpha[...,None,None]
 
 	return rho, kappa
 
-- 
2.43.0


From 56cfae0f5a86a1cb950f021907cd26faf98c1279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:49 +0000
Subject: [PATCH 153/194] fix: finders for several kinds of objects crashed
 with the default scaling

---
 pixell/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 81fd6b1..12de0ea 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -613,6 +613,7 @@ class FinderMulti(Finder):
 		cache = {}
 		snr_tot, rho, kappa, rho_tot, kappa_tot, case = None, None, None, None, None, None
 		for ca, (beam, scaling) in enumerate(zip(self.beams, self.scalings)):
+			scaling = np.zeros(ncomp, map.dtype)+scaling
 			def f():
 				rho, kappa = self.nmat.matched_filter(map, beam, cache=cache)
 				kappa      = sanitize_kappa(kappa)
@@ -721,6 +722,7 @@ class FinderMultiSafe(Finder):
 		snr_tot, cases = None, None
 		snrs, fluxs_tot, dfluxs_tot, fluxs, dfluxs = [], [], [], [], []
 		for ca, (beam, scaling) in enumerate(zip(self.beams, self.scalings)):
+			scaling = np.zeros(ncomp, map.dtype)+scaling
 			def f():
 				rho, kappa = self.nmat.matched_filter(map, beam, cache=cache)
 				kappa      = sanitize_kappa(kappa)
-- 
2.43.0


From 623d0ac0a0b9726cf0f86176078d97bb5f7d0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:58 +0000
Subject: [PATCH 154/194] fix: partial_flatten crashed for empty arrays

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 7e699df..e2226c2 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -464,7 +464,7 @@ def partial_flatten(a, axes=[-1], pos=0):
 	# Move the selected axes first
 	a = moveaxes(a, axes, range(len(axes)))
 	# Flatten all the other axes
-	a = a.reshape(a.shape[:len(axes)]+(-1,))
+	a = a.reshape(a.shape[:len(axes)]+(int(np.prod(a.shape[len(axes):])),))
 	# Move flattened axis to the target position
 	return np.moveaxis(a, -1, pos)
 
-- 
2.43.0


From 9a4f63e4055c31ff6fbfe70d318450a827f0fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 155/194] fix: dedup and range_sub of empty arrays

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e2226c2..37ff604 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -531,7 +531,7 @@ class nowarn:
 def dedup(a):
 	"""Removes consecutive equal values from a 1d array, returning the result.
 	The original is not modified."""
-	return a[np.concatenate([[True],a[1:]!=a[:-1]])]
+	return a[np.concatenate([[True],a[1:]!=a[:-1]])[:len(a)]]
 
 def interpol(arr, inds, out=None, mode="spline", border="nearest",
 		order=3, cval=0.0, epsilon=None, ip=None):
-- 
2.43.0


From da0310946e267ef22a40c0a508b2bfb163feac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 156/194] fix: find_any without any values to look for

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 37ff604..2cca313 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -106,7 +106,7 @@ def streq(x, s):
 
 def find(array, vals, default=None):
 	"""Return the indices of each value of vals in the given array."""
-	if np.asarray(vals).size == 0: return []
+	if np.asarray(vals).size == 0: return np.zeros(np.shape(vals),int)
 	array   = np.asarray(array)
 	order   = np.argsort(array)
 	cands   = np.minimum(np.searchsorted(array, vals, sorter=order),len(array)-1)
-- 
2.43.0


From b54dd1afee9c9c06fdd9b0bcb7cc2ee75fd25f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 157/194] fix: contains with an empty list of values

---
 pixell/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 2cca313..09eba9d 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -147,6 +147,7 @@ def contains(array, vals):
 	for any element in array that is also in vals, and False otherwise."""
 	array = np.asarray(array)
 	vals  = np.asarray(vals)
+	if vals.size == 0: return np.zeros(array.shape, bool)
 	vals  = np.sort(vals)
 	inds  = np.searchsorted(vals, array)
 	# If a value would be inserted after the end, it wasn't
-- 
2.43.0


From 6f9d5f9847ffd8073db8a5c2a99b61b32585762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 158/194] fix: nearest_ind in arrays with a single element

---
 pixell/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 09eba9d..d3768fe 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -130,6 +130,7 @@ def nearest_ind(arr, vals, sorted=False):
 		order = np.argsort(arr)
 		arr   = arr[order]
 	inds = np.searchsorted(arr, vals)
+	if len(arr) == 1: return np.zeros_like(inds)
 	# The closest one will be either arr[i-1] or arr[i]. Simply check both.
 	# Cap to 1 below to handle edge case. Still correct.
 	inds = np.clip(inds, 1, len(arr)-1)
-- 
2.43.0


From 93543237d382d7de76c3d89eca9b180bc318082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 159/194] fix: box_slice of boxes that aren't 2-dimensional

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index d3768fe..0f1b0df 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1311,7 +1311,7 @@ def box_slice(a, b):
 	fa = a.reshape(-1,2,a.shape[-1])
 	fb = b.reshape(-1,2,b.shape[-1])
 	s  = np.minimum(np.maximum(0,fb[None,:]-fa[:,None,0,None]),fa[:,None,1,None]-fa[:,None,0,None])
-	return s.reshape(a.shape[:-2]+b.shape[:-2]+(2,2))
+	return s.reshape(a.shape[:-2]+b.shape[:-2]+s.shape[-2:])
 
 def box_area(a):
 	"""Compute the area of a [{from,to},ndim] box, or an array of such boxes."""
-- 
2.43.0


From 64f2311b0abc21219a595d3813c954e49abda645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 160/194] fix: unwrap_range overwrote its argument

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 0f1b0df..dbb2d91 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1355,7 +1355,7 @@ def unwrap_range(range, nwrap=2*np.pi):
 	doesn't assume that ranges are shorter than half the
 	sky. But it still shortens ranges that are longer than
 	a whole wrapping period."""
-	range = np.asanyarray(range)
+	range = np.array(range, subok=True)
 	range[1] -= np.floor((range[1]-range[0])/nwrap)*nwrap
 	range    -= np.floor(range[1,None]/nwrap)*nwrap
 	return range
-- 
2.43.0


From c7b0bda90abd23dfe402cb89e194efd9602d7d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 161/194] fix: addaxes and delaxes with current numpy

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index dbb2d91..f318ec4 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -486,7 +486,7 @@ def addaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds.insert(ax, None)
-	return a[inds]
+	return a[tuple(inds)]
 
 def delaxes(a, axes):
 	axes = np.array(axes,int)
@@ -494,7 +494,7 @@ def delaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds[ax] = 0
-	return a[inds]
+	return a[tuple(inds)]
 
 class flatview:
 	"""Produce a read/writable flattened view of the given array,
-- 
2.43.0


From eb081d99586d08c7c6f1eaff75f8927ddcc50083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 162/194] fix: preflat with negative n

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index f318ec4..b880938 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1127,7 +1127,7 @@ def preflat(a, n):
 	"""Flatten the first n dimensions of a. If n is negative,
 	flatten all but the last -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape((-1,)+a.shape[n:])
 
 def postflat(a, n):
-- 
2.43.0


From c97aedfd98bfda73ddee3c989e3b10a944643cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 163/194] fix: split_esc lost escaped escapes and a final empty
 token

---
 pixell/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index b880938..1a939d3 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3526,12 +3526,11 @@ def split_esc(string, delim, esc='\\'):
 	one as an iterator."""
 	if len(delim) != 1: raise ValueError("delimiter must be one character")
 	if len(esc)   != 1: raise ValueError("escape character must be one character")
-	if len(string) == 0: yield ""
 	inesc = False
 	ostr  = ""
 	for i, c in enumerate(string):
 		if inesc:
-			if c != esc: ostr += c
+			ostr += c
 			inesc = False
 		elif c == esc:
 			inesc = True
@@ -3540,8 +3539,7 @@ def split_esc(string, delim, esc='\\'):
 			ostr = ""
 		else:
 			ostr += c
-	if len(ostr) > 0:
-		yield ostr
+	yield ostr
 
 def getenv(name, default=None):
 	"""Return the value of the named environment variable, or default if it's not set"""
-- 
2.43.0


From ccfeb167a4cf0dc9e9a7232cea4b83ccb1adeae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 164/194] fix: bin_expand with leading dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1a939d3..acecce8 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2537,7 +2537,7 @@ def bin_data(bins, d, op=np.mean):
 def bin_expand(bins, bdata):
 	res = np.zeros(bdata.shape[:-1]+(bins[-1,1],),bdata.dtype)
 	for bi, b in enumerate(bins):
-		res[...,b[0]:b[1]] = bdata[...,bi]
+		res[...,b[0]:b[1]] = bdata[...,bi,None]
 	return res
 
 def is_int_valued(a): return a%1 == 0
-- 
2.43.0


From 54b40115d2a7738d17b398f9c6781f889551e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 165/194] fix: last edge in bins2edges

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index acecce8..40abb61 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2482,7 +2482,7 @@ def edges2bins(edges):
 	return res
 
 def bins2edges(bins):
-	return np.concatenate([bins[:,0],bins[1,-1:]])
+	return np.concatenate([bins[:,0],bins[-1,1:]])
 
 def linbin(n, nbin=None, nmin=None, bsize=None):
 	"""Given a number of points to bin and the number of approximately
-- 
2.43.0


From e121429374c5881150844a615df85bc0f9326066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 166/194] fix: label_multi gave different values the same label

---
 pixell/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 40abb61..484edc5 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2024,12 +2024,10 @@ def label_multi(valss):
 
 	Example: label_multi([[0,0,1,1,2],["a","b","b","b","b"]]) → [0,1,2,2,3]"""
 	oinds = 0
-	nprev = 1
 	for vals in valss:
 		# remap arbitrary values in vals to integers in inds
 		uvals, inds = np.unique(vals, return_inverse=True)
-		oinds = oinds*nprev + inds
-		nprev = len(uvals)
+		oinds = oinds*len(uvals) + inds
 	# At this point oinds has unique indices, but there could be gaps.
 	# Remove those
 	oinds = np.unique(oinds, return_inverse=True)[1]
-- 
2.43.0


From 0e1cd84e13cf0d32a2b84d645c2384875405525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 167/194] fix: ndigit of single-digit numbers

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 484edc5..e6cd4d1 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2735,7 +2735,7 @@ class Printer:
 
 def ndigit(num):
 	"""Returns the number of digits in non-negative number num"""
-	with nowarn(): return np.int32(np.floor(np.maximum(1,np.log10(num))))+1
+	with nowarn(): return np.int32(np.floor(np.log10(np.maximum(1,num))))+1
 
 def contains_any(a, bs):
 	"""Returns true if any of the strings in list bs are found
-- 
2.43.0


From 213320de6504e5172ad9244419debccfc99411e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:31 +0000
Subject: [PATCH 168/194] fix: widen_box shrank descending boxes in relative
 mode

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e6cd4d1..6899450 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1328,7 +1328,7 @@ def box_overlap(a, b):
 def widen_box(box, margin=1e-3, relative=True):
 	box = np.asarray(box)
 	margin = np.zeros(box.shape[1:])+margin
-	if relative: margin = (box[1]-box[0])*margin
+	if relative: margin = np.abs(box[1]-box[0])*margin
 	margin = np.asarray(margin) # Support 1d case
 	margin[box[0]>box[1]] *= -1
 	return np.array([box[0]-margin/2, box[1]+margin/2])
-- 
2.43.0


From 564b6d2dad55a6f5e9982657a19b408c9c08f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:31 +0000
Subject: [PATCH 169/194] fix: same_array never recognized an array

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 6899450..ccdc054 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1149,7 +1149,7 @@ def hasoff(val, off, tol=1e-6):
 
 def same_array(a, b):
 	"""Returns true if a and b are the same array"""
-	return a.shape == b.shape and a.dtype == b.dtype and repr(a.data) == repr(b.data) and a.strides == b.strides
+	return a.shape == b.shape and a.dtype == b.dtype and a.ctypes.data == b.ctypes.data and a.strides == b.strides
 
 def fix_zero_strides(a):
 	"""Given an array a, return the same array with any zero-stride along
-- 
2.43.0


From 83d5768605445a054cef9d5760752463c4a9a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:31 +0000
Subject: [PATCH 170/194] fix: complement_inds of an empty list

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ccdc054..16286dd 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -206,7 +206,7 @@ def complement_inds(inds, n):
 	E.g. complement_inds([0,2,4],7) => [1,3,5,6]"""
 	if inds is None: inds = np.arange(n)
 	mask = np.ones(n, bool)
-	mask[np.array(inds)] = False
+	mask[np.array(inds,int)] = False
 	return np.where(mask)[0]
 
 def unmask(arr, mask, axis=0, fill=0):
-- 
2.43.0


From 1448c7cd3de78e44d0965a979ff88887c47e9e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:48 +0000
Subject: [PATCH 171/194] fix: expbin never finished when the last bin was too
 small

---
 pixell/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 16286dd..c0c0a3b 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2505,11 +2505,11 @@ def expbin(n, nbin=None, nmin=8, nmax=0):
 	tmp  = np.array(np.exp(np.arange(nbin+1)*np.log(n+1)/nbin)-1,dtype=int)
 	fixed = [tmp[0]]
 	i = 0
-	while i < nbin:
-		for j in range(i+1,nbin+1):
-			if tmp[j]-tmp[i] >= nmin:
-				fixed.append(tmp[j])
-				i = j
+	for j in range(1,nbin+1):
+		if tmp[j]-tmp[i] >= nmin:
+			fixed.append(tmp[j])
+			i = j
+	if len(fixed) == 1: fixed.append(n)
 	# Optionally split too large bins
 	if nmax:
 		tmp = [fixed[0]]
-- 
2.43.0


From 9d8363b9f2af44461a50deded861f992217b4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:55 +0000
Subject: [PATCH 172/194] fix: medmean was nan when there was nothing to cut

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index c0c0a3b..b71b46f 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -351,7 +351,7 @@ def medmean(x, axis=None, frac=0.5):
 	else:            x = np.moveaxis(x, axis, -1)
 	x = np.sort(x, -1)
 	i = int(x.shape[-1]*frac)//2
-	return np.mean(x[...,i:-i],-1)
+	return np.mean(x[...,i:x.shape[-1]-i],-1)
 
 def medmean2(x, axis=None, frac=0.1, bsize=None):
 	"""This is what medmean should have bean. This should be faster and have
-- 
2.43.0


From da391ff997792cccbc1b8782a851595daebc5995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:55 +0000
Subject: [PATCH 173/194] fix: medmean2 of short arrays

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index b71b46f..9cbe197 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -361,7 +361,7 @@ def medmean2(x, axis=None, frac=0.1, bsize=None):
 	if axis is None:
 		x    = x.reshape(-1)
 		axis = 0
-	if bsize is None: bsize = nint(x.shape[axis]*frac)
+	if bsize is None: bsize = max(1,nint(x.shape[axis]*frac))
 	means = block_reduce(x, bsize, axis=axis)
 	return np.median(means, axis=axis)
 
-- 
2.43.0


From 74485aae83a236d4aeb05a8be6154e013f750d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:55 +0000
Subject: [PATCH 174/194] fix: solve for vectors with numpy 2, and masked solve
 overwrote b

---
 pixell/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 9cbe197..fa5dccd 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2552,12 +2552,17 @@ def solve(A, b, axes=[-2,-1], masked=False):
 	baxes = axes if A.ndim == b.ndim else [axes[0]%A.ndim]
 	fA = partial_flatten(A, axes)
 	fb = partial_flatten(b, baxes)
+	# numpy 2 treats everything but 1d arrays as matrices
+	def raw_solve(A, b):
+		if len(baxes) == 1: return np.linalg.solve(A, b[...,None])[...,0]
+		else:               return np.linalg.solve(A, b)
 	if masked:
 		mask = fA[...,0,0] != 0
+		fb   = fb.copy()
 		fb[~mask] = 0
-		fb[mask]  = np.linalg.solve(fA[mask],fb[mask])
+		fb[mask]  = raw_solve(fA[mask],fb[mask])
 	else:
-		fb = np.linalg.solve(fA,fb)
+		fb = raw_solve(fA,fb)
 	return partial_expand(fb, b.shape, baxes)
 
 def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
-- 
2.43.0


From eb00f859d44258db70ac48f882ddb76a63325ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:55 +0000
Subject: [PATCH 175/194] fix: point_in_polygon transposed its result

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index fa5dccd..d20fa72 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2131,7 +2131,7 @@ def point_in_polygon(points, polys):
 		with nowarn():
 			x = -y1*(x2-x1)/(y2-y1) + x1
 		ncross += ((y1*y2 < 0) & (x > 0)).T
-	return ncross.T % 2 == 1
+	return ncross % 2 == 1
 
 def poly_edge_dist(points, polygons):
 	"""Given points [...,2] and a set of polygons [...,nvertex,2], return
-- 
2.43.0


From 9bc9daf568264928f83bbcd5f78dc860e4d7b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:55 +0000
Subject: [PATCH 176/194] fix: regularize_beam normalized its argument in place

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index d20fa72..90b0edf 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1060,7 +1060,7 @@ def regularize_beam(beam, cutoff=1e-2, nl=None, normalize=False):
 	that the ratio of any pair of such regularized beams is
 	constant in the extrapolated region."""
 	beam  = np.asarray(beam)
-	if normalize: beam /= np.max(beam)
+	if normalize: beam = beam/np.max(beam)
 	# Get the length of the output beam, and the l to which both exist
 	if nl is None: nl = beam.shape[-1]
 	nl_both = min(nl, beam.shape[-1])
-- 
2.43.0


From f17f72e2d9fe0155e561825c91cfe857f00c77c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:11 +0000
Subject: [PATCH 177/194] fix: eigpow's relative limit with several leading
 dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 90b0edf..d951704 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2601,7 +2601,7 @@ def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
 		if e < 0:
 			aE = np.abs(E)
 			if A.ndim > 2:
-				mask |= (aE < np.max(aE,1)[:,None]*rlim) | (aE < alim)
+				mask |= (aE < np.max(aE,-1)[...,None]*rlim) | (aE < alim)
 			else:
 				mask |= (aE < np.max(aE)*rlim) | (aE < alim)
 		E[~mask] **= e
-- 
2.43.0


From ef6cce2b777ce22b28a1ea2c95831568745ef45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:22 +0000
Subject: [PATCH 178/194] fix: FFTLog with krange

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index d951704..c305b67 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3040,7 +3040,7 @@ class FFTLog:
 		for power laws. See https://jila.colorado.edu/~ajsh/FFTLog"""
 		if xrange is None and krange is None: raise ValueError("Either xrange xor krange must be given")
 		if xrange is not None and krange is not None: raise ValueError("Either xrange xor krange must be given")
-		if xrange is None: xrange = krange[::-1]
+		if xrange is None: xrange = [1/krange[1],1/krange[0]]
 		self.step = (np.log(xrange[1])-np.log(xrange[0]))/(n-1)
 		self.pad  = pad
 		self.n    = n
-- 
2.43.0


From 1a6c0cb37ee43832cc1e105d269ba28c86a10339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:15 +0000
Subject: [PATCH 179/194] fix: enmap.overlap should not modify the pixbox it is
 given, and should accept a list

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index d6541dc..7b70076 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -736,7 +736,7 @@ def overlap(shape, wcs, shape2_or_pixbox, wcs2=None, wrap="auto"):
 	# Is it a shape or a pixbox
 	tmp = np.asarray(shape2_or_pixbox)
 	if   tmp.ndim == 1: pixbox = pixbox_of(wcs, shape2_or_pixbox, wcs2)
-	elif tmp.ndim == 2: pixbox = shape2_or_pixbox
+	elif tmp.ndim == 2: pixbox = np.array(shape2_or_pixbox)
 	else: raise ValueError("3rd argument of overlap should be an enmap, a shape tuple or a pixbox")
 	# Handle wrapping
 	nphi = utils.nint(360/np.abs(wcs.wcs.cdelt[0]))
-- 
2.43.0


From 0691759b8d8fe6c3591a56ed13157a7f87c3747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:46 +0000
Subject: [PATCH 180/194] fix: utils.postflat with negative n should flatten
 all but the first -n dimensions

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index c305b67..516ca2d 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1132,9 +1132,9 @@ def preflat(a, n):
 
 def postflat(a, n):
 	"""Flatten the last n dimensions of a. If n is negative,
-	flatten all but the last -n dimensions."""
+	flatten all but the first -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape(a.shape[:a.ndim-n]+(-1,))
 
 def between_angles(a, range, period=2*np.pi):
-- 
2.43.0


From e09c0a6494b9de74942ec4cb076e161abebc0c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:21 +0000
Subject: [PATCH 181/194] fix: lens_map_curved rotates each component according
 to the spin argument

---
 pixell/lensing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index c4ac6ac..03f873f 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -226,7 +226,9 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		cmb_obs[...,i1:i2,:] = curvedsky.alm2map_pos(cmb_alm, raw_pos[:2], spin=spin)
 		if raw_pos.shape[0] > 2 and np.any(raw_pos[2]):
 			if verbose: print("Rotating polarization")
-			cmb_obs[...,i1:i2,:] = enmap.rotate_pol(cmb_obs[...,i1:i2,:], raw_pos[2])
+			# Each group of components must be rotated according to its own spin
+			for s, c1, c2 in enmap.spin_helper(spin, shape[-3]):
+				if s != 0: cmb_obs[...,i1:i2,:] = enmap.rotate_pol(cmb_obs[...,i1:i2,:], raw_pos[2], comps=[c1,c2-1], spin=s)
 		del raw_pos
 
 	del cmb_alm, phi_alm
-- 
2.43.0


From 481029162a577734293c3fb06facab8938301451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:16 +0000
Subject: [PATCH 182/194] fix: read_fits_header reads the whole header, not
 just its first block

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 7b70076..f0e8e6d 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2823,10 +2823,10 @@ def read_fits_header(fname, hdu=None, quick=True):
 		# Read header only, without body
 		if isinstance(fname, str):
 			with open(fname, "rb") as ifile:
-				header = astropy.io.fits.Header.fromstring(ifile.read(2880))
+				header = astropy.io.fits.Header.fromfile(ifile)
 		else:
 			# Handle the case where the user already has a file object
-			header = astropy.io.fits.Header.fromstring(fname.read(2880))
+			header = astropy.io.fits.Header.fromfile(fname)
 	else:
 		with utils.nowarn():
 			header = astropy.io.fits.open(fname)[hdu].header
-- 
2.43.0


From 09ba11b6a149f443b676afdd3f4327868275fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:55 +0000
Subject: [PATCH 183/194] fix: enplot rgb images after the first use their own
 color ranges

---
 pixell/enplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index 34971db..2eb83ef 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -189,7 +189,7 @@ def plot_iterator(*arglist, **kwargs):
 				yield bunch.Bunch(img=figure, name=oname, type="mpl", dpi=args.mpl_dpi, printer=subprint, **oinfo)
 			# Progress report
 			printer.write("\r%s %5d/%d" % (iname, i+1,ncomp), 2, exact=True, newline=False)
-			crange_ind += 1
+			crange_ind += ngroup
 		printer.write("",    2, exact=True)
 		printer.write(iname, 1, exact=True)
 
-- 
2.43.0


From 7da069ee24117b2a0b57d323d6eb38c5dce5a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 184/194] fix: enplot evenly spaced contours should not fail on
 the per-field color range

---
 pixell/enplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index 2eb83ef..45b4bd2 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -720,6 +720,8 @@ def calc_contours(crange, args):
 	step: number (explicit), -number (relative)
 	"""
 	if args.contours is None: return None
+	# There is one range per field. Contours are drawn for the first one
+	crange = np.asarray(crange).reshape(2,-1)[:,0]
 	def setup_uniform(vals):
 		if len(vals) == 1:
 			base, step = 0, vals[0]
-- 
2.43.0


From c9f9abb03e8daa9861905cfab8c6bb5d9e744d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 185/194] fix: dct_adjoint and idct_adjoint are the adjoints of
 dct and idct

---
 pixell/enmap.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index f0e8e6d..91acc93 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1270,8 +1270,13 @@ def fft(emap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=Fals
 	be directly compared to theory (apart from mask corrections)
 	, i.e., pixel area factors are corrected for.
 	"""
+	# The type 1 dct's matrix isn't symmetric, so its adjoint isn't simply another dct
+	if dct and adjoint_ifft:
+		weights = _dct_weights(emap)
+		emap    = emap/weights
 	if dct: res  = samewcs(enfft.dct(emap,omap,axes=[-2,-1],nthread=nthread), emap)
 	else:   res  = samewcs(enfft.fft(emap,omap,axes=[-2,-1],nthread=nthread), emap)
+	if dct and adjoint_ifft: res *= weights
 	norm = 1
 	if normalize:
 		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
@@ -1283,8 +1288,12 @@ def fft(emap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=Fals
 	return res
 def ifft(emap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=False):
 	"""Performs the 2d iFFT of the complex enmap given, and returns a pixel-space enmap."""
+	if dct and adjoint_fft:
+		weights = _dct_weights(emap)
+		emap    = emap/weights
 	if dct: res  = samewcs(enfft.idct(emap,omap,axes=[-2,-1],nthread=nthread, normalize=False), emap)
 	else:   res  = samewcs(enfft.ifft(emap,omap,axes=[-2,-1],nthread=nthread, normalize=False), emap)
+	if dct and adjoint_fft: res *= weights
 	norm = 1
 	if normalize:
 		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
@@ -1295,6 +1304,11 @@ def ifft(emap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=Fals
 	if norm != 1: res *= norm
 	return res
 
+def _dct_weights(emap):
+	"""The weight each pixel has in the type 1 dct: 1 for the edges, 2 elsewhere along each axis"""
+	wy, wx = [np.where((np.arange(n)==0)|(np.arange(n)==n-1),1,2).astype(emap.dtype) for n in emap.shape[-2:]]
+	return wy[:,None]*wx
+
 def dct(emap, omap=None, nthread=0, normalize=True):
 	return fft(emap, omap=omap, nthread=nthread, normalize=normalize, dct=True)
 def idct(emap, omap=None, nthread=0, normalize=True):
-- 
2.43.0


From 1bf6a30c3ba612224470f46f99772638cc30cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 186/194] fix: spec2flat_corr moves the zero-lag pixel to the
 corner for odd-sized maps too

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 91acc93..9602f18 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1890,8 +1890,8 @@ def spec2flat_corr(shape, wcs, cov, exp=1.0, border="constant"):
 	dpos -= dpos[:,None,None,dpos.shape[-2]//2,dpos.shape[-1]//2]
 	ipos = np.arccos(np.cos(dpos[0])*np.cos(dpos[1]))*nr/rmax
 	corr2d = utils.interpol(corrfun, ipos.reshape((-1,)+ipos.shape), border=border, order=1)
-	corr2d = np.roll(corr2d, -corr2d.shape[-2]//2, -2)
-	corr2d = np.roll(corr2d, -corr2d.shape[-1]//2, -1)
+	corr2d = np.roll(corr2d, -(corr2d.shape[-2]//2), -2)
+	corr2d = np.roll(corr2d, -(corr2d.shape[-1]//2), -1)
 	corr2d = ndmap(corr2d, wcs)
 	return fft(corr2d).real * np.prod(shape[-2:])**0.5
 
-- 
2.43.0


From 0696f3c7d83609d9db8903aab92f5d1141d1ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 187/194] fix: neighborhood_pixboxes works for plain maps

---
 pixell/enmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 9602f18..1863742 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -768,9 +768,10 @@ def neighborhood_pixboxes(shape, wcs, poss, r):
 	return pixboxes[npos][{from,to},{y,x}] corresponding to the regions within a
 	distance of r from each entry in poss."""
 	if wcsutils.is_plain(wcs):
-		rpix = r/pixsize(shape, wcs)
-		centers = sky2pix(poss.T).T
-		return np.moveaxis([centers-rpix,center+rpix+1],0,1)
+		poss, r = utils.broadcast_arrays(poss, r, npost=(1,0))
+		rpix    = r[...,None]/pixshape(shape, wcs)
+		centers = np.moveaxis(sky2pix(shape, wcs, np.moveaxis(poss,-1,0)),0,-1)
+		return utils.nint(np.stack([centers-rpix,centers+rpix],-2)) + np.array([[0],[1]])
 	poss, r = utils.broadcast_arrays(poss, r, npost=(1,0))
 	res     = np.zeros(poss.shape[:-1]+(2,2))
 	for I in utils.nditer(poss.shape[:-1]):
-- 
2.43.0


From b26cc8354bc7e21f0a5aaa46e92b25425b2e6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 188/194] fix: greedy_split works with its default cost and
 work functions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 516ca2d..b3fddb9 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1171,7 +1171,7 @@ def fix_zero_strides(a):
 	oarr = np.lib.stride_tricks.as_strided(a, strides=ostrides)
 	return oarr
 
-def greedy_split(data, n=2, costfun=max, workfun=lambda w,x: x if w is None else x+w):
+def greedy_split(data, n=2, costfun=max, workfun=lambda w,x: 0 if x is None else x+w):
 	"""Given a list of elements data, return indices that would
 	split them it into n subsets such that cost is approximately
 	minimized. costfun specifies which cost to minimize, with
-- 
2.43.0


From 5767014406ffbe19453d44e956441c93b89308c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:38 +0000
Subject: [PATCH 189/194] fix: project applies cval and the border mode to rows
 outside the map, not just columns

---
 pixell/enmap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 1863742..2b655ef 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -630,7 +630,14 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 			y1     = np.min(pix[0]).astype(int)-context
 			y2     = np.max(pix[0]).astype(int)+context+1
 			pix[0]-= y1
-			band   = map.extract_pixbox([[y1,0],[y2,map.shape[-1]]])
+			# Rows outside the map follow the boundary condition too
+			pmode  = {"nearest":"edge", "wrap":"wrap", "grid-wrap":"wrap", "mirror":"reflect", "reflect":"symmetric"}.get(border)
+			if pmode:
+				pad  = max(0, -y1, y2-map.shape[-2])
+				rows = np.pad(np.arange(map.shape[-2]), pad, mode=pmode)[y1+pad:y2+pad]
+				band = map[...,rows,:]
+			else:
+				band = map.extract_pixbox([[y1,0],[y2,map.shape[-1]]], cval=cval)
 			# Apodize if necessary
 			if context > 1:
 				band = apod(band, width=(context,0), fill="crossfade")
-- 
2.43.0


From 07b4efcc4b348d4e0ac04a083e33cdf5e593c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:38 +0000
Subject: [PATCH 190/194] fix: geometry2(shape=...) builds a geometry with that
 shape, with RA in the usual direction

---
 pixell/wcsutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index 4c1bae3..10f6921 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -84,8 +84,8 @@ def pixelization(pwcs, shape=None, res=None, variant=None):
 		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], res=res[0],  offs=offs[0], periodic=periodic[0])
 		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], res=res[1],  offs=offs[1], periodic=periodic[1])
 	elif res is None:
-		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-2], offs=offs[0], periodic=periodic[0])
-		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[0])
+		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-1], offs=offs[0], periodic=periodic[0], sign=-1)
+		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[1])
 	else:
 		raise ValueError("Either res or shape must be given to build a pixelization")
 	# Now that we have the intermediate coordinates of our endpoints, we
@@ -312,6 +312,8 @@ def pixelize_1d(w, n=None, res=None, offs=None, periodic=False, adjust=False, si
 	else:
 		if o1 is None: o1 =  0.5
 		if o2 is None: o2 = -0.5
+		# The duplicate end point of a periodic axis is removed below
+		if periodic and o1 == o2: n += 1
 		res = w/(n-1+o1-o2)
 	# Finish up
 	if o1 is not None:
-- 
2.43.0


From 11efbfb7f01849a79d9cd66fc0871471bef8e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:38 +0000
Subject: [PATCH 191/194] fix: fullsky_geometry2 and band_geometry2 forward to
 geometry2

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 2b655ef..1ef150f 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1609,7 +1609,7 @@ def fullsky_geometry2(res=None, shape=None, pre=None, deg=False, proj="car", var
 	geometry(). See its docstring for the meaning of the arguments.
 
 	dims is an alias for pre provided for backwards compatibility"""
-	return geometry(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="car", variant=None, dims=None):
 	"""Build a geometry covering a range of declinations. Equivalent to
@@ -1621,7 +1621,7 @@ def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="ca
 	decrange = (np.zeros(2)+decrange)*unit
 	if decrange.shape != (2,): raise ValueError("decrange must be a number or (dec1,dec2)")
 	pos      = np.array([[decrange[0],np.pi],[decrange[1],-np.pi]])/unit
-	return geometry(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 # Idea: Make geometry a class with .shape and .wcs members.
 # Make a function that takes (foo,bar) and returns a geometry,
-- 
2.43.0


From d2b8bc141cde5beb5d0862ca9531ff53df334304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:52 +0000
Subject: [PATCH 192/194] fix: memory pools count reused memory, so they settle
 on a single sufficient arena

---
 pixell/device.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/device.py b/pixell/device.py
index 02c63d8..e67e62a 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -142,7 +142,8 @@ class Mempool:
 		else:
 			# We have room. Parsel out some more
 			buf       = self.arenas[-1][self.pos:self.pos+n]
-			self.pos += effsize
+			self.pos  += effsize
+			self.size += effsize
 		self.capacity = max(self.capacity, self.size)
 		return buf
 	def totsize(self): return sum([arena.size for arena in self.arenas])
-- 
2.43.0


From 9ffb76ffef14583316fa2814cbe66c22e63b7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:52 +0000
Subject: [PATCH 193/194] fix: ArrayMultipool.size works

---
 pixell/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/device.py b/pixell/device.py
index e67e62a..1cf5ed9 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -253,7 +253,7 @@ class ArrayMultipool:
 				self.pools[name] = self.factory(name=name)
 			pools.append(self.pools[name])
 		return pools
-	def size(self): return sum([pool.size() for name, pool in self.pools.items()])
+	def size(self): return sum([pool.size for name, pool in self.pools.items()])
 	def totsize(self): return sum([pool.totsize() for name, pool in self.pools.items()])
 	def free(self):
 		for name in self.pools:
-- 
2.43.0


From f625c44cd6be4bd122523ecc4ac7cb3341913cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:13 +0000
Subject: [PATCH 194/194] fix: memory pools can fill zero-dimensional arrays

---
 pixell/device.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/device.py b/pixell/device.py
index 1cf5ed9..af2403a 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -178,14 +178,14 @@ class ArrayPoolCpu(Mempool):
 	def array(self, arr):
 		arr  = np.asarray(arr)
 		oarr = self.empty(arr.shape, dtype=arr.dtype)
-		oarr[:] = arr
+		oarr[...] = arr
 		return oarr
 	def empty(self, shape, dtype=np.float32, reset=True):
 		if reset: self.reset()
 		return self.alloc(np.prod(shape)*np.dtype(dtype).itemsize).view(dtype).reshape(shape)
 	def full(self, shape, val, dtype=np.float32, reset=True):
 		arr = self.empty(shape, dtype=dtype, reset=reset)
-		arr[:] = val
+		arr[...] = val
 		return arr
 	def zeros(self, shape, dtype=np.float32, reset=True):
 		return self.full(shape, 0, dtype=dtype, reset=reset)
@@ -215,7 +215,7 @@ class ArrayPoolGpu(Mempool):
 		return self.alloc(np.prod(shape)*np.dtype(dtype).itemsize).view(dtype).reshape(shape)
 	def full(self, shape, val, dtype=np.float32, reset=True):
 		arr = self.empty(shape, dtype=dtype, reset=reset)
-		arr[:] = val
+		arr[...] = val
 		return arr
 	def zeros(self, shape, dtype=np.float32, reset=True):
 		return self.full(shape, 0, dtype=dtype, reset=reset)
-- 
2.43.0

