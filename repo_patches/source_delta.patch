From 82304d3d2316ba76f046f41f8fde43e0fdf4ee74 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:34 +0000
Subject: [PATCH 01/72] fix: compare bounding boxes by their corners, not by
 hash

---
 coral/bbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 4478869..aabed60 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -57,7 +57,9 @@ class BBox:
         return hash((self.x0, self.y0, self.x1, self.y1))
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        if not isinstance(other, BBox): return NotImplemented
+        return ((self.x0, self.y0, self.x1, self.y1) ==
+                (other.x0, other.y0, other.x1, other.y1))
 
     def __lt__(self, other):
         return self.area() < other.area()
-- 
2.43.0


From c33d7c9c0866b73cabd1cccae28bacc300bdfc78 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:06 +0000
Subject: [PATCH 02/72] fix: simplify polylines and rings with fewer than three
 points

---
 coral/coord.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index cca69f2..6cd8884 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -248,9 +248,11 @@ def sqr_fit(s, m):
 
 def open_no_slit(s, k):
     b = Buffer(k)
-    p = next(s)
+    p = next(s, None)
+    if p is None: return
     yield p
-    q = next(s)
+    q = next(s, None)
+    if q is None: return
     for r in s:
         if r == q:
             continue
@@ -269,9 +271,10 @@ def open_no_slit(s, k):
 def closed_no_slit(s, k):
     b1 = Buffer(k)
     b2 = Buffer(k)
-    p = next(s)
+    p = next(s, None)
+    if p is None: return
     yield p
-    q = next(s)
+    r = q = next(s, p)
     for r in s:
         if r == q:
             continue
-- 
2.43.0


From 8169ee14648348386ed40390e31424bcabc1dfc8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:47 +0000
Subject: [PATCH 03/72] fix: keep ring corners in order when a closed line is
 simplified

---
 coral/coord.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 6cd8884..b705f44 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -271,11 +271,11 @@ def open_no_slit(s, k):
 def closed_no_slit(s, k):
     b1 = Buffer(k)
     b2 = Buffer(k)
-    p = next(s, None)
-    if p is None: return
-    yield p
-    r = q = next(s, p)
-    for r in s:
+    o = p = next(s, None)
+    if o is None: return
+    q = next(s, p)
+    first = None
+    for r in itertools.chain(s, [o]):
         if r == q:
             continue
         if not collinear(p, q, r):
@@ -285,23 +285,28 @@ def closed_no_slit(s, k):
                 if b1.isfull():
                     t = b1.shift()
                     if b2.isfull():
+                        if first is None: first = t
                         yield t
                     else:
                         b2.push(t)
                 b1.push(q)
         p, q = q, r
+    seam = [o]
     while not (b1.isempty() or b2.isempty()):
         p = b1.pop()
         q = b2.shift()
         if p != q:
+            seam = [p] + seam + [q]
             break
+        seam = []
+    ring = []
     while not b1.isempty():
-        yield b1.shift()
-    yield p
-    yield q
+        ring.append(b1.shift())
+    ring += seam
     while not b2.isempty():
-        yield b2.shift()
-    yield r
+        ring.append(b2.shift())
+    yield from ring or [o]
+    yield (first or (ring or [o])[0])
 
 def simplify(xys, scl, closed=False, k=8):
     s = sqr_fit(xys, scl)
-- 
2.43.0


From 5282050f338c1987a102447f570f93b34e900aec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 04/72] fix: keep the codes of the largest value and of null
 within the field size

---
 coral/grid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coral/grid.py b/coral/grid.py
index 6c4bfe2..3a7c903 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -21,7 +21,7 @@
 import struct
 
 SIZE_FORMAT = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}
-SIZE_SPAN   = {1: 0x100, 2: 0x10000, 4: 0x100000000, 8: 0x10000000000000000}
+SIZE_SPAN   = {1: 0xff, 2: 0xffff, 4: 0xffffffff, 8: 0xffffffffffffffff}
 
 class IVar:
 
@@ -31,13 +31,13 @@ class IVar:
         self.minv = minv
         self.maxv = maxv
         delta = maxv - minv
-        if delta < SIZE_SPAN[1] - nullable:
+        if delta <= SIZE_SPAN[1] - nullable:
             self.size = 1
-        elif delta < SIZE_SPAN[2] - nullable:
+        elif delta <= SIZE_SPAN[2] - nullable:
             self.size = 2
-        elif delta < SIZE_SPAN[4] - nullable:
+        elif delta <= SIZE_SPAN[4] - nullable:
             self.size = 4
-        elif delta < SIZE_SPAN[8] - nullable:
+        elif delta <= SIZE_SPAN[8] - nullable:
             self.size = 8
         else:
             raise ValueError
-- 
2.43.0


From ca8e122645e3555963817dd14e1cce0710e2254a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 05/72] fix: give integer grid fields their encoding format

---
 coral/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/grid.py b/coral/grid.py
index 3a7c903..d59b52f 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -41,6 +41,7 @@ class IVar:
             self.size = 8
         else:
             raise ValueError
+        self.fmt = '>' + SIZE_FORMAT[self.size]
         self.span = SIZE_SPAN[self.size]
         if nullable:
             self.span -= 1
-- 
2.43.0


From d37a7c4f4d877cfeaa3be21bc97656c29edd8ffd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 06/72] fix: import collections, which the RangeGrid reader
 uses

---
 coral/rg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/rg.py b/coral/rg.py
index 3ab2857..4563186 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -79,6 +79,7 @@ Note that the method Reader.read() takes an ID optionally. If one doesn't
 #   s.seek(offset, io.SEEK_SET) seeks from the start of the stream (default)
 #   s.seek(offset, io.SEEK_CUR) seeks from current position
 #   s.seek(offset, io.SEEK_END) seeks from the end of the stream
+import collections
 import io
 import struct
 
-- 
2.43.0


From 2f7f36062462ecc46959987c1c7e4334aa140d4a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 07/72] fix: read back RangeGrid entities without segments

---
 coral/rg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 4563186..f6a60b6 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -137,7 +137,7 @@ def _readindex(path):
         for i in range(n):
             eid, ensegs = md.readline().split(" ")
             ensegs = int(ensegs)
-            elens = [int(s) for s in md.readline().split(" ")]
+            elens = [int(s) for s in md.readline().split()]
             index.append((eid, elens))
     return index
 
-- 
2.43.0


From baa4d268c1a9da28951066ecda55e1467e3593a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 08/72] fix: read back RangeGrid entities whose id contains
 spaces

---
 coral/rg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index f6a60b6..5c5cefd 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -135,7 +135,7 @@ def _readindex(path):
     with open(path, "r") as md:
         n = int(md.readline())
         for i in range(n):
-            eid, ensegs = md.readline().split(" ")
+            eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
             elens = [int(s) for s in md.readline().split()]
             index.append((eid, elens))
-- 
2.43.0


From 83819fc81140fe94fdb48f947bdd23170aac3ab2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 09/72] fix: wrap latitudes above 90 degrees downwards

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index 7e301ac..c3e2553 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -172,7 +172,7 @@ class Writer:
                 while lat < -90:
                     lat += 180
                 while lat > 90:
-                    lat += 180
+                    lat -= 180
                 parts[i][j] = (lon, lat)
         nparts = len(parts)
         for i in range(nparts):
-- 
2.43.0


From 7a95a1acaebab9d7a68f2bd0e784e9adf108935b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 10/72] fix: keep single-point parts in P files

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index c3e2553..4984faa 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -177,7 +177,7 @@ class Writer:
         nparts = len(parts)
         for i in range(nparts):
             part = parts[i]
-            if part[0] == part[-1]:
+            if len(part) > 1 and part[0] == part[-1]:
                 part = part[:-1]
                 parts[i] = part
         self.names.append(name)
-- 
2.43.0


From 3bbffab6fa49f5600815db85d193184c7ae32f8c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 11/72] fix: cover parts of zero area in the bounding box of a
 P entity

---
 coral/pf.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 4984faa..9e95713 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -181,13 +181,9 @@ class Writer:
                 part = part[:-1]
                 parts[i] = part
         self.names.append(name)
-        bb = None
+        bb = bbox.BBox(point for part in parts for point in part)
         partlen = []
         for part in parts:
-            if bb is None:
-                bb = bbox.BBox(part)
-            else:
-                bb |= bbox.BBox(part)
             partlen.append(len(part))
         self.partlens.append(partlen)
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
-- 
2.43.0


From da8f6a6bb2273eaf463280015b802efda849166c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 12/72] fix: write P entities of zero width or height

---
 coral/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 9e95713..f573b97 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -190,6 +190,9 @@ class Writer:
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
         y1 = math.ceil((bb.y1 + 90) * UMAX2 / 180)
+        # Quantisation needs a box of positive width and height.
+        if x0 == x1: x0, x1 = max(x0 - 1, 0), min(x1 + 1, UMAX2)
+        if y0 == y1: y0, y1 = max(y0 - 1, 0), min(y1 + 1, UMAX2)
         if any(not 0 <= v <= UMAX2 for v in (x0, x1, y0, y1)):
             print(bb)
             print((x0, x1, y0, y1))
-- 
2.43.0


From 0198c51de9fb6cb7d73c9dd872c23b3fcfb9f1bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 13/72] fix: clamp quantised P coordinates to the encodable
 range

---
 coral/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index f573b97..ccc25d3 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -206,6 +206,9 @@ class Writer:
                 lon1, lat1 = point
                 ulon = round((lon1 - x0) * self.umax / (x1 - x0))
                 ulat = round((lat1 - y0) * self.umax / (y1 - y0))
+                # Float rounding may exceed the limits when size is 8.
+                ulon = max(0, min(ulon, self.umax))
+                ulat = max(0, min(ulat, self.umax))
                 data = struct.pack(self.fmt, ulon, ulat)
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
-- 
2.43.0


From 460b3a3347b3d47819047c53b4c7d90a8ef0915f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 14/72] fix: set every pixel of a black and white canvas to its
 background

---
 coral/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 41423ef..c807ad2 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -179,7 +179,8 @@ class BWCanvas(BaseCanvas):
         self.bgcolor = bgcolor
         nw = math.ceil(width/8) # bytes/row
         n = nw * height
-        self.data = array('B', (bgcolor for i in range(n)))
+        bgbyte = 0xff if bgcolor else 0
+        self.data = array('B', (bgbyte for i in range(n)))
         self.bits_per_row = nw * 8
 
     def __getitem__(self, key):
-- 
2.43.0


From 4d014e48154209c1154b6be8ed6e4c770fbd7fc3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 15/72] fix: draw anti-aliased lines of zero length

---
 coral/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index c807ad2..bc90419 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -117,7 +117,7 @@ class BaseCanvas:
             (x0, y0), (x1, y1) = (x1, y1), (x0, y0)
         dx = x1 - x0
         dy = y1 - y0
-        gradient = dy / dx
+        gradient = dy / dx if dx else 0
 
         # Line start.
         xend = nearest(x0)
-- 
2.43.0


From 70d5b41616efd443bdba6da1faf9f34934800075 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 16/72] fix: cover the last column of an anti-aliased line up
 to its end

---
 coral/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index bc90419..56193f3 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -138,7 +138,7 @@ class BaseCanvas:
         # Line end.
         xend = nearest(x1)
         yend = y1 + gradient * (xend - x1)
-        xgap = rfpart(x1 + 0.5)
+        xgap = fpart(x1 + 0.5)
         xpxl2 = xend
         ypxl2 = ipart(yend)
         alpha1 = rfpart(yend) * xgap
-- 
2.43.0


From 8b9325f31177782389da12c13d638c674a93ce7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:03 +0000
Subject: [PATCH 17/72] fix: do not touch pixels drawn with zero opacity

---
 coral/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/raster.py b/coral/raster.py
index 56193f3..66745cd 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -227,6 +227,7 @@ class GrayCanvas(BaseCanvas):
         i = y * self.width + x
         if isinstance(value, tuple): # (V, A).
             fg, a = value
+            if not a: return
             v = self.blend(self.data[i], fg, a)
         else: # Must be V.
             v = value
@@ -269,6 +270,7 @@ class ColorCanvas(BaseCanvas):
         i = 3 * (y * self.width + x)
         if len(value) == 4: # (R, G, B, A).
             *fg, a = value
+            if not a: return
             color = self.blend(self.data[i:i+3], fg, a)
         else: # Must be (R, G, B).
             color = value
-- 
2.43.0


From 3400fb53a1e478cf21f82116cf5adb37c9bd5c39 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:03 +0000
Subject: [PATCH 18/72] fix: fill polygons that touch, overlap or reach the
 right border

---
 coral/raster.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 66745cd..69f61bf 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -64,18 +64,15 @@ class BaseCanvas:
         "Fill polygons previously scanned with `scanpolygon()`."
 
         for y, marks in enumerate(scans):
-            heapq.heappush(marks, (self.width, False))
-            x1, d1 = heapq.heappop(marks)
-            x0, d0 = 0, not d1
-            while x1 < self.width:
-                if not d0:
-                    while x0 < x1:
+            x0 = winding = 0
+            while marks:
+                x1, down = heapq.heappop(marks)
+                if winding:
+                    while x0 < min(x1, self.width):
                         self[x0, y] = color
                         x0 += 1
-                else:
-                    x0 = x1
-                d0 = d1
-                x1, d1 = heapq.heappop(marks)
+                x0 = max(x1, 0)
+                winding += -1 if down else 1
 
     def line(self, start, end, color):
         "Draw line using Bresenham's algorithm."
-- 
2.43.0


From bae8f017e296084fbb6f160c2b306d0bdf49c598 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:37 +0000
Subject: [PATCH 19/72] fix: emit ink changes between gray and color

---
 coral/vector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index aadeb81..9783114 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -83,8 +83,10 @@ class Canvas:
         if bgcolor is not None:
             if isinstance(bgcolor, tuple):
                 self.state['color'] = bgcolor
+                self.state['gray'] = None
             else:
                 self.state['gray'] = bgcolor
+                self.state['color'] = None
         self.deps = set()
 
     def copy(self):
@@ -104,6 +106,7 @@ class Canvas:
         line = "{} v".format(v)
         self.lines.append(line)
         self.state['gray'] = v
+        self.state['color'] = None
 
     def setcolor(self, r, g, b):
         if self.state['color'] == (r, g, b):
@@ -111,6 +114,7 @@ class Canvas:
         line = "{} {} {} rgb".format(r, g, b)
         self.lines.append(line)
         self.state['color'] = (r, g, b)
+        self.state['gray'] = None
 
     def setink(self, ink):
         if isinstance(ink, tuple):
-- 
2.43.0


From eec55d201d93e3ff07cca4dfd19925fb6923ec96 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:37 +0000
Subject: [PATCH 20/72] fix: follow grestore when tracking the ink of filled
 and stroked shapes

---
 coral/vector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 9783114..ed22c86 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -148,11 +148,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                saved = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = saved
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))
@@ -198,11 +200,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                saved = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = saved
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
@@ -221,11 +225,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                saved = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = saved
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox(points)
-- 
2.43.0


From d3c5d87de6653b04a5b316af580506452c834134 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:37 +0000
Subject: [PATCH 21/72] fix: keep a copy of the dash pattern in effect

---
 coral/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index ed22c86..ab76a8e 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -138,7 +138,7 @@ class Canvas:
         psarray = "[{}]".format(" ".join(map(str, pattern)))
         line = "{} {} setdash".format(psarray, offset)
         self.lines.append(line)
-        self.state['dash'] = (pattern, offset)
+        self.state['dash'] = (list(pattern), offset)
 
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
-- 
2.43.0


From cc12375c7a3ddaed9892ea7e464ffce98b946c83 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:37 +0000
Subject: [PATCH 22/72] fix: start circles with a new path

---
 coral/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index ab76a8e..76b098a 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -143,7 +143,7 @@ class Canvas:
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
         r = radius
-        line = "{} {} {} 0 360 arc cp".format(x, y, r)
+        line = "np {} {} {} 0 360 arc cp".format(x, y, r)
         self.lines.append(line)
         if fill is not None:
             if stroke is not None:
-- 
2.43.0


From 93c8c0ecf9ce10ea6debf80e42b3cbf4bc8ebdaa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:37 +0000
Subject: [PATCH 23/72] fix: escape parentheses and backslashes of text

---
 coral/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 76b098a..1e2e4f7 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -240,6 +240,8 @@ class Canvas:
         assert anchor in "c t tr r br b bl l tl".split()
         key = "s" + anchor
         x, y = pos
+        for c in "\\()":
+            text = text.replace(c, "\\" + c)
         fmt = "({}) {} /{} {} {} {}"
         line = fmt.format(text, size, font, x, y, key)
         self.lines.append(line)
-- 
2.43.0


From f80154b653fd445637dbbbc43a7c4a3c4a027709 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:24 +0000
Subject: [PATCH 24/72] fix: include horizontal and vertical shapes in the box
 of a canvas

---
 coral/vector.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index 1e2e4f7..143dd72 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -100,6 +100,16 @@ class Canvas:
     def resetbbox(self):
         self.bbox = bbox.BBox()
 
+    def cover(self, bb):
+        # BBox's union ignores boxes of zero area, such as those of
+        # horizontal and vertical lines.
+        if self.bbox == bbox.BBox():
+            self.bbox = bb
+        else:
+            corners = [(b.x0, b.y0) for b in (self.bbox, bb)]
+            corners += [(b.x1, b.y1) for b in (self.bbox, bb)]
+            self.bbox = bbox.BBox(corners)
+
     def setgray(self, v):
         if self.state['gray'] == v:
             return
@@ -157,7 +167,7 @@ class Canvas:
                 self.state = saved
             self.setink(stroke)
             self.lines.append("s")
-        self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))
+        self.cover(bbox.BBox((x - r, y - r), (x + r, y + r)))
 
     def addpolyline(self, points, stroke=None):
         points = iter(points)
@@ -178,7 +188,7 @@ class Canvas:
         if stroke is not None:
             self.setink(stroke)
         self.lines.append("s")
-        self.bbox |= bbox.BBox((x0, y0), (x1, y1))
+        self.cover(bbox.BBox((x0, y0), (x1, y1)))
 
     def addpolygon(self, points, fill=None, stroke=None):
         points = iter(points)
@@ -209,7 +219,7 @@ class Canvas:
                 self.state = saved
             self.setink(stroke)
             self.lines.append("s")
-        self.bbox |= bbox.BBox((x0, y0), (x1, y1))
+        self.cover(bbox.BBox((x0, y0), (x1, y1)))
 
     def addroundedpolygon(self, points, radius, fill=None, stroke=None):
         self.lines.append("np")
@@ -234,7 +244,7 @@ class Canvas:
                 self.state = saved
             self.setink(stroke)
             self.lines.append("s")
-        self.bbox |= bbox.BBox(points)
+        self.cover(bbox.BBox(points))
 
     def addtext(self, pos, text, size, font="Times-Bold", anchor="l"):
         assert anchor in "c t tr r br b bl l tl".split()
@@ -276,7 +286,7 @@ class Canvas:
             self.lines.append("image")
         self.lines.append("gr")
         tx, ty = position or (0, 0)
-        self.bbox |= bbox.BBox((tx, ty), (swidth + tx, sheight + ty))
+        self.cover(bbox.BBox((tx, ty), (swidth + tx, sheight + ty)))
 
     def save(self, path, size=None, margin=0):
         bb = self.bbox
-- 
2.43.0


From 022ca1ac000e923a98a1c7a6c9a24f6af7f996d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:26 +0000
Subject: [PATCH 25/72] fix: label the columns read from a file in the order of
 the keys

---
 coral/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 28b22f3..8c2fdf7 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -87,7 +87,7 @@ def readfile(path, keys=None, sep=',', comm='#'):
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-        indexes = [i for i in range(len(fkeys)) if fkeys[i] in keys]
+        indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
             line = line.split(comm)[0].strip()
-- 
2.43.0


From 84885470bb27411f761f0e4200f9add926a1283f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:26 +0000
Subject: [PATCH 26/72] fix: read files without a header as empty tables

---
 coral/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 8c2fdf7..5e213bf 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -83,7 +83,10 @@ def readfile(path, keys=None, sep=',', comm='#'):
     with codecs.open(path, "r", "utf8") as f:
         line = ""
         while not line:
-            line = f.readline().split(comm)[0].strip()
+            line = f.readline()
+            if not line:
+                return table
+            line = line.split(comm)[0].strip()
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-- 
2.43.0


From f4515f1deaa2ac354d4f4439cf6004a675ce6f37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:26 +0000
Subject: [PATCH 27/72] fix: keep empty values at the ends of tab-separated
 lines

---
 coral/table.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coral/table.py b/coral/table.py
index 5e213bf..3fa76c9 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -78,6 +78,11 @@ def delkeys(table, keys_to_del):
         newrow = Row(*(d[key] for key in newkeys))
         yield newrow
 
+def cleanline(line, sep, comm):
+    # A blank separator also delimits empty values at the ends of a line.
+    blanks = "".join(c for c in " \t\r\n\v\f" if c not in sep)
+    return line.split(comm)[0].strip(blanks)
+
 def readfile(path, keys=None, sep=',', comm='#'):
     table = []
     with codecs.open(path, "r", "utf8") as f:
@@ -86,14 +91,14 @@ def readfile(path, keys=None, sep=',', comm='#'):
             line = f.readline()
             if not line:
                 return table
-            line = line.split(comm)[0].strip()
+            line = cleanline(line, sep, comm)
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
         indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
-            line = line.split(comm)[0].strip()
+            line = cleanline(line, sep, comm)
             if not line:
                 continue
             fvalues = line.split(sep)
-- 
2.43.0


From cc847bbdfd4e075272aae6155b216e44db665b29 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:14 +0000
Subject: [PATCH 28/72] fix: show the progress of iterables of unknown length

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index 13ce086..eac33aa 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -39,7 +39,7 @@ def format_meter(n, total, elapsed):
     # n - number of finished iterations
     # total - total number of iterations, or None
     # elapsed - number of seconds passed since start
-    if n > total:
+    if total is not None and n > total:
         total = None
     
     elapsed_str = format_interval(elapsed)
-- 
2.43.0


From 46acb5324a7f64763fb55b2196dec7292e591d7d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:14 +0000
Subject: [PATCH 29/72] fix: return the cursor of the file the progress was
 written to

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index eac33aa..a8fabec 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -118,7 +118,7 @@ def tqdm(iterable, desc='', total=None, leave=True, file=sys.stderr,
     
     if not leave:
         sp.print_status('')
-        sys.stdout.write('\r')
+        file.write('\r')
     else:
         if last_print_n < n:
             cur_t = time.time()
-- 
2.43.0


From c50bec16b3dc1d32ce1829d9805c55b1c1320a1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 30/72] fix: compare two empty strings without dividing by zero

---
 coral/names.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/names.py b/coral/names.py
index c2f399e..998fb71 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -67,6 +67,8 @@ def damlev(s1, s2):
 
 def strerr(s1, s2):
     length = len(s1) + len(s2)
+    if length == 0:
+        return 0
     distance = damlev(s1, s2)
     return distance * 2 / length
 
-- 
2.43.0


From 81f605af064feb6d2d2e4efab0db028c19d36317 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 31/72] fix: match every character at most once in the Jaro
 distance

---
 coral/names.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/coral/names.py b/coral/names.py
index 998fb71..888c0d9 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -76,26 +76,21 @@ def strerr(s1, s2):
 def jaro(s1, s2):
     ls1 = len(s1)
     ls2 = len(s2)
-    if ls1 < ls2:
-        s1 += "*" * (ls2 - ls1)
-        length = ls2
-    elif ls2 < ls1:
-        s2 += "*" * (ls1 - ls2)
-        length = ls1
-    else:
-        length = ls1
-    m = 0
+    length = max(ls1, ls2)
     w = length // 2 - 1
+    # Each position is matched at most once, preferably with its counterpart.
+    used = set(i for i in range(min(ls1, ls2)) if s1[i] == s2[i])
+    same = set(used)
     p = []
-    for i in range(length):
-        if s1[i] == s2[i]:
-            m += 1
-        else:
-            i0, i1 = max(0, i-w), min(length, i+w+1)
-            f = s2.find(s1[i], i0, i1)
-            if f >= 0:
-                m += 1
+    for i in range(ls1):
+        if i in same:
+            continue
+        for f in range(max(0, i-w), min(ls2, i+w+1)):
+            if f not in used and s1[i] == s2[f]:
+                used.add(f)
                 p.append(f)
+                break
+    m = len(used)
     if m == 0:
         return 0
     t = 0
-- 
2.43.0


From 9bdafe505d934913f3fda01552b00d307f6a9465 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 32/72] fix: define the names that abbreviations uses

---
 coral/names.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index 888c0d9..d2ded04 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -19,6 +19,7 @@
 # THE SOFTWARE.
 
 import collections
+import itertools
 
 def ascii(s):
     src = "áàãâäéèẽêëíìĩîïóòõôöúùũûüç"
@@ -126,7 +127,8 @@ def mapping(keys, values):
     m.sort(key=lambda match: -match.score)
     return m
 
-def abbreviations(names, length):
+def abbreviations(names, length, extras=()):
+    # extras: words to leave out
     norm = lambda name: ascii(name.upper())
     inames = [(i, norm(name)) for i, name in enumerate(names)]
     inames.sort(key=len)
-- 
2.43.0


From 7b4487b756705a9c0dd679ccb6878b54b2a495aa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 33/72] fix: abbreviate short names first, so that they stay
 unique

---
 coral/names.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index d2ded04..517056c 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -131,7 +131,7 @@ def abbreviations(names, length, extras=()):
     # extras: words to leave out
     norm = lambda name: ascii(name.upper())
     inames = [(i, norm(name)) for i, name in enumerate(names)]
-    inames.sort(key=len)
+    inames.sort(key=lambda iname: len(iname[1]))
     counter = collections.Counter()
     for i, name in inames:
         counter.update(set(name))
-- 
2.43.0


From 2fc704182bdd1c3e322c73b28b99c3466c031bbc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 34/72] fix: invert the azimuthal projections on the whole
 globe

---
 coral/proj.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 0164943..ceeba7d 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -279,17 +279,16 @@ class Stereographic(Proj):
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -327,17 +326,16 @@ class AzimuthalEquidistant(Proj):
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -370,17 +368,16 @@ class AzimuthalEqualArea(Proj):
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
-- 
2.43.0


From e2b2138b4dc4c2e2c8b6423d41bda349c0f3e902 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 35/72] fix: invert the azimuthal projections at their centre

---
 coral/proj.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/coral/proj.py b/coral/proj.py
index ceeba7d..2a7bc9e 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -276,6 +276,9 @@ class Stereographic(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            # This shortcut avoid division by zero on the lat formula below.
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
@@ -323,6 +326,9 @@ class AzimuthalEquidistant(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            # This shortcut avoid division by zero on the lat formula below.
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
@@ -365,6 +371,9 @@ class AzimuthalEqualArea(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            # This shortcut avoid division by zero on the lat formula below.
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-- 
2.43.0


From 834e4e889686f0c1c6db86be4f8a883a3d083452 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 36/72] fix: use the whole circle in the oblique Mercator
 projection

---
 coral/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 2a7bc9e..0597778 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -198,7 +198,7 @@ class ObliqMercator(Proj):
         a = s * math.sin(lat) - c * math.cos(lat) * math.sin(lon - self.lon0)
         v = math.tan(lat) * c + s * math.sin(lon - self.lon0)
         h = math.cos(lon - self.lon0)
-        x = self.r * math.atan(v / h)
+        x = self.r * math.atan2(v, h)
         y = self.r * math.atanh(a)
         return x, y
 
@@ -208,7 +208,7 @@ class ObliqMercator(Proj):
         lat = math.asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
         v = s * math.sin(xr) - c * math.sinh(yr)
         h = math.cos(xr)
-        lon = self.lon0 + math.atan(v / h)
+        lon = self.lon0 + math.atan2(v, h)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 264d7f770e3759a649e1ebb4b8d2535415014d00 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 37/72] fix: raise NotImplementedError where scale is not
 implemented

---
 coral/proj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 0597778..d7fe3f7 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -252,7 +252,7 @@ class EckertIV(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Eckert IV")
+        raise NotImplementedError("scale is not implemented for Eckert IV")
 
 class Stereographic(Proj):
     "Stereographic Projection for the Spherical Earth."
@@ -297,7 +297,7 @@ class Stereographic(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Stereographic")
+        raise NotImplementedError("scale is not implemented for Stereographic")
 
 class AzimuthalEquidistant(Proj):
     "Azimuthal Equidistant Projection for the Spherical Earth."
@@ -347,7 +347,7 @@ class AzimuthalEquidistant(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Azimuthal Equidistant")
+        raise NotImplementedError("scale is not implemented for Azimuthal Equidistant")
 
 class AzimuthalEqualArea(Proj):
     "Lambert Azimuthal Equal-Area Projection for the Spherical Earth."
@@ -392,7 +392,7 @@ class AzimuthalEqualArea(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Azimuthal Equal-Area")
+        raise NotImplementedError("scale is not implemented for Azimuthal Equal-Area")
 
 class ConicEqualArea(CProj):
     "Albers Equal-Area Conic Projection for the Spherical Earth."
-- 
2.43.0


From e33845482e019255715f4b038311d48ee60047a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 38/72] fix: map the centre of the azimuthal equidistant
 projection whatever its longitude

---
 coral/proj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index d7fe3f7..48d9d4a 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -309,15 +309,15 @@ class AzimuthalEquidistant(Proj):
 
     def geo2rect(self, lon, lat):
         lon, lat = math.radians(lon), math.radians(lat)
-        if (lon, lat) == (self.lon0, self.lat0):
-            # This shortcut avoid division by zero on the k formula below.
-            return 0, 0
         coslat = math.cos(lat)
         sinlat = math.sin(lat)
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
-        c = math.acos(cosc)
+        c = math.acos(max(-1, min(1, cosc)))
+        if c == 0:
+            # This shortcut avoid division by zero on the k formula below.
+            return 0, 0
         k = c / math.sin(c)
         x = y = self.r * k
         x *= coslat * sinlon
-- 
2.43.0


From 852aa172a494ebdff897af25684622bb9ad6641b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 39/72] fix: measure the distance of antipodes in spite of
 rounding

---
 coral/coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index b705f44..c430450 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -119,7 +119,7 @@ def haversine(lon1, lat1, lon2, lat2, R=None):
     lat2 = math.radians(lat2)
     a1 = math.sin(dLat / 2) * math.sin(dLat / 2)
     a2 = math.sin(dLon / 2) * math.sin(dLon / 2) * math.cos(lat1) * math.cos(lat2)
-    a = a1 + a2
+    a = min(a1 + a2, 1)
     c = 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))
     d = R * c
     return d
-- 
2.43.0


From 2e6af4c52e8c775c64706d93b57de35140f39543 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 40/72] fix: load frames of ellipsoidal projections

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index b627079..94c331d 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -126,7 +126,7 @@ def load(path):
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-        e = Ellipsoid(*(m[k] for k in 'abef'))
+        e = proj.Ellipsoid(*(m[k] for k in 'abef'))
         prj = Proj(c, e)
     else:
         r = m['r']
-- 
2.43.0


From 81c4ade1f6b240edce62247d2c2b02dd42b09f00 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 41/72] fix: keep spaces at the end of names

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index 94c331d..b3429e2 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -111,7 +111,7 @@ class Frame:
         with open("{}.names".format(key), "r") as f:
             names = []
             for line in f:
-                names.append(line.rstrip())
+                names.append(line.rstrip("\n"))
         return names
 
 def load(path):
-- 
2.43.0


From d3001e1b25db3b8083ee432eafb76d01c907332d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 42/72] fix: save and load frames of conic projections

---
 coral/frame.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/coral/frame.py b/coral/frame.py
index b3429e2..fbbb0be 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -62,12 +62,16 @@ class Frame:
                 "type": "sphere",
                 "r": self.projection.r
             }
-        rlon, rlat = self.projection.lon0, self.projection.lat0
-        lon, lat = math.degrees(rlon), math.degrees(rlat)
+        if isinstance(self.projection, proj.CProj):
+            key = "parallels"
+            rads = self.projection.lat1, self.projection.lat2
+        else:
+            key = "center"
+            rads = self.projection.lon0, self.projection.lat0
         d = {
             "projection": {
                 "type": type(self.projection).__name__,
-                "center": (lon, lat),
+                key: tuple(map(math.degrees, rads)),
                 "orientation": 0.0,
                 "model": model
             },
@@ -122,7 +126,7 @@ def load(path):
     p = d['projection']
     Proj = getattr(proj, p['type'])
     pt = p['type']
-    c = p['center']
+    c = p['parallels'] if 'parallels' in p else p['center']
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-- 
2.43.0


From 7dfd924b5f34a30736d300ba4d5aa36af6d6c91b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 43/72] fix: read dates and logical values of dbf files

---
 coral/shapefile.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c789f89..edd9b69 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -516,15 +516,15 @@ class Reader:
                     value = float(value)
                 else:
                     value = int(value)
-            elif typ == self.b('D'):
+            elif typ == 'D':
                 try:
                     y, m, d = int(value[:4]), int(value[4:6]), int(value[6:8])
                     value = [y, m, d]
                 except:
                     value = value.strip()
-            elif typ == self.b('L'):
-                value = (value in self.b('YyTt') and self.b('T')) or \
-                                        (value in self.b('NnFf') and self.b('F')) or self.b('?')
+            elif typ == 'L':
+                value = (value in self.b('YyTt') and 'T') or \
+                                        (value in self.b('NnFf') and 'F') or '?'
             else:
                 value = self.u(value)
                 value = value.strip()
@@ -916,6 +916,8 @@ class Writer:
                     value = str(value).rjust(size)
                 elif fieldType == 'L':
                     value = str(value)[0].upper()
+                elif fieldType == 'D' and isinstance(value, (list, tuple)):
+                    value = ("%04d%02d%02d" % tuple(value)).ljust(size)
                 else:
                     value = str(value)[:size].ljust(size)
                 assert len(value) == size
-- 
2.43.0


From 30e2d2796d64effde59c96576700ba63a89bebad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 44/72] fix: read blank values of dbf files as empty text

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index edd9b69..61f8dc0 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -506,7 +506,7 @@ class Reader:
             if name == 'DeletionFlag':
                 continue
             elif not value.strip():
-                record.append(value)
+                record.append(self.u(value).strip())
                 continue
             elif typ == "N":
                 value = value.replace(self.b('\0'), self.b('')).strip()
-- 
2.43.0


From 0fc522facd7bc46948e7ebfc63fccff50cb9b03e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 45/72] fix: accept the index of the first record counted from
 the end

---
 coral/shapefile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 61f8dc0..d05814a 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -306,9 +306,8 @@ class Reader:
     def __restrictIndex(self, i):
         """Provides list-like handling of a record index with a clearer
         error message if the index is out of bounds."""
-        if self.numRecords:
-            rmax = self.numRecords - 1
-            if abs(i) > rmax:
+        if self.numRecords is not None:
+            if not -self.numRecords <= i < self.numRecords:
                 raise IndexError("Shape or Record index out of range.")
             if i < 0: i = range(self.numRecords)[i]
         return i
-- 
2.43.0


From e826e34a5cbcd0fa21026a3932348239b4f3a3f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 46/72] fix: read dbf files without records

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index d05814a..c95c435 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -485,7 +485,7 @@ class Reader:
 
     def __recordFmt(self):
         """Calculates the size of a .shp geometry record."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         fmt = ''.join(['%ds' % fieldinfo[2] for fieldinfo in self.fields])
         fmtSize = calcsize(fmt)
@@ -533,7 +533,7 @@ class Reader:
     def record(self, i=0):
         """Returns a specific dbf record based on the supplied index."""
         f = self.__getFileObj(self.dbf)
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         i = self.__restrictIndex(i)
         recSize = self.__recordFmt()[1]
@@ -543,7 +543,7 @@ class Reader:
 
     def records(self):
         """Returns all records in a dbf file."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         records = []
         f = self.__getFileObj(self.dbf)
@@ -557,7 +557,7 @@ class Reader:
     def iterRecords(self):
         """Serves up records in a dbf file as an iterator.
         Useful for large shapefiles or dbf files."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
         f.seek(self.__dbfHeaderLength())
-- 
2.43.0


From 0056b8b66519c7a703148cdbed9382479c5a20df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 47/72] fix: keep dbf records aligned after text that is not
 ASCII

---
 coral/shapefile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c95c435..ddf34e6 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -918,9 +918,11 @@ class Writer:
                 elif fieldType == 'D' and isinstance(value, (list, tuple)):
                     value = ("%04d%02d%02d" % tuple(value)).ljust(size)
                 else:
-                    value = str(value)[:size].ljust(size)
+                    value = str(value)[:size]
+                    while len(self.b(value)) > size:
+                        value = value[:-1]
+                value = self.b(value).ljust(size)
                 assert len(value) == size
-                value = self.b(value)
                 f.write(value)
 
     def null(self):
-- 
2.43.0


From f520609554b66c2bb98e0ca5517a7c73851358b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 48/72] fix: align attribute records given by name when some
 are missing

---
 coral/shapefile.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index ddf34e6..5ccdc34 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -987,17 +987,17 @@ class Writer:
         record = []
         fieldCount = len(self.fields)
         # Compensate for deletion flag
-        if self.fields[0][0].startswith("Deletion"): fieldCount -= 1
+        if self.fields and self.fields[0][0].startswith("Deletion"): fieldCount -= 1
         if recordList:
             [record.append(recordList[i]) for i in range(fieldCount)]
-        elif recordDict:
+        else:
             for field in self.fields:
-                if field[0] in recordDict:
-                    val = recordDict[field[0]]
-                    if val is None:
-                        record.append("")
-                    else:
-                        record.append(val)
+                if field[0].startswith("Deletion"): continue
+                val = recordDict.get(field[0])
+                if val is None:
+                    record.append("")
+                else:
+                    record.append(val)
         if record:
             self.records.append(record)
 
-- 
2.43.0


From 8a9bf29c93d6421289a809aeb734b992c6fb7037 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 49/72] fix: forget the offsets of an earlier save

---
 coral/shapefile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 5ccdc34..ab66941 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -787,6 +787,8 @@ class Writer:
         """Write the shp records"""
         f = self.__getFileObj(self.shp)
         f.seek(100)
+        self._offsets = []
+        self._lengths = []
         recNum = 1
         for s in self._shapes:
             self._offsets.append(f.tell())
-- 
2.43.0


From c4d93f571f690928954b5e3a2aab43e3a6becf62 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 50/72] fix: do not share part types between shapes

---
 coral/shapefile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index ab66941..33c0b2a 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -969,8 +969,7 @@ class Writer:
                 polyShape.points.append(point)
         if polyShape.shapeType == 31:
             if not partTypes:
-                for part in parts:
-                    partTypes.append(polyShape.shapeType)
+                partTypes = [polyShape.shapeType] * len(parts)
             polyShape.partTypes = partTypes
         self._shapes.append(polyShape)
 
-- 
2.43.0


From 96df8c500ee29c3995ee22a5efe050e551ce4d85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 51/72] fix: write null shapes among others

---
 coral/shapefile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 33c0b2a..d8ee130 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -622,6 +622,7 @@ class Writer:
         for s in self._shapes:
             # Add in record header and shape type fields
             size += 12
+            if s.shapeType == NULL: continue
             # nParts and nPoints do not apply to all shapes
             #if self.shapeType not in (0,1):
             #       nParts = len(s.parts)
@@ -680,9 +681,11 @@ class Writer:
             shapeType = self.shapeType
             if shapeTypes:
                 shapeType = shapeTypes[shapes.index(s)]
+            if s.shapeType == NULL: continue
             px, py = list(zip(*s.points))[:2]
             x.extend(px)
             y.extend(py)
+        if not x: return [0, 0, 0, 0]
         return [min(x), min(y), max(x), max(y)]
 
     def __zbox(self, shapes, shapeTypes=[]):
@@ -797,7 +800,7 @@ class Writer:
             recNum += 1
             start = f.tell()
             # Shape Type
-            if self.shapeType != 31:
+            if self.shapeType != 31 and s.shapeType != NULL:
                 s.shapeType = self.shapeType
             f.write(pack("<i", s.shapeType))
             # All shape types capable of having a bounding box
-- 
2.43.0


From f1977e86d42915992d1604d617f716174eb391b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:53 +0000
Subject: [PATCH 52/72] fix: find the type of a shapefile that starts with a
 null shape

---
 coral/shapefile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index d8ee130..88c6604 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1017,7 +1017,7 @@ class Writer:
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shp'
         if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+            self.shapeType = next((s.shapeType for s in self._shapes if s.shapeType), NULL)
         self.shp = self.__getFileObj(target)
         self.__shapefileHeader(self.shp, headerType='shp')
         self.__shpRecords()
@@ -1027,7 +1027,7 @@ class Writer:
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shx'
         if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+            self.shapeType = next((s.shapeType for s in self._shapes if s.shapeType), NULL)
         self.shx = self.__getFileObj(target)
         self.__shapefileHeader(self.shx, headerType='shx')
         self.__shxRecords()
-- 
2.43.0


From 6e1c781105a4d9e7be9aa0b2b053a4020e5004fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:36 +0000
Subject: [PATCH 53/72] fix: write blank logical values

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 88c6604..11fdb5f 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -919,7 +919,7 @@ class Writer:
                 if fieldType.upper() == "N":
                     value = str(value).rjust(size)
                 elif fieldType == 'L':
-                    value = str(value)[0].upper()
+                    value = str(value)[:1].upper()
                 elif fieldType == 'D' and isinstance(value, (list, tuple)):
                     value = ("%04d%02d%02d" % tuple(value)).ljust(size)
                 else:
-- 
2.43.0


From 5150cc09a905f1c55f0ea1bb6d415ef6b83678cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:36 +0000
Subject: [PATCH 54/72] fix: write the elevations and measures of shapes

---
 coral/shapefile.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 11fdb5f..2c95a5a 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -688,25 +688,30 @@ class Writer:
         if not x: return [0, 0, 0, 0]
         return [min(x), min(y), max(x), max(y)]
 
+    def __z(self, s):
+        """Returns the elevations of the points of a shape."""
+        if hasattr(s, "z"):
+            return list(s.z)
+        return [p[2] for p in s.points if len(p) > 2]
+
+    def __m(self, s):
+        """Returns the measures of the points of a shape."""
+        if hasattr(s, "m"):
+            return list(s.m)
+        return [p[3] for p in s.points if len(p) > 3]
+
     def __zbox(self, shapes, shapeTypes=[]):
         z = []
         for s in shapes:
-            try:
-                for p in s.points:
-                    z.append(p[2])
-            except IndexError:
-                pass
+            z.extend(self.__z(s))
         if not z: z.append(0)
         return [min(z), max(z)]
 
     def __mbox(self, shapes, shapeTypes=[]):
-        m = [0]
+        m = []
         for s in shapes:
-            try:
-                for p in s.points:
-                    m.append(p[3])
-            except IndexError:
-                pass
+            m.extend(v for v in self.__m(s) if v is not None)
+        if not m: m.append(0)
         return [min(m), max(m)]
 
     def bbox(self):
@@ -838,18 +843,19 @@ class Writer:
                 except error:
                     raise ShapefileException("Failed to write elevation extremes for record %s. Expected floats." % recNum)
                 try:
-                    #[f.write(pack("<d", p[2])) for p in s.points]
-                    f.write(pack("<%sd" % len(s.z), *s.z))
+                    f.write(pack("<%sd" % len(s.points), *self.__z(s)))
                 except error:
                     raise ShapefileException("Failed to write elevation values for record %s. Expected floats." % recNum)
             # Write m extremes and values
             if s.shapeType in (13,15,18,23,25,28,31):
+                # Measures are optional; None is written as the value for no data
+                m = [-10e39 if v is None else v for v in self.__m(s)] or [-10e39] * len(s.points)
                 try:
                     f.write(pack("<2d", *self.__mbox([s])))
                 except error:
                     raise ShapefileException("Failed to write measure extremes for record %s. Expected floats" % recNum)
                 try:
-                    [f.write(pack("<d", p[3])) for p in s.points]
+                    f.write(pack("<%sd" % len(s.points), *m))
                 except error:
                     raise ShapefileException("Failed to write measure values for record %s. Expected floats" % recNum)
             # Write a single point
-- 
2.43.0


From f49a2bc21282b80bf14320c42df514ef56bc95fc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:36 +0000
Subject: [PATCH 55/72] fix: read the measures of shapes

---
 coral/shapefile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 2c95a5a..18e8f02 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -365,8 +365,8 @@ class Reader:
         if shapeType in (13,15,18,31):
             (zmin, zmax) = unpack("<2d", f.read(16))
             record.z = _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8)))
-        # Read m extremes and values if header m values do not equal 0.0
-        if shapeType in (13,15,18,23,25,28,31) and not 0.0 in self.measure:
+        # Read m extremes and values if the record has them
+        if shapeType in (13,15,18,23,25,28,31) and next - f.tell() >= 16 + nPoints * 8:
             (mmin, mmax) = unpack("<2d", f.read(16))
             # Measure values less than -10e38 are nodata values according to the spec
             record.m = []
-- 
2.43.0


From fb312ea3d8ba9e145f584cdfdb142c6cbfcee016 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:36 +0000
Subject: [PATCH 56/72] fix: count the measures in the length of the file

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 18e8f02..99295cc 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -656,7 +656,7 @@ class Writer:
                 # z array
                 size += 8 * nPoints
             # Calc m extremes and values
-            if self.shapeType in (23,25,31):
+            if self.shapeType in (13,15,18,23,25,28,31):
                 # m extremes
                 size += 16
                 # m array
-- 
2.43.0


From d65ee52dd408678b133cb09d20a93f0dc52a7d41 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:36 +0000
Subject: [PATCH 57/72] fix: read shapes by index without an index file

---
 coral/shapefile.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 99295cc..6a7f7de 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -418,9 +418,7 @@ class Reader:
         offset = self.__shapeIndex(i)
         if not offset:
             # Shx index not available so iterate the full list.
-            for j,k in enumerate(self.iterShapes()):
-                if j == i:
-                    return k
+            return self.shapes()[i]
         shp.seek(offset)
         return self.__shape()
 
-- 
2.43.0


From 96f8696433bfd98310ecb8ed660b56557abd1343 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:36 +0000
Subject: [PATCH 58/72] fix: pair shapes with their records in spite of deleted
 records

---
 coral/shapefile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 6a7f7de..185c79f 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -574,8 +574,12 @@ class Reader:
         """Returns a list of combination geometry/attribute records for
         all records in a shapefile."""
         shapeRecords = []
-        return [_ShapeRecord(shape=rec[0], record=rec[1]) \
-                                for rec in zip(self.shapes(), self.records())]
+        self.__getFileObj(self.dbf)
+        for i, shape in zip(range(self.numRecords), self.shapes()):
+            record = self.record(i)
+            if record:
+                shapeRecords.append(_ShapeRecord(shape=shape, record=record))
+        return shapeRecords
 
 class Writer:
     """Provides write support for ESRI Shapefiles."""
-- 
2.43.0


From e7fae75c072a54f3adf593b45d9007a9c3766099 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:59 +0000
Subject: [PATCH 59/72] fix: write and read the points of multipoint shapes
 with elevations or measures

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 185c79f..dd62328 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -350,7 +350,7 @@ class Reader:
         if shapeType in (3,5,13,15,23,25,31):
             nParts = unpack("<i", f.read(4))[0]
         # Shape types with points
-        if shapeType in (3,5,8,13,15,23,25,31):
+        if shapeType in (3,5,8,13,15,18,23,25,28,31):
             nPoints = unpack("<i", f.read(4))[0]
         # Read parts
         if nParts:
@@ -643,7 +643,7 @@ class Writer:
                 # Parts index array
                 size += nParts * 4
             # Shape types with points
-            if self.shapeType in (3,5,8,13,15,23,25,31):
+            if self.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Points count
                 size += 4
                 # Points array
@@ -821,7 +821,7 @@ class Writer:
                 # Number of parts
                 f.write(pack("<i", len(s.parts)))
             # Shape types with multiple points per record
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Number of points
                 f.write(pack("<i", len(s.points)))
             # Write part indexes
@@ -833,7 +833,7 @@ class Writer:
                 for pt in s.partTypes:
                     f.write(pack("<i", pt))
             # Write points for multiple-point records
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 try:
                     [f.write(pack("<2d", *p[:2])) for p in s.points]
                 except error:
-- 
2.43.0


From a046d163810e086d58af6eee86c0213eb58d746b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:42 +0000
Subject: [PATCH 60/72] fix: take measures below -10^38 for missing ones, as
 specified

---
 coral/shapefile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index dd62328..2826792 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -368,10 +368,10 @@ class Reader:
         # Read m extremes and values if the record has them
         if shapeType in (13,15,18,23,25,28,31) and next - f.tell() >= 16 + nPoints * 8:
             (mmin, mmax) = unpack("<2d", f.read(16))
-            # Measure values less than -10e38 are nodata values according to the spec
+            # Measure values less than -10^38 are nodata values according to the spec
             record.m = []
             for m in _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8))):
-                if m > -10e38:
+                if m >= -1e38:
                     record.m.append(m)
                 else:
                     record.m.append(None)
-- 
2.43.0


From 6a43c27b301ae46a5fc9b6f32f29000635ce7651 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:42 +0000
Subject: [PATCH 61/72] fix: let readers be created before their shapefile is
 given

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 2826792..b118282 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -258,7 +258,7 @@ class Reader:
                     self.dbf.seek(0)
         if self.shp or self.dbf:        
             self.load()
-        else:
+        elif args or kwargs:
             raise ShapefileException("Shapefile Reader requires a shapefile or file-like object.")
 
     def b(self, v):
-- 
2.43.0


From 2c3207815151d33d0ea45eea84ece5d2c0e045e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:42 +0000
Subject: [PATCH 62/72] fix: forget the shapefile before when another one is
 loaded

---
 coral/shapefile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index b118282..0f18a0c 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -275,6 +275,10 @@ class Reader:
         if shapefile:
             (shapeName, ext) = os.path.splitext(shapefile)
             self.shapeName = shapeName
+            self._offsets = []
+            self.numRecords = None
+            self.fields = []
+            self.__dbfHdrLength = 0
             try:
                 self.shp = open("%s.shp" % shapeName, "rb")
             except IOError:
-- 
2.43.0


From 87ff73b32a593abfb38023933dc075b21ad940ca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:42 +0000
Subject: [PATCH 63/72] fix: read float fields of dbf files as numbers

---
 coral/shapefile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 0f18a0c..274a174 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -509,11 +509,11 @@ class Reader:
             elif not value.strip():
                 record.append(self.u(value).strip())
                 continue
-            elif typ == "N":
+            elif typ in ("N", "F"):
                 value = value.replace(self.b('\0'), self.b('')).strip()
                 if value == self.b(''):
                     value = 0
-                elif deci:
+                elif deci or typ == "F":
                     value = float(value)
                 else:
                     value = int(value)
-- 
2.43.0


From 5b33808245c13361badc413370f715c506cff1ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 64/72] fix: keep fields whose names start with Deletion

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 274a174..b199f64 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -775,7 +775,7 @@ class Writer:
         year -= 1900
         # Remove deletion flag placeholder from fields
         for field in self.fields:
-            if field[0].startswith("Deletion"):
+            if field[0] == "DeletionFlag":
                 self.fields.remove(field)
         numRecs = len(self.records)
         numFields = len(self.fields)
@@ -923,7 +923,7 @@ class Writer:
         """Writes the dbf records."""
         f = self.__getFileObj(self.dbf)
         for record in self.records:
-            if not self.fields[0][0].startswith("Deletion"):
+            if not self.fields[0][0] == "DeletionFlag":
                 f.write(self.b(' ')) # deletion flag
             for (fieldName, fieldType, size, dec), value in zip(self.fields, record):
                 fieldType = fieldType.upper()
@@ -1003,12 +1003,12 @@ class Writer:
         record = []
         fieldCount = len(self.fields)
         # Compensate for deletion flag
-        if self.fields and self.fields[0][0].startswith("Deletion"): fieldCount -= 1
+        if self.fields and self.fields[0][0] == "DeletionFlag": fieldCount -= 1
         if recordList:
             [record.append(recordList[i]) for i in range(fieldCount)]
         else:
             for field in self.fields:
-                if field[0].startswith("Deletion"): continue
+                if field[0] == "DeletionFlag": continue
                 val = recordDict.get(field[0])
                 if val is None:
                     record.append("")
-- 
2.43.0


From e71a3ff9c7f08fa9fb94a6b85ee3fc7c14ce855b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 65/72] fix: do not split characters of long field names

---
 coral/shapefile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index b199f64..655e3fa 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -787,6 +787,9 @@ class Writer:
         # Field descriptors
         for field in self.fields:
             name, fieldType, size, decimal = field
+            name = name[:10]
+            while len(self.b(name)) > 10:
+                name = name[:-1]
             name = self.b(name)
             name = name.replace(self.b(' '), self.b('_'))
             name = name.ljust(11).replace(self.b(' '), self.b('\x00'))
-- 
2.43.0


From 27703085b17d2ef583489190af8638c9a668e822 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:40 +0000
Subject: [PATCH 66/72] fix: edit shapefiles with deleted records

---
 coral/shapefile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 655e3fa..7586e1e 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1095,7 +1095,9 @@ class Editor(Writer):
             if os.path.isfile("%s.shp" % base):
                 r = Reader(base)
                 Writer.__init__(self, r.shapeType)
-                self._shapes = r.shapes()
+                # The shapes of deleted records are not kept
+                self._shapes = [s for i, s in enumerate(r.shapes())
+                        if i >= r.numRecords or r.record(i) is not None]
                 self.fields = r.fields
                 self.records = r.records()
 
-- 
2.43.0


From 2058b05e0a72251a1496233ed241a716bd05e936 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:57 +0000
Subject: [PATCH 67/72] fix: keep the records of points added with Editor

---
 coral/shapefile.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 7586e1e..9ec0383 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1178,9 +1178,13 @@ class Editor(Writer):
             shape, part, point = addr
             self._shapes[shape][part][point] = [x, y, z, m]
         else:
-            Writer.point(self, x, y, z, m)
+            Writer.point(self, x, y, z or 0, m or 0)
+
+    def save(self, *args, **kwargs):
+        """Save the shapefile, with as many shapes as records."""
         if self.autoBalance:
             self.balance()
+        return Writer.save(self, *args, **kwargs)
 
     def validate(self):
         """An optional method to try and validate the shapefile
@@ -1192,9 +1196,9 @@ class Editor(Writer):
         """Adds a corresponding empty attribute or null geometry record depending
         on which type of record was created to make sure all three files
         are in synch."""
-        if len(self.records) > len(self._shapes):
+        for i in range(len(self.records) - len(self._shapes)):
             self.null()
-        elif len(self.records) < len(self._shapes):
+        for i in range(len(self._shapes) - len(self.records)):
             self.record()
 
     def __fieldNorm(self, fieldName):
-- 
2.43.0


From c28de1893f317aff847c2651e4ab88170e2e2ad1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:57 +0000
Subject: [PATCH 68/72] fix: delete shapes by number together with their
 records

---
 coral/shapefile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 9ec0383..2882c35 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1116,7 +1116,11 @@ class Editor(Writer):
         elif shape and part and not point:
             del self._shapes[shape][part]
         # shape
-        elif shape and not part and not point:
+        elif shape is not None and part is None and point is None:
+            if self.autoBalance:
+                self.balance()
+                if self.records:
+                    del self.records[shape]
             del self._shapes[shape]
         # point
         elif not shape and not part and point:
-- 
2.43.0


From 48253547a2a039ce18335d7903d6429844aacb6a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:42 +0000
Subject: [PATCH 69/72] fix: leave out extra words of names whatever their case

---
 coral/names.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index 517056c..60be639 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -141,7 +141,7 @@ def abbreviations(names, length, extras=()):
     for i, name in inames:
         tname = name[:]
         for extra in extras:
-            tname = tname.replace(" {} ".format(extra), " ")
+            tname = tname.replace(" {} ".format(norm(extra)), " ")
         if len(tname) <= length:
             abb = tname
         else:
-- 
2.43.0


From d1ea743c5282d3c154465ebf800655223e1c0a99 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:48 +0000
Subject: [PATCH 70/72] fix: keep the boxes of the frames of an animation

---
 coral/vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index 143dd72..a178dd9 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -355,9 +355,11 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
         bb = bb.scale(1.05)
         paths = []
         for i, canvas in tqdm.tqdm(enumerate(frames), total=n, desc="anim"):
-            canvas.bbox = bb
             path = fmt.format(i)
+            own = canvas.bbox
+            canvas.bbox = bb
             canvas.export(path, *args, **kwargs)
+            canvas.bbox = own
             paths.append(path)
         paths = " ".join(paths)
         cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, gifpath)
-- 
2.43.0


From cfab5cfff5dd8c613530541c7f0e87f561f52a39 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:48 +0000
Subject: [PATCH 71/72] fix: export to files with blanks and quotes in their
 names

---
 coral/vector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index a178dd9..1b0a7b7 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -20,6 +20,7 @@
 
 import os
 import inspect
+import shlex
 import subprocess
 import tempfile
 from functools import reduce
@@ -333,7 +334,7 @@ class Canvas:
         pspath = "/tmp/tempeps.ps"
         self.save(pspath, *args, **kwargs)
         cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-        cmd += "-sDEVICE={} -sOutputFile='{}' {}".format(device, path, pspath)
+        cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, shlex.quote(path), pspath)
         ret = subprocess.call(cmd, shell=True)
         os.remove(pspath)
         return ret
@@ -341,7 +342,7 @@ class Canvas:
 def export(pspath, output, device='png256'):
     # useful devices: png{16,48,256,mono,gray,alpha}
     cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-    cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, output, pspath)
+    cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, shlex.quote(output), shlex.quote(pspath))
     ret = subprocess.call(cmd, shell=True)
     return ret
 
@@ -362,6 +363,6 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
             canvas.bbox = own
             paths.append(path)
         paths = " ".join(paths)
-        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, gifpath)
+        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, shlex.quote(gifpath))
         status = subprocess.call(cmd, shell=True)
     return status
-- 
2.43.0


From 2c1b14ebb5cb92a10d6df642c0d99959f40746b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:09 +0000
Subject: [PATCH 72/72] fix: iterate shapes and records while others are read

---
 coral/shapefile.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 2882c35..716cf12 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -447,9 +447,13 @@ class Reader:
         shp = self.__getFileObj(self.shp)
         shp.seek(0,2)
         self.shpLength = shp.tell()
-        shp.seek(100)
-        while shp.tell() < self.shpLength:
-            yield self.__shape()    
+        # Other shapes may be read while the iterator is suspended.
+        pos = 100
+        while pos < self.shpLength:
+            shp.seek(pos)
+            shape = self.__shape()
+            pos = shp.tell()
+            yield shape
 
     def __dbfHeaderLength(self):
         """Retrieves the header length of a dbf file header."""
@@ -562,9 +566,12 @@ class Reader:
         if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
-        f.seek(self.__dbfHeaderLength())
+        pos = self.__dbfHeaderLength()
         for i in xrange(self.numRecords):
+            # Other records may be read while the iterator is suspended.
+            f.seek(pos)
             r = self.__record()
+            pos = f.tell()
             if r:
                 yield r
 
-- 
2.43.0

