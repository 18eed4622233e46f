From 040c13fef9b6dc2d0201e08df60ba5cf79223a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 01/77] fix: list bounds tests report a point that is out of
 bounds

listinBMPrecbnd and listinrecbnd left the loop and then returned True for
every list, so a rectangle with a corner outside the bitmap passed.
---
 pythonbmp/BITMAPlib.py    | 2 +-
 pythonbmp/primitives2D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 658581c..fdfadc2 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -499,7 +499,7 @@ def listinBMPrecbnd(bmp: array,
     for (x, y) in xylist:
         if isinBMPrectbnd(
             bmp, x, y) == False:
-            break
+            return False
     return True
 
 
diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 5df504a..4025e6a 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -818,7 +818,7 @@ def listinrecbnd(
                        xmin, ymin,
                        xmax, ymax) == \
             False:
-            break
+            return False
     return True
 
 
-- 
2.43.0


From cb7b2af2bcb389469f39c07681a4c38ae2ffc263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 02/77] fix: a 45 degree line stays between its endpoints

iterline stepped the minor axis before the first point of a diagonal, so it
left out the start point and yielded one point beyond the end point; drawn to
a corner of a bitmap that point overwrote the header or the palette.
---
 pythonbmp/primitives2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 4025e6a..08aebc3 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -174,6 +174,8 @@ def iterline(p1: list[int, int],
     dxabs = abs(dx)
     dyabs = abs(dy)
     x = y = 0
+    if dxabs == dyabs:
+        y = -1
     (px, py) = p1
     if dxabs >= dyabs:
         ilim = dxabs + 1
-- 
2.43.0


From 9130b74425feaa737de4f9a7c71848b172db9420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 03/77] fix: ellipse outline follows the ellipse and ends

The lower part of the midpoint tracing used the wrong decision update, so
outlines strayed up to 3 pixels at radius 50 and did not reach the tip; a zero
vertical axis never ended.
---
 pythonbmp/primitives2D.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 08aebc3..1f3ed23 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -249,22 +249,26 @@ def iterellipsepart(b: int, a: int) -> list[int, int]:
     _4b_sqr = b_sqr << 2
     d= _2a_sqr * ((row - 1) * row) + \
         a_sqr + _2b_sqr * (1 - a_sqr)
-    while row * a_sqr >= col * b_sqr:
+    while row * a_sqr >= col * b_sqr and \
+          row * a_sqr > 0:
         yield [col, row]
         if d >= 0:
             row -= 1
             d -= _4a_sqr * row
         d += _2b_sqr * (3 + (col << 1))
         col += 1
-    d = _2b_sqr * ((col - 1) * col) + \
+    d = _2b_sqr * ((col + 1) * col) + \
         _2a_sqr * (row * (row - 2) + 1) + \
         (1 - _2a_sqr) * b_sqr
     while row > -1:
         yield [col, row]
-        if d >= 0:
+        if row == 0:
+            for tip in range(col + 1, a + 1):
+                yield [tip, 0]
+        if d <= 0:
             col += 1
-            d -= _4b_sqr * col
-        d += _2a_sqr * (3 + (row << 1))
+            d += _4b_sqr * col
+        d += _2a_sqr * (3 - (row << 1))
         row -= 1
 
 
-- 
2.43.0


From 4a8416773502b1715e633549b75a0e301642270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 04/77] fix: ellipse bounds test matches the axes that are
 drawn

The horizontal axis of an ellipse is a and the vertical one b; the test had
them swapped, so an ellipse over the edge was drawn without clipping.
---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 1f3ed23..fdee85b 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -876,10 +876,10 @@ def entireellipseisinboundary(
         False -> Not all (x, y)
                  is in bounds
     """
-    return (isinrange(x - b, maxx, minx) and \
-            isinrange(x + b, maxx, minx)) and \
-           (isinrange(y - a, maxy, miny) and \
-            isinrange(y + a, maxy, miny))
+    return (isinrange(x - a, maxx, minx) and \
+            isinrange(x + a, maxx, minx)) and \
+           (isinrange(y - b, maxy, miny) and \
+            isinrange(y + b, maxy, miny))
 
 
 def ellipsevert(x: int, y: int,
-- 
2.43.0


From 118b242cbbdeb018e94c35047d3c8ddd9b1d1a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 05/77] fix: gradellipse stops when its shorter axis is used up

It went on with negative axes, which drew ellipses that grow again.
---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index fdfadc2..48be147 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3859,7 +3859,7 @@ def gradellipse(bmp: array,
     r = max(a, b)
     a -= r
     b -= r
-    for i in range(r, 0, -1):
+    for i in range(r, max(-a, -b), -1):
         c = colormix(
                 int(fn(l1, l2, i / r)),
                 RGBfactors)
-- 
2.43.0


From 04d70f680f30dbc3156a69560bd126b0881f3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 06/77] fix: 4-bit horizontal lines off the bitmap or one pixel
 long

A line wholly right or left of a 4-bit bitmap set a stray pixel or raised
IndexError, and a one pixel line was not drawn or landed on its neighbour.
---
 pythonbmp/BITMAPlib.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 48be147..825ba7e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2037,6 +2037,11 @@ def horiline(bmp: array, y: int,
             bmp[s:e] = \
                 array('B', [color] * dx)
         elif bits == 4:
+            if x1 > x2:
+                return
+            if x1 == x2:
+                plotxybit(bmp, x1, y, color)
+                return
             dx >>= 1
             e = s + dx
             color &= 0xf
-- 
2.43.0


From 6e038a4c7529fd184b938113be7f6ba6647da873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 07/77] fix: filledrect uses the color index on 8-bit bitmaps

Like every other drawing call it is given a palette index there; it was taken
for a packed RGB color, so index 0 never filled with entry 0 and enlarged text
came out in other colors.
---
 pythonbmp/BITMAPlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 825ba7e..1d96873 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3976,8 +3976,7 @@ def filledrect(bmp: array,
                               rgb[1],
                               rgb[0]] * dx)
         elif bits == 8:
-            buf = array('B', [matchRGBtopal(rgb,
-                              getallRGBpal(bmp))] * dx)
+            buf = array('B', [color & 0xff] * dx)
         offset = c(bmp, x1, y2)
         lim = c(bmp, x2, y1)
         bufsize = len(buf)
-- 
2.43.0


From 069ff9e5873f89780681419f18036c278936ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 08/77] fix: a vertical line above or below the bitmap leaves
 it alone

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1d96873..ef7b0e0 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2095,6 +2095,8 @@ def vertline(bmp: array, x: int,
             y1 = setmin(y1, 0)
             y2 = setmax(y2, my - 1)
             dy = y2 - y1 + 1
+            if dy < 1:
+                return
             rgb = int2RGBlist(color)
             s = c(bmp, x, y2)
             e = c(bmp, x, y1) + r
-- 
2.43.0


From ec12a64aec2ee9d80d8329b5d30116639aba4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 09/77] fix: a horizontal line left or right of the bitmap
 leaves it alone

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index ef7b0e0..e2cbfed 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2026,6 +2026,8 @@ def horiline(bmp: array, y: int,
         x1 = setmin(x1, 0)
         x2 = setmax(x2, mx - 1)
         dx = x2 - x1 + 1
+        if dx < 1:
+            return
         s = _BMoffsethd(bmp, x1, y)
         if bits == 24:
             e = s + (dx * 3)
@@ -2037,8 +2039,6 @@ def horiline(bmp: array, y: int,
             bmp[s:e] = \
                 array('B', [color] * dx)
         elif bits == 4:
-            if x1 > x2:
-                return
             if x1 == x2:
                 plotxybit(bmp, x1, y, color)
                 return
-- 
2.43.0


From b54cb277c36bab3ec14e7f66dea16e84dbfea2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 10/77] fix: a filled circle or ellipse left or right of the
 bitmap leaves it alone

---
 pythonbmp/BITMAPlib.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index e2cbfed..be5c7f3 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3388,6 +3388,8 @@ def filledcircle(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 rgb = int2RGBlist(color)
                 colorbuf = array('B', [rgb[2],
                                        rgb[1],
@@ -3406,6 +3408,8 @@ def filledcircle(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
                 if isinrange(y2, ymax, -1):
@@ -3758,6 +3762,8 @@ def filledellipse(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 rgb = int2RGBlist(color)
                 colorbuf = \
                  array('B', [rgb[2],
@@ -3777,6 +3783,8 @@ def filledellipse(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
                 if isinrange(y2, my, -1):
-- 
2.43.0


From 99dfb82d11a48b8f6c5584c9e1532d5c9bbe7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 11/77] fix: region flips and mirrors of 1 and 4-bit bitmaps
 move pixels, not bytes

---
 pythonbmp/BITMAPlib.py | 64 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index be5c7f3..7e4b118 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8148,6 +8148,18 @@ def verttransregion(bmp: array,
          'B': _B}[trans]
     x1, y1, x2, y2 = sortrecpoints(
                         x1, y1, x2, y2)
+    if bmp[bmpcolorbits] < 8:
+        while y1 < y2:
+            for x in range(x1, x2 + 1):
+                top = getxybit(bmp, x, y1)
+                bottom = getxybit(bmp, x, y2)
+                if trans != 'T':
+                    plotxybit(bmp, x, y1, bottom)
+                if trans != 'B':
+                    plotxybit(bmp, x, y2, top)
+            y1 += 1
+            y2 -= 1
+        return
     bufsize = adjustxbufsize(bmp, x1, x2)
     r = _xchrcnt(bmp)
     c = _getBMoffhdfunc(bmp)
@@ -8340,6 +8352,11 @@ def fliphorizontalregion(bmp: array,
         byref modified
         unsigned byte array
     """
+    if bmp[bmpcolorbits] < 8:
+        fliphorzontalpixelbased(bmp,
+            *sortrecpoints(x1, y1, x2, y2))
+        return
+
     def _24(bmp, s1, e1, s2, e2, r):
         bmp[s1: e1 - 2: r], bmp[s2: e2 - 2: r], bmp[s1 + 1: e1 - 1: r], bmp[s2 + 1: e2 - 1: r], bmp[s1 + 2: e1: r], bmp[s2 + 2: e2: r] = \
         bmp[s2: e2 - 2: r], bmp[s1: e1 - 2: r], bmp[s2 + 1: e2 - 1: r], bmp[s1 + 1: e1 - 1: r], bmp[s2 + 2: e2: r], bmp[s1 + 2: e1: r]
@@ -8365,6 +8382,43 @@ def fliphorizontalregion(bmp: array,
           1: _1}[bmp[bmpcolorbits]])
 
 
+@entirerectinboundary
+def horizontalmirrorpixelbased(
+        bmp: array, x1: int, y1: int,
+                    x2: int, y2: int,
+                    fromleft: bool):
+    """Mirrors the left or right half of
+        a rectangular region
+        using pixel addressing
+        (slightly slow)
+
+    Args:
+        bmp           : unsigned
+                        byte array
+                        with bmp format
+        x1, y1, x2, y2: the rectangular
+                        region
+        fromleft      : True mirrors the
+                        left half, False
+                        the right half
+
+    Returns:
+        byref modified
+        unsigned byte array
+    """
+    x1, y1, x2, y2 = \
+        sortrecpoints(x1, y1, x2, y2)
+    y2 += 1
+    while x1 < x2:
+        s, d = (x1, x2) if fromleft \
+          else (x2, x1)
+        for y in range(y1, y2):
+            plotxybit(bmp, d, y,
+                getxybit(bmp, s, y))
+        x1 += 1
+        x2 -= 1
+
+
 def mirrorleftinregion(
         bmp: array, x1: int, y1: int,
                     x2: int, y2: int):
@@ -8382,6 +8436,11 @@ def mirrorleftinregion(
         byref modified
         unsigned byte array
     """
+    if bmp[bmpcolorbits] < 8:
+        horizontalmirrorpixelbased(bmp,
+            x1, y1, x2, y2, True)
+        return
+
     def _24(bmp, s1, e1, s2, e2, r):
         bmp[s2: e2 - 2: r], bmp[s2 + 1: e2 - 1: r], bmp[s2 + 2: e2: r]= \
         bmp[s1: e1 - 2: r], bmp[s1 + 1: e1 - 1: r], bmp[s1 + 2: e1: r]
@@ -8422,6 +8481,11 @@ def mirrorrightinregion(
         byref modified
         unsigned byte array
     """
+    if bmp[bmpcolorbits] < 8:
+        horizontalmirrorpixelbased(bmp,
+            x1, y1, x2, y2, False)
+        return
+
     def _24(bmp, s1, e1, s2, e2, r):
         bmp[s1: e1 - 2: r], bmp[s1 + 1: e1 - 1: r], bmp[s1 + 2: e1: r]=\
         bmp[s2: e2 - 2: r], bmp[s2 + 1: e2 - 1: r], bmp[s2 + 2: e2: r]
-- 
2.43.0


From a48ae15439c7854678fd5d13109978a95c54bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 12/77] fix: splitting an odd-width row keeps its last pixel
 when resizing 24-bit bitmaps

---
 pythonbmp/buffersplit.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pythonbmp/buffersplit.py b/pythonbmp/buffersplit.py
index 874ca8e..8595c3f 100644
--- a/pythonbmp/buffersplit.py
+++ b/pythonbmp/buffersplit.py
@@ -48,8 +48,6 @@ def altsplitbuf3way(buf: list[any]
          [blue list]]
     """
     m = len(buf)
-    if m % 3 == 0:
-        m -= m & 1
     return [buf[:m - 2:3], buf[1: m - 1: 3], buf[2: m: 3]]
 
 
@@ -71,8 +69,6 @@ def altsplitbufnway(buf: list[any],
     retval = []
     m = len(buf)
     j = n - 1
-    if m % n == 0:
-        m -= m & 1
     for i in range(n):
         retval += [buf[i: m - j: n]]
         j -= 1
-- 
2.43.0


From 00777feb6ca9a1bbc5d96eaebcbed0e671b89441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 13/77] fix: rows of unaligned 1 and 4-bit widths are resized
 and upgraded whole

---
 pythonbmp/BITMAPlib.py |  4 ++--
 pythonbmp/bufresize.py | 15 +++++----------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7e4b118..d5fd7aa 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7560,7 +7560,7 @@ def upgradeto24bitimage(bmp: array):
                         0, 0, mx, my):
             BMPbitBLTput(nbmp, offset,
                 convertbufto24bit(buf,
-                    bgrpal, bits))
+                    bgrpal, bits)[:r])
             offset += r
     return nbmp
 
@@ -8969,7 +8969,7 @@ def resizeNtimesbigger(
     r = _xchrcnt(nbmp)
     for buf in itercopyrect(bmp, 0, 0,
                         mx, my):
-        nbuf = resizebufNtimesbigger(buf, n, bits)
+        nbuf = resizebufNtimesbigger(buf, n, bits)[:r]
         for _ in range(n):
             BMPbitBLTput(nbmp, offset, nbuf)
             offset += r
diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index 9866df0..aee707b 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -44,13 +44,7 @@ def adjustbufsize(
         An adjusted int value of the
         buffer size
     """
-    if bits == 1:
-        bufsize >>= 3
-    elif bits == 24:
-        bufsize *= 3
-    elif bits == 4:
-        bufsize >>= 1
-    return bufsize
+    return (bufsize * bits + 7) >> 3
 
 
 def adjustxbufsize(bmp: array,
@@ -72,8 +66,9 @@ def adjustxbufsize(bmp: array,
     Returns:
         int adjusted buffer size
     """
-    return adjustbufsize(x2 - x1 + 1,
-                            bmp[28])
+    bits = bmp[28]
+    return ((((x2 + 1) * bits + 7) >> 3) -
+                       ((x1 * bits) >> 3))
 
 
 def packbitlisttobuf(blist: list[int]
@@ -94,7 +89,7 @@ def packbitlisttobuf(blist: list[int]
     b = 0
     while i < j:
         m = i % 8
-        b += blist[i - 1] << (7 - m)
+        b += blist[i - 1] << (-i % 8)
         if m == 0 and i > 1:
             retval += [b]
             b = 0
-- 
2.43.0


From d3a1aa4591e9b092d8f742931efc417c1f5d66f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 14/77] fix: iterimageRGB leaves the padding bits of 1 and
 4-bit rows

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index d5fd7aa..c556df9 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7625,7 +7625,7 @@ def iterimageRGB(bmp: array,
                                 b[offset + 1],
                                 b[offset]))
             x += 1
-        if x == mx:
+        if x >= mx:
             x = 0
             y -= 1
             offset += padbytes
-- 
2.43.0


From 9e9273c1c2661989846761027426c23c2c098140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 15/77] fix: copied rectangles keep their size and land where
 they are pasted

---
 pythonbmp/BITMAPlib.py | 30 ++++++++++++++++++++++--------
 pythonbmp/inttools.py  |  2 +-
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c556df9..9cfd239 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7721,7 +7721,11 @@ def copyrect(bmp: array,
     retval = array('B', [bmp[bmpcolorbits]])
     x1, y1, x2, y2 = \
        sortrecpoints(x1, y1, x2, y2)
-    retval += int2buf(2, x2 - x1 + 2)
+    if bmp[bmpcolorbits] < 8:
+        bmp = crop(bmp, x1, y1, x2, y2)
+        x1, y1, x2, y2 = \
+           0, 0, x2 - x1, y2 - y1
+    retval += int2buf(2, x2 - x1 + 1)
     retval += int2buf(2, y2 - y1 + 1)
     retval += int2buf(2,
                 adjustxbufsize(bmp, x1, x2))
@@ -7749,8 +7753,9 @@ def pasterect(bmp: array, buf: array,
     if bmp[bmpcolorbits] != buf[0]:
         print(sysmsg['bitsnotequal'])
     else:
-        x2 = x1 + buf2int(buf[1: 3])
-        y2 = y1 + buf2int(buf[3: 5])
+        bits = buf[0]
+        x2 = x1 + buf2int(buf[1: 3]) - 1
+        y2 = y1 + buf2int(buf[3: 5]) - 1
         r = _xchrcnt(bmp)
         if listinBMPrecbnd(bmp, ((x1, y1),
                                 (x2, y2))):
@@ -7760,9 +7765,18 @@ def pasterect(bmp: array, buf: array,
             endoff = br + 7
             bufsize = len(buf)
             while startoff < bufsize:
-                BMPbitBLTput(bmp,
-                    offset,
-                    buf[startoff: endoff])
+                if bits < 8:
+                    for x in range(x1, x2 + 1):
+                        i = (x - x1) * bits
+                        plotxybit(bmp, x, y2,
+                            (buf[startoff + (i >> 3)] >>
+                             (8 - bits - (i & 7))) &
+                            ((1 << bits) - 1))
+                    y2 -= 1
+                else:
+                    BMPbitBLTput(bmp,
+                        offset,
+                        buf[startoff: endoff])
                 offset += r
                 startoff = endoff
                 endoff += br
@@ -7785,8 +7799,8 @@ def convertselection2BMP(buf: array):
         print (sysmsg['invalidbuf'])
     else:
         bmp = newBMP(
-                buf2int(buf[1: 3]) + 1,
-                buf2int(buf[3: 5]) + 1,
+                buf2int(buf[1: 3]),
+                buf2int(buf[3: 5]),
                 bits)
         pasterect(bmp, buf, 0, 0)
     return bmp
diff --git a/pythonbmp/inttools.py b/pythonbmp/inttools.py
index 8450315..3018998 100644
--- a/pythonbmp/inttools.py
+++ b/pythonbmp/inttools.py
@@ -88,5 +88,5 @@ def buf2int(buf: array) -> int:
     Returns:
         unsigned int value
     """
-    j = len(buf) - 1
+    j = len(buf)
     return sum(buf[i] << (i << 3) for i in range(j))
-- 
2.43.0


From 8d7feb579e7da472394963b2b0285db73c937a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 16/77] fix: a cropped 8-bit bitmap keeps its palette

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 9cfd239..bc63cd6 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8836,8 +8836,9 @@ def crop(bmp: array, x1: int, y1: int,
     bits = bmp[bmpcolorbits]
     nbmp = newBMP(x2 - x1 + 1,
                   y2 - y1 + 1, bits)
-    if bits < 8:
+    if bits < 24:
         copyRGBpal(bmp, nbmp)
+    if bits < 8:
         for v in itergetcolorfromrectregion(
                     bmp, x1, y1, x2, y2):
             intplotvecxypoint(nbmp,
-- 
2.43.0


From 22eaf87bdfbc96acfce0448b610326a77c72218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 17/77] fix: erasing every nth line reaches the last row

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index bc63cd6..6cf36b3 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7858,7 +7858,7 @@ def erasealternatehorizontallines(
     bytepat &= 0xff
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
@@ -8002,7 +8002,7 @@ def erasealternatehorizontallinesinregion(
     s2 = f(bmp, x1, y1)
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
-- 
2.43.0


From d58458078d19dd4793aac8e9ac46111b4f70ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 18/77] fix: outlining and erasing lines in a rectangle keep to
 the rectangle

---
 pythonbmp/BITMAPlib.py | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 6cf36b3..c36ba24 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7958,6 +7958,35 @@ def eraseeverynthhorizontallineinccircregion(
         bmp, x, y, r, n, 0, 0)
 
 
+def _putrowpart(bmp: array,
+        x1: int, x2: int,
+        offset: int, buf: array):
+    """Writes the bytes that hold the pixels
+        x1 to x2 of a row and keeps the
+        other pixels in these bytes
+
+    Args:
+        bmp   : unsigned byte array
+                with bmp format
+        x1, x2: first and last pixel
+        offset: where the byte with
+                pixel x1 is in bmp
+        buf   : bytes to write
+
+    Returns:
+        byref modified unsigned byte array
+    """
+    bits = bmp[bmpcolorbits]
+    end = offset + len(buf)
+    if bits < 8:
+        buf = array('B', buf)
+        m = 255 >> ((x1 * bits) & 7)
+        buf[0] = (bmp[offset] & ~m) | (buf[0] & m)
+        m = 255 << (-((x2 + 1) * bits) & 7)
+        buf[-1] = (bmp[end - 1] & ~m) | (buf[-1] & m)
+    bmp[offset: end] = buf
+
+
 @entirerectinboundary
 def erasealternatehorizontallinesinregion(
         bmp: array,
@@ -8005,7 +8034,7 @@ def erasealternatehorizontallinesinregion(
     while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
-            bmp[s2: s2 + bufsize] = blank
+            _putrowpart(bmp, x1, x2, s2, blank)
         s2 -= r
         i += 1
 
@@ -12681,17 +12710,19 @@ def _cmpimglines(bmp: array,
         x1: int, y1: int,
         x2: int, y2: int,
         func: Callable):
-    offset = _BMoffset(bmp, x1, y2)
+    x1, y1, x2, y2 = \
+        sortrecpoints(x1, y1, x2, y2)
+    offset = _BMoffsethd(bmp, x1, y2)
     r = _xchrcnt(bmp)
     oldbuf = []
     for buf in itercopyrect(
                     bmp, x1, y1, x2, y2):
         if oldbuf != []:
-            BMPbitBLTput(bmp,
-                offset, array('B', func(buf, oldbuf)))
+            _putrowpart(bmp, x1, x2, offset,
+                array('B', func(buf, oldbuf)))
             offset += r
         oldbuf = buf
-    BMPbitBLTput(bmp, offset,
+    _putrowpart(bmp, x1, x2, offset,
         array('B', func(buf, oldbuf)))
 
 
-- 
2.43.0


From a9ca6192d10d7a7ccfe7c9ba0d00815b80768bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 19/77] fix: brightness gradients of a single row, column or
 pixel do not divide by zero

---
 pythonbmp/BITMAPlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c36ba24..f0f4072 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3097,7 +3097,7 @@ def vertbrightnessgrad2circregion(
     c = _getBMoffhdfunc(bmp)
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (2 * r)
+    dl = delta(lumrange) / setmin(2 * r, 1)
     b = y - r
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
@@ -3133,7 +3133,7 @@ def horibrightnessgrad2circregion(
     """
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (2 * r)
+    dl = delta(lumrange) / setmin(2 * r, 1)
     b = x - r
     for (v0, v1)  in itercirclepartvertlineedge(r):
         x1, x2 = mirror(x, v0)
@@ -12484,7 +12484,7 @@ def verticalbrightnessgradto24bitregion(
     offset = _24bmof(bmp, x1, y2)
     r = _xchrcnt(bmp)
     lum = lumrange[1]
-    dlum = (lumrange[0] - lum) / (y2 - y1)
+    dlum = (lumrange[0] - lum) / setmin(y2 - y1, 1)
     for buf in itercopyrect(bmp, x1, y1, x2, y2):
         BMPbitBLTput(bmp, offset,
              applybrightnessadjtoBGRbuf(buf, lum))
@@ -12521,7 +12521,7 @@ def horizontalbrightnessgradto24bitregion(
     xlim = x2 + 1
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (x2 - x1)
+    dl = delta(lumrange) / setmin(x2 - x1, 1)
     for x in range(x1, xlim):
         s = c(bmp, x, y2)
         e = c(bmp, x, y1)
-- 
2.43.0


From 5f31860d7ccf78a427e917c87ed31304eedb6713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 20/77] fix: color filter factors above one saturate instead of
 overflowing

---
 pythonbmp/colors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index c2fd5aa..84da5d0 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -795,9 +795,9 @@ def applycolorfiltertoBGRbuf(
     m = len(buf) - 1
     (r, g, b) = rgbfactors
     buf[0 : m - 2 : 3], buf[1 : m - 1 : 3], buf[2: m: 3] = (
-    array('B', intscalarmulvect(buf[  : m - 2 : 3], b)),
-    array('B', intscalarmulvect(buf[1 : m - 1 : 3], g)),
-    array('B', intscalarmulvect(buf[2 : m     : 3], r)),
+    array('B', intsetminmaxvec(scalarmulvect(buf[  : m - 2 : 3], b), 0, 255)),
+    array('B', intsetminmaxvec(scalarmulvect(buf[1 : m - 1 : 3], g), 0, 255)),
+    array('B', intsetminmaxvec(scalarmulvect(buf[2 : m     : 3], r), 0, 255)),
     )
 
 
-- 
2.43.0


From 29fee996a34f9ec029b2e5b19ded2fc940729543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 21/77] fix: circular regions are bounded by the height of the
 bitmap, not its width twice

---
 pythonbmp/paramchecks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/paramchecks.py b/pythonbmp/paramchecks.py
index 035e0a4..18d8adc 100644
--- a/pythonbmp/paramchecks.py
+++ b/pythonbmp/paramchecks.py
@@ -352,7 +352,7 @@ def entirecircleinboundary(func):
                            and type(r) == int:
             if entirecircleisinboundary(
                     x, y, -1, readint(bmpx, 4, bmp),
-                          -1, readint(bmpx, 4, bmp), r):
+                          -1, readint(bmpy, 4, bmp), r):
                 return(func(*args, **kwargs))
             else:
                 print(sysmsg['regionoutofbounds'])
-- 
2.43.0


From 02d2c3142ce52986641cbde3f475e2ddc7f463eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:20 +0000
Subject: [PATCH 22/77] fix: monochrome filter of a circle partly outside the
 bitmap does not raise

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f0f4072..683ba24 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2510,7 +2510,7 @@ def _usenopar24btfn2circreg(bmp: array,
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
             if isinrange(y2, ymax, -1):
-                s2 = c(bmp, x1 ,y2),
+                s2 = c(bmp, x1 ,y2)
                 e2 = c(bmp, x2, y2)
                 bmp[s2: e2] = func(bmp[s2: e2])
             if isinrange(y1, ymax, -1) and y2 != y1:
-- 
2.43.0


From cd08e67a7c253b8fdd850ae3bf00cff6709e0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 23/77] fix: circular filters of a circle over the right edge
 include the last column

---
 pythonbmp/BITMAPlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 683ba24..d1a709c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2508,7 +2508,7 @@ def _usenopar24btfn2circreg(bmp: array,
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax - 1)
+            x2 = setmax(x2, xmax)
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1 ,y2)
                 e2 = c(bmp, x2, y2)
@@ -2566,7 +2566,7 @@ def _use24btfn2circreg(bmp: array,
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax - 1)
+            x2 = setmax(x2, xmax)
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2717,7 +2717,7 @@ def _usenoparfn2circreg(bmp: array,
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax - 1)
+            x2 = setmax(x2, xmax)
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
-- 
2.43.0


From 13baba9f10a1789eb116a766094d3b9c0981da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 24/77] fix: inverting, erasing and vertical transforms of a
 circle keep to the circle at 1 and 4 bits

---
 pythonbmp/BITMAPlib.py | 81 +++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index d1a709c..a26c5ac 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2696,20 +2696,20 @@ def _usenoparfn2circreg(bmp: array,
     Returns:
         byref modified unsigned byte array
     """
-    c = _getBMoffhdfunc(bmp)
     if entirecircleisinboundary(
             x, y, -1, getmaxx(bmp),
                   -1, getmaxy(bmp), r):
         for (v0, v1) in itercirclepartlineedge(r):
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
-            s1 = c(bmp, x1, y1)
-            e1 = c(bmp, x2, y1)
-            s2 = c(bmp, x1, y2)
-            e2 = c(bmp, x2, y2)
-            bmp[s1: e1] = func(bmp[s1: e1])
+            x2 -= 1
+            s1, e1 = _rowspan(bmp, x1, x2, y1)
+            s2, e2 = _rowspan(bmp, x1, x2, y2)
+            _putrowpart(bmp, x1, x2, s1,
+                func(bmp[s1: e1]))
             if y1 != y2:
-                bmp[s2: e2] = func(bmp[s2: e2])
+                _putrowpart(bmp, x1, x2, s2,
+                    func(bmp[s2: e2]))
     else:
         xmax = getmaxx(bmp)
         ymax = getmaxy(bmp)
@@ -2717,15 +2717,15 @@ def _usenoparfn2circreg(bmp: array,
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax)
+            x2 = setmax(x2, xmax) - 1
             if isinrange(y2, ymax, -1):
-                s2 = c(bmp, x1, y2)
-                e2 = c(bmp, x2, y2)
-                bmp[s2: e2] = func(bmp[s2: e2])
+                s2, e2 = _rowspan(bmp, x1, x2, y2)
+                _putrowpart(bmp, x1, x2, s2,
+                    func(bmp[s2: e2]))
             if isinrange(y1, ymax, -1) and y2 != y1:
-                s1 = c(bmp, x1, y1)
-                e1 = c(bmp, x2, y1)
-                bmp[s1: e1] = func(bmp[s1: e1])
+                s1, e1 = _rowspan(bmp, x1, x2, y1)
+                _putrowpart(bmp, x1, x2, s1,
+                    func(bmp[s1: e1]))
 
 
 @entirecircleinboundary
@@ -2940,27 +2940,26 @@ def verttransformincircregion(
         byref modified unsigned byte array
     """
     def _T():
-        bmp[s2: e2] = bmp[s1: e1]
+        _putrowpart(bmp, x1, x2, s2, bmp[s1: e1])
 
     def _B():
-        bmp[s1: e1] = bmp[s2: e2]
+        _putrowpart(bmp, x1, x2, s1, bmp[s2: e2])
 
     def _F():
-        bmp[s1: e1], bmp[s2: e2] = \
-        bmp[s2: e2], bmp[s1: e1]
+        buf = bmp[s1: e1]
+        _putrowpart(bmp, x1, x2, s1, bmp[s2: e2])
+        _putrowpart(bmp, x1, x2, s2, buf)
 
     f = {'T': _T,
          'B': _B,
          'F' : _F}[trans]
 
-    c=_getBMoffhdfunc(bmp)
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
         y1, y2 = mirror(y, v1)
-        s1 = c(bmp, x1, y1)
-        e1 = c(bmp, x2, y1)
-        s2 = c(bmp, x1, y2)
-        e2 = c(bmp, x2, y2)
+        x2 -= 1
+        s1, e1 = _rowspan(bmp, x1, x2, y1)
+        s2, e2 = _rowspan(bmp, x1, x2, y2)
         f()
 
 
@@ -7919,23 +7918,21 @@ def erasealternatehorizontallinesincircregion(
     Returns:
         byref modified unsigned byte array
     """
-    c = _getBMoffhdfunc(bmp)
     bytepat &= 0xff
     for v in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v[0])
         y1, y2 = mirror(y, v[1])
-        s1 = c(bmp, x1, y1)
-        e1 = c(bmp, x2, y1)
-        s2 = c(bmp, x1, y2)
-        e2 = c(bmp, x2, y2)
+        x2 -= 1
+        s1, e1 = _rowspan(bmp, x1, x2, y1)
+        s2, e2 = _rowspan(bmp, x1, x2, y2)
         if y1 % int_eraseeverynline == \
                 int_eraseNthline:
-            bmp[s1: e1] = \
-            array('B', [bytepat] * (e1 - s1))
+            _putrowpart(bmp, x1, x2, s1,
+            array('B', [bytepat] * (e1 - s1)))
         if y2 % int_eraseeverynline == \
                 int_eraseNthline:
-            bmp[s2: e2] = \
-            array('B', [bytepat] * (e2 - s2))
+            _putrowpart(bmp, x1, x2, s2,
+            array('B', [bytepat] * (e2 - s2)))
 
 
 def eraseeverynthhorizontallineinccircregion(
@@ -7958,6 +7955,24 @@ def eraseeverynthhorizontallineinccircregion(
         bmp, x, y, r, n, 0, 0)
 
 
+def _rowspan(bmp: array, x1: int,
+        x2: int, y: int) -> tuple:
+    """Finds the bytes that hold the pixels
+        x1 to x2 of the row y
+
+    Args:
+        bmp   : unsigned byte array
+                with bmp format
+        x1, x2: first and last pixel
+        y     : row
+
+    Returns:
+        (start, end) offsets in bmp
+    """
+    s = _BMoffsethd(bmp, x1, y)
+    return s, s + adjustxbufsize(bmp, x1, x2)
+
+
 def _putrowpart(bmp: array,
         x1: int, x2: int,
         offset: int, buf: array):
@@ -7978,7 +7993,7 @@ def _putrowpart(bmp: array,
     """
     bits = bmp[bmpcolorbits]
     end = offset + len(buf)
-    if bits < 8:
+    if bits < 8 and end > offset:
         buf = array('B', buf)
         m = 255 >> ((x1 * bits) & 7)
         buf[0] = (bmp[offset] & ~m) | (buf[0] & m)
-- 
2.43.0


From 0bf20c1ee0cd3afb39aff888707534ded45d6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 25/77] fix: pasting a circle of another bit depth reports it

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index a26c5ac..4c56907 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2642,7 +2642,7 @@ def pastecirularbuf(bmp: array,
                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
                         circbuf[i][1]
             else:
-                raise(sysmsg['bitsnotequal'])
+                print(sysmsg['bitsnotequal'])
         else:
             print(sysmsg['regionoutofbounds'])
 
-- 
2.43.0


From e8d1cc919751800611c82b87318f8b0eaef35aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:30 +0000
Subject: [PATCH 26/77] fix: copying and transposing a circle of a 1 or 4-bit
 bitmap moves pixels, not bytes

---
 pythonbmp/BITMAPlib.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4c56907..e6aab11 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2602,8 +2602,13 @@ def copycircregion2buf(bmp: array,
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
         y1, y2 = mirror(y, v1)
-        copybuf += [[bmp[c(bmp, x1, y1): c(bmp, x2, y1)],
-                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)]]]
+        if copybuf[0] < 8:
+            copybuf += [[[getxybit(bmp, i, j)
+                        for i in range(x1, x2)]
+                        for j in (y1, y2)]]
+        else:
+            copybuf += [[bmp[c(bmp, x1, y1): c(bmp, x2, y1)],
+                         bmp[c(bmp, x1, y2): c(bmp, x2, y2)]]]
     return copybuf
 
 
@@ -2637,10 +2642,16 @@ def pastecirularbuf(bmp: array,
                 for i, (v0, v1) in enumerate(itercirclepartlineedge(r), start=2):
                     x1, x2 = mirror(x, v0)
                     y1, y2 = mirror(y, v1)
-                    bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
-                        circbuf[i][0]
-                    bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-                        circbuf[i][1]
+                    if circbuf[0] < 8:
+                        for j, color in enumerate(circbuf[i][0]):
+                            plotxybit(bmp, x1 + j, y1, color)
+                        for j, color in enumerate(circbuf[i][1]):
+                            plotxybit(bmp, x1 + j, y2, color)
+                    else:
+                        bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
+                            circbuf[i][0]
+                        bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
+                            circbuf[i][1]
             else:
                 print(sysmsg['bitsnotequal'])
         else:
@@ -2747,14 +2758,13 @@ def flipXYcircregion(bmp: array,
     if bits not in [24, 8]:
         n = flipXY(bmp)
         for (v0, v1) in itercirclepartlineedge(r):
-            x3, x4 = mirror(y, v0)
             y3, y4 = mirror(x, v1)
-            x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
-            bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
-              n[c(n, x3, y3): c(n, x4, y3)]
-            bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-              n[c(n, x3, y4): c(n, x4, y4)]
+            for i in range(-v0, v0):
+                plotxybit(bmp, x + i, y1,
+                    getxybit(n, y + i, y3))
+                plotxybit(bmp, x + i, y2,
+                    getxybit(n, y + i, y4))
     else:
         buf = []
         for (v0, v1) in itercirclepartlineedge(r):
-- 
2.43.0


From ce7f76dde41d0dc577144ac2cd3a009ee9f731f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 27/77] fix: outlining a circle of a 1 or 4-bit bitmap compares
 pixels, not bytes

---
 pythonbmp/BITMAPlib.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index e6aab11..2e2b915 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3172,7 +3172,18 @@ def outlinecircregion(bmp: array,
     """
     bits = bmp[bmpcolorbits]
     c = _getBMoffhdfunc(bmp)
-    if entirecircleisinboundary(
+    if bits < 8:
+        xmax, ymax = getmaxxy(bmp)
+        for (v0, v1) in itercirclepartlineedge(r):
+            x1 = setmin(x - v0, 0)
+            x2 = setmax(x + v0, xmax - 1)
+            for j in {y - v1, y + v1}:
+                if isinrange(j, ymax, -1):
+                    for i in range(x1, x2):
+                        plotxybit(bmp, i, j,
+                            getxybit(bmp, i, j) ^
+                            getxybit(bmp, i + 1, j))
+    elif entirecircleisinboundary(
             x, y,
             -1, getmaxx(bmp),
             -1, getmaxy(bmp), r):
-- 
2.43.0


From 0d48b7b0a73865cb39b0139ae7c6be0c8788558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 28/77] fix: the first row and column count as neighbors of a
 pixel

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index fdee85b..4f3327c 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -674,20 +674,20 @@ def itergetneighbors(v: list[int, int],
         ty = y - 1
         rx = x + 1
         by = y + 1
-        if ty > 0:
+        if ty > -1:
             yield [x, ty]
         if includecenter:
             yield(v)
         if by < my:
             yield [x, by]
-        if lx > 0:
-            if ty > 0:
+        if lx > -1:
+            if ty > -1:
                 yield [lx, ty]
             yield [lx, y]
             if by < my:
                 yield [lx, by]
         if rx < mx:
-            if ty > 0:
+            if ty > -1:
                 yield [rx, ty]
             yield [rx, y]
             if by < my:
-- 
2.43.0


From 2f59122f36bf95390fa00436f523e87e1cffb4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:55 +0000
Subject: [PATCH 29/77] fix: autocrop of an image that reaches the right or
 bottom border saves it

---
 pythonbmp/BITMAPlib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 2e2b915..ea43b39 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -14676,11 +14676,14 @@ def autocropimg2file(
         new bitmap file
     """
     bmp = loadBMP(ExistingBMPfile)
+    p, (x, y) = rectboundarycoords(
+        getimagedgevert(bmp,
+            similaritythreshold))
+    mx, my = getmaxxy(bmp)
     cropBMPandsaveusingrectbnd(
         ExistingBMPfile, NewBMPfile,
-        rectboundarycoords(
-            getimagedgevert(bmp,
-                similaritythreshold)))
+        (p, (setmax(x, mx - 2),
+             setmax(y, my - 2))))
 
 
 @functimer
-- 
2.43.0


From 6894061134525d34ad145570dc8d8813f6190ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 30/77] fix: determinant of a 3x3 matrix uses the third row in
 its last term

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index a913326..79939a9 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -781,7 +781,7 @@ def det3D(
            a1[2] * a2[0] * a3[1] - \
            a1[0] * a2[2] * a3[1] - \
            a1[1] * a2[0] * a3[2] - \
-           a1[2] * a2[1] * a2[0]
+           a1[2] * a2[1] * a3[0]
 
 
 def cosaffin(u: list[Number],
-- 
2.43.0


From 95270d98360081988ed813857c26288bf481184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 31/77] fix: vectors are orthogonal when their inner product is
 zero

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 79939a9..4c7e22d 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -633,7 +633,7 @@ def isorthogonal(
                 so they are
                 nonorthogonal vectors
     """
-    return vectiszero(mulvect(u, v))
+    return dotprod(u, v) == 0
 
 
 def crossprod3d(
-- 
2.43.0


From afc2edab1235d2737689610e3bf52a2a21e91ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 32/77] fix: polar, cylindrical and spherical coordinates keep
 the quadrant and the radius

---
 pythonbmp/mathlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 4c7e22d..2f876cb 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -20,6 +20,7 @@ from math import(
     asin,
     acos,
     atan,
+    atan2,
     cos,
     cosh,
     degrees,
@@ -886,7 +887,7 @@ def rect2sphericalcoord3D(
         phi: float]
     """
     p = vmag(v)
-    return [p, atan(v[1] / v[0]),
+    return [p, atan2(v[1], v[0]),
                acos(v[2] / p)]
 
 
@@ -938,8 +939,8 @@ def rect2cylindricalcoord3D(
              angle: float,
              z: Number]
     """
-    return [vmag(v),
-            atan(v[1] / v[0]),
+    return [vmag(v[:2]),
+            atan2(v[1], v[0]),
             v[2]]
 
 
@@ -998,7 +999,7 @@ def rect2polarcoord2D(
     Returns:
         [magnitude: float, angle: float]
     """
-    return [vmag(v), atan(v[1] / v[0])]
+    return [vmag(v), atan2(v[1], v[0])]
 
 
 def polarcoordangle2D(v:list) -> float:
-- 
2.43.0


From 2f736190274a6fb93fa9e867cb5969983c53b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 33/77] fix: the midasc luminosity range is listed under its
 name

---
 pythonbmp/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index 84da5d0..8a5a36c 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -51,7 +51,7 @@ def getdefaultlumrange() -> dict:
     return {'maxdesc': [255, 0],
              'maxasc': [0, 255],
             'middesc': [192, 64],
-            ' midasc': [64, 192],
+            'midasc': [64, 192],
           'upperdesc': [255, 128],
            'upperasc': [128, 255],
           'lowerdesc': [128, 0],
-- 
2.43.0


From 349fd6dfaf9a788405859c0c7c94351cb6458a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 34/77] fix: reversing a 1-bit buffer keeps the last pixel of
 each byte

---
 pythonbmp/bufferflip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/bufferflip.py b/pythonbmp/bufferflip.py
index bbc4ea9..69c2d5e 100644
--- a/pythonbmp/bufferflip.py
+++ b/pythonbmp/bufferflip.py
@@ -30,7 +30,7 @@ def rotatebitsinbuf(
     Returns:
         unsigned byte array
     """
-    return array('B', [rotatebits(b)
+    return array('B', [rotatebits(b) | (b & 1) << 7
                        for b in buf])
 
 
-- 
2.43.0


From a4dc5dee0deec6b02948ca998c6afa9c19825fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:41 +0000
Subject: [PATCH 35/77] fix: pixelizing a circle near the right or bottom
 border reads inside the pixelized image

---
 pythonbmp/BITMAPlib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index ea43b39..658a7ea 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12611,7 +12611,10 @@ def pixelizenxncircregion(bmp: array,
     Returns:
         byref modified unsigned byte array
     """
-    b = pixelizenxn(bmp, n)
+    p = pixelizenxn(bmp, n)
+    b = bmp[:]
+    pasterect(b, copyrect(p, 0, 0,
+        getmaxx(p) - 1, getmaxy(p) - 1), 0, 0)
     c = _BMoffsethd
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
-- 
2.43.0


From 917db1e688af79a5c5f848aa45f9fa3a240a4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 36/77] fix: circular filters of a circle left of the bitmap
 leave it alone

---
 pythonbmp/BITMAPlib.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 658a7ea..60c7b35 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2509,6 +2509,8 @@ def _usenopar24btfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax)
+            if x2 < x1:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1 ,y2)
                 e2 = c(bmp, x2, y2)
@@ -2567,6 +2569,8 @@ def _use24btfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax)
+            if x2 < x1:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2729,6 +2733,8 @@ def _usenoparfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax) - 1
+            if x2 < x1:
+                continue
             if isinrange(y2, ymax, -1):
                 s2, e2 = _rowspan(bmp, x1, x2, y2)
                 _putrowpart(bmp, x1, x2, s2,
@@ -3221,6 +3227,8 @@ def outlinecircregion(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
+            if x2 < x1:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
-- 
2.43.0


From 1cb927533acc5b56ea59849d8b506b9d580c4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 37/77] fix: reading and writing an integer in a buffer
 includes its most significant byte

---
 pythonbmp/inttools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/inttools.py b/pythonbmp/inttools.py
index 3018998..ace8324 100644
--- a/pythonbmp/inttools.py
+++ b/pythonbmp/inttools.py
@@ -36,7 +36,7 @@ def writeint(offset: int, cnt: int,
     Returns:
         byref unsigned byte array
     """
-    j = cnt - 1
+    j = cnt
     for i in range(j):
         arr[offset + i] = value & 0xff
         value = value >> 8
@@ -59,7 +59,7 @@ def readint(offset: int, cnt: int,
     Returns:
         unsigned int value
     """
-    j = cnt - 1
+    j = cnt
     return sum(arr[offset + i] << (i << 3) for i in range(j))
 
 
-- 
2.43.0


From f54c7537051e0abed6f9a26ad425c1fe5864ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 38/77] fix: X11 color names give their own color, not a
 neighbor's

---
 pythonbmp/X11colordict.py | 140 +++++++++++++-------------------------
 1 file changed, 49 insertions(+), 91 deletions(-)

diff --git a/pythonbmp/X11colordict.py b/pythonbmp/X11colordict.py
index c68dbfd..055e0dd 100644
--- a/pythonbmp/X11colordict.py
+++ b/pythonbmp/X11colordict.py
@@ -3,27 +3,27 @@ def getX11colorname2HSLdict() -> dict:
 'aliceblue': (208, 100, 97),
 'antiquewhite': (208, 100, 97),
 'antiquewhite': (34, 78, 91),
-'antiquewhite1': (34, 78, 91),
-'antiquewhite2': (33, 100, 93),
-'antiquewhite3': (34, 50, 87),
-'antiquewhite4': (33, 22, 75),
-'aqua': (171, 85, 50),
+'antiquewhite1': (33, 100, 93),
+'antiquewhite2': (34, 50, 87),
+'antiquewhite3': (33, 22, 75),
+'antiquewhite4': (35, 8, 51),
+'aqua': (180, 100, 50),
 'aquamarine': (180, 100, 50),
 'aquamarine1': (160, 100, 75),
-'aquamarine2': (160, 100, 75),
-'aquamarine3': (160, 78, 70),
-'aquamarine4': (160, 51, 60),
-'azure': (160, 34, 41),
+'aquamarine2': (160, 78, 70),
+'aquamarine3': (160, 51, 60),
+'aquamarine4': (160, 34, 41),
+'azure': (180, 100, 97),
 'azure1': (180, 100, 97),
-'azure2': (180, 100, 97),
-'azure3': (180, 29, 91),
-'azure4': (180, 11, 78),
-'beige': (180, 3, 53),
-'bisque': (60, 56, 91),
+'azure2': (180, 29, 91),
+'azure3': (180, 11, 78),
+'azure4': (180, 3, 53),
+'beige': (60, 56, 91),
+'bisque': (33, 100, 88),
 'bisque1': (33, 100, 88),
-'bisque2': (33, 100, 88),
-'bisque3': (33, 62, 83),
-'bisque4': (32, 32, 71),
+'bisque2': (33, 62, 83),
+'bisque3': (32, 32, 71),
+'bisque4': (34, 13, 48),
 'black': (0, 0, 0),
 'blanchedalmond': (36, 100, 90),
 'blue': (240, 100, 50),
@@ -93,12 +93,10 @@ def getX11colorname2HSLdict() -> dict:
 'darkslategrey': (180, 25, 25),
 'darkturquoise': (181, 100, 41),
 'darkviolet': (282, 100, 41),
-'darkblue': (240, 100, 27),
 'darkgoldenrod1': (42, 100, 53),
 'darkgoldenrod2': (43, 89, 49),
 'darkgoldenrod3': (43, 89, 43),
 'darkgoldenrod4': (43, 89, 29),
-'darkgray': (82, 39, 30),
 'darkolivegreen1': (82, 100, 72),
 'darkolivegreen2': (82, 80, 67),
 'darkolivegreen3': (82, 53, 58),
@@ -111,17 +109,14 @@ def getX11colorname2HSLdict() -> dict:
 'darkorchid2': (280, 84, 58),
 'darkorchid3': (280, 61, 50),
 'darkorchid4': (280, 61, 34),
-'darkred': (120, 25, 65),
 'darkseagreen1': (120, 100, 88),
 'darkseagreen2': (120, 63, 82),
 'darkseagreen3': (120, 33, 71),
 'darkseagreen4': (120, 14, 48),
-'darkslateblue': (180, 25, 25),
 'darkslategray1': (180, 100, 80),
 'darkslategray2': (180, 74, 74),
 'darkslategray3': (180, 46, 64),
 'darkslategray4': (180, 26, 43),
-'darkslategrey': (282, 100, 41),
 'deeppink': (328, 100, 54),
 'deepskyblue': (195, 100, 50),
 'deeppink1': (328, 100, 54),
@@ -428,7 +423,6 @@ def getX11colorname2HSLdict() -> dict:
 'lightblue2': (195, 64, 82),
 'lightblue3': (195, 34, 70),
 'lightblue4': (194, 14, 48),
-'lightcoral': (180, 100, 94),
 'lightcyan1': (180, 100, 94),
 'lightcyan2': (180, 46, 88),
 'lightcyan3': (180, 20, 75),
@@ -437,7 +431,6 @@ def getX11colorname2HSLdict() -> dict:
 'lightgoldenrod2': (50, 76, 72),
 'lightgoldenrod3': (50, 48, 62),
 'lightgoldenrod4': (50, 29, 42),
-'lightgoldenrodyellow': (351, 100, 86),
 'lightpink1': (352, 100, 84),
 'lightpink2': (351, 69, 78),
 'lightpink3': (352, 39, 68),
@@ -446,12 +439,10 @@ def getX11colorname2HSLdict() -> dict:
 'lightsalmon2': (17, 78, 69),
 'lightsalmon3': (17, 52, 59),
 'lightsalmon4': (17, 36, 40),
-'lightseagreen': (203, 92, 75),
 'lightskyblue1': (202, 100, 85),
 'lightskyblue2': (202, 69, 79),
 'lightskyblue3': (202, 39, 68),
 'lightskyblue4': (202, 18, 46),
-'lightslateblue': (214, 41, 78),
 'lightsteelblue1': (214, 100, 90),
 'lightsteelblue2': (214, 60, 84),
 'lightsteelblue3': (213, 30, 72),
@@ -482,7 +473,6 @@ def getX11colorname2HSLdict() -> dict:
 'mediumspringgreen': (157, 100, 49),
 'mediumturquoise': (178, 60, 55),
 'mediumvioletred': (322, 81, 43),
-'mediumaquamarine': (288, 59, 58),
 'mediumorchid1': (288, 100, 70),
 'mediumorchid2': (288, 81, 65),
 'mediumorchid3': (288, 55, 56),
@@ -491,7 +481,6 @@ def getX11colorname2HSLdict() -> dict:
 'mediumpurple2': (259, 77, 70),
 'mediumpurple3': (260, 50, 61),
 'mediumpurple4': (259, 32, 41),
-'mediumseagreen': (322, 81, 43),
 'midnightblue': (240, 64, 27),
 'mintcream': (150, 100, 98),
 'mistyrose': (6, 100, 94),
@@ -533,7 +522,6 @@ def getX11colorname2HSLdict() -> dict:
 'palegreen': (120, 93, 79),
 'paleturquoise': (180, 65, 81),
 'palevioletred': (340, 60, 65),
-'palegoldenrod': (120, 93, 79),
 'palegreen1': (120, 100, 80),
 'palegreen2': (120, 73, 75),
 'palegreen3': (120, 45, 65),
@@ -671,7 +659,6 @@ def getX11colorname2HSLdict() -> dict:
 'webgrey': (0, 0, 50),
 'webmaroon': (0, 100, 25),
 'webpurple': (300, 100, 25),
-'webgray': (300, 100, 25),
 'wheat': (39, 77, 83),
 'wheat1': (39, 100, 86),
 'wheat2': (39, 65, 81),
@@ -684,7 +671,6 @@ def getX11colorname2HSLdict() -> dict:
 'x11grey': (0, 0, 75),
 'x11maroon': (338, 57, 44),
 'x11purple': (277, 87, 53),
-'x11gray': (277, 87, 53),
 'yellow': (60, 100, 50),
 'yellowgreen': (80, 61, 50),
 'yellow1': (60, 100, 50),
@@ -699,27 +685,27 @@ def getX11colorname2RGBdict() -> dict:
 'aliceblue': 15792383,
 'antiquewhite': 15792383,
 'antiquewhite': 16444375,
-'antiquewhite1': 16444375,
-'antiquewhite2': 16773083,
-'antiquewhite3': 15654860,
-'antiquewhite4': 13484208,
+'antiquewhite1': 16773083,
+'antiquewhite2': 15654860,
+'antiquewhite3': 13484208,
+'antiquewhite4': 9143160,
 'aqua': 65535,
 'aquamarine': 65535,
 'aquamarine1': 8388564,
-'aquamarine2': 8388564,
-'aquamarine3': 7794374,
-'aquamarine4': 6737322,
-'azure': 4557684,
+'aquamarine2': 7794374,
+'aquamarine3': 6737322,
+'aquamarine4': 4557684,
+'azure': 15794175,
 'azure1': 15794175,
-'azure2': 15794175,
-'azure3': 14741230,
-'azure4': 12701133,
-'beige': 8620939,
-'bisque': 16119260,
+'azure2': 14741230,
+'azure3': 12701133,
+'azure4': 8620939,
+'beige': 16119260,
+'bisque': 16770244,
 'bisque1': 16770244,
-'bisque2': 16770244,
-'bisque3': 15652279,
-'bisque4': 13481886,
+'bisque2': 15652279,
+'bisque3': 13481886,
+'bisque4': 9141611,
 'black': 0,
 'blanchedalmond': 16772045,
 'blue': 255,
@@ -789,12 +775,10 @@ def getX11colorname2RGBdict() -> dict:
 'darkslategrey': 3100495,
 'darkturquoise': 52945,
 'darkviolet': 9699539,
-'darkblue': 139,
 'darkgoldenrod1': 16759055,
 'darkgoldenrod2': 15641870,
 'darkgoldenrod3': 13473036,
 'darkgoldenrod4': 9135368,
-'darkgray': 5597999,
 'darkolivegreen1': 13303664,
 'darkolivegreen2': 12381800,
 'darkolivegreen3': 10669402,
@@ -807,17 +791,14 @@ def getX11colorname2RGBdict() -> dict:
 'darkorchid2': 11680494,
 'darkorchid3': 10105549,
 'darkorchid4': 6824587,
-'darkred': 9419919,
 'darkseagreen1': 12713921,
 'darkseagreen2': 11857588,
 'darkseagreen3': 10210715,
 'darkseagreen4': 6916969,
-'darkslateblue': 3100495,
 'darkslategray1': 9961471,
 'darkslategray2': 9301742,
 'darkslategray3': 7982541,
 'darkslategray4': 5409675,
-'darkslategrey': 9699539,
 'deeppink': 16716947,
 'deepskyblue': 49151,
 'deeppink1': 16716947,
@@ -1124,7 +1105,6 @@ def getX11colorname2RGBdict() -> dict:
 'lightblue2': 11722734,
 'lightblue3': 10141901,
 'lightblue4': 6849419,
-'lightcoral': 14745599,
 'lightcyan1': 14745599,
 'lightcyan2': 13758190,
 'lightcyan3': 11849165,
@@ -1133,7 +1113,6 @@ def getX11colorname2RGBdict() -> dict:
 'lightgoldenrod2': 15654018,
 'lightgoldenrod3': 13483632,
 'lightgoldenrod4': 9142604,
-'lightgoldenrodyellow': 16758465,
 'lightpink1': 16756409,
 'lightpink2': 15639213,
 'lightpink3': 13470869,
@@ -1142,12 +1121,10 @@ def getX11colorname2RGBdict() -> dict:
 'lightsalmon2': 15635826,
 'lightsalmon3': 13468002,
 'lightsalmon4': 9131842,
-'lightseagreen': 8900346,
 'lightskyblue1': 11592447,
 'lightskyblue2': 10802158,
 'lightskyblue3': 9287373,
 'lightskyblue4': 6323083,
-'lightslateblue': 11584734,
 'lightsteelblue1': 13296127,
 'lightsteelblue2': 12374766,
 'lightsteelblue3': 10663373,
@@ -1178,7 +1155,6 @@ def getX11colorname2RGBdict() -> dict:
 'mediumspringgreen': 64154,
 'mediumturquoise': 4772300,
 'mediumvioletred': 13047173,
-'mediumaquamarine': 12211667,
 'mediumorchid1': 14706431,
 'mediumorchid2': 13721582,
 'mediumorchid3': 11817677,
@@ -1187,7 +1163,6 @@ def getX11colorname2RGBdict() -> dict:
 'mediumpurple2': 10451438,
 'mediumpurple3': 9005261,
 'mediumpurple4': 6113163,
-'mediumseagreen': 13047173,
 'midnightblue': 1644912,
 'mintcream': 16121850,
 'mistyrose': 16770273,
@@ -1229,7 +1204,6 @@ def getX11colorname2RGBdict() -> dict:
 'palegreen': 10025880,
 'paleturquoise': 11529966,
 'palevioletred': 14381203,
-'palegoldenrod': 10025880,
 'palegreen1': 10157978,
 'palegreen2': 9498256,
 'palegreen3': 8179068,
@@ -1367,7 +1341,6 @@ def getX11colorname2RGBdict() -> dict:
 'webgrey': 8421504,
 'webmaroon': 8388608,
 'webpurple': 8388736,
-'webgray': 8388736,
 'wheat': 16113331,
 'wheat1': 16771002,
 'wheat2': 15653038,
@@ -1380,7 +1353,6 @@ def getX11colorname2RGBdict() -> dict:
 'x11grey': 12500670,
 'x11maroon': 11546720,
 'x11purple': 10494192,
-'x11gray': 10494192,
 'yellow': 16776960,
 'yellowgreen': 10145074,
 'yellow1': 16776960,
@@ -1394,27 +1366,27 @@ def getX11RGBfactors() -> dict:
 'aliceblue': [0.941176, 0.972549, 1.000000],
 'antiquewhite': [0.941176, 0.972549, 1.000000],
 'antiquewhite': [0.980392, 0.921569, 0.843137],
-'antiquewhite1': [0.980392, 0.921569, 0.843137],
-'antiquewhite2': [1.000000, 0.937255, 0.858824],
-'antiquewhite3': [0.933333, 0.874510, 0.800000],
-'antiquewhite4': [0.803922, 0.752941, 0.690196],
+'antiquewhite1': [1.000000, 0.937255, 0.858824],
+'antiquewhite2': [0.933333, 0.874510, 0.800000],
+'antiquewhite3': [0.803922, 0.752941, 0.690196],
+'antiquewhite4': [0.545098, 0.513725, 0.470588],
 'aqua': [0.000000, 1.000000, 1.000000],
 'aquamarine': [0.000000, 1.000000, 1.000000],
 'aquamarine1': [0.498039, 1.000000, 0.831373],
-'aquamarine2': [0.498039, 1.000000, 0.831373],
-'aquamarine3': [0.462745, 0.933333, 0.776471],
-'aquamarine4': [0.400000, 0.803922, 0.666667],
-'azure': [0.270588, 0.545098, 0.454902],
+'aquamarine2': [0.462745, 0.933333, 0.776471],
+'aquamarine3': [0.400000, 0.803922, 0.666667],
+'aquamarine4': [0.270588, 0.545098, 0.454902],
+'azure': [0.941176, 1.000000, 1.000000],
 'azure1': [0.941176, 1.000000, 1.000000],
-'azure2': [0.941176, 1.000000, 1.000000],
-'azure3': [0.878431, 0.933333, 0.933333],
-'azure4': [0.756863, 0.803922, 0.803922],
-'beige': [0.513725, 0.545098, 0.545098],
-'bisque': [0.960784, 0.960784, 0.862745],
+'azure2': [0.878431, 0.933333, 0.933333],
+'azure3': [0.756863, 0.803922, 0.803922],
+'azure4': [0.513725, 0.545098, 0.545098],
+'beige': [0.960784, 0.960784, 0.862745],
+'bisque': [1.000000, 0.894118, 0.768627],
 'bisque1': [1.000000, 0.894118, 0.768627],
-'bisque2': [1.000000, 0.894118, 0.768627],
-'bisque3': [0.933333, 0.835294, 0.717647],
-'bisque4': [0.803922, 0.717647, 0.619608],
+'bisque2': [0.933333, 0.835294, 0.717647],
+'bisque3': [0.803922, 0.717647, 0.619608],
+'bisque4': [0.545098, 0.490196, 0.419608],
 'black': [0.000000, 0.000000, 0.000000],
 'blanchedalmond': [1.000000, 0.921569, 0.803922],
 'blue': [0.000000, 0.000000, 1.000000],
@@ -1484,12 +1456,10 @@ def getX11RGBfactors() -> dict:
 'darkslategrey': [0.184314, 0.309804, 0.309804],
 'darkturquoise': [0.000000, 0.807843, 0.819608],
 'darkviolet': [0.580392, 0.000000, 0.827451],
-'darkblue': [0.721569, 0.525490, 0.043137],
 'darkgoldenrod1': [1.000000, 0.725490, 0.058824],
 'darkgoldenrod2': [0.933333, 0.678431, 0.054902],
 'darkgoldenrod3': [0.803922, 0.584314, 0.047059],
 'darkgoldenrod4': [0.545098, 0.396078, 0.031373],
-'darkgray': [0.333333, 0.419608, 0.184314],
 'darkolivegreen1': [0.792157, 1.000000, 0.439216],
 'darkolivegreen2': [0.737255, 0.933333, 0.407843],
 'darkolivegreen3': [0.635294, 0.803922, 0.352941],
@@ -1502,17 +1472,14 @@ def getX11RGBfactors() -> dict:
 'darkorchid2': [0.698039, 0.227451, 0.933333],
 'darkorchid3': [0.603922, 0.196078, 0.803922],
 'darkorchid4': [0.407843, 0.133333, 0.545098],
-'darkred': [0.560784, 0.737255, 0.560784],
 'darkseagreen1': [0.756863, 1.000000, 0.756863],
 'darkseagreen2': [0.705882, 0.933333, 0.705882],
 'darkseagreen3': [0.607843, 0.803922, 0.607843],
 'darkseagreen4': [0.411765, 0.545098, 0.411765],
-'darkslateblue': [0.184314, 0.309804, 0.309804],
 'darkslategray1': [0.592157, 1.000000, 1.000000],
 'darkslategray2': [0.552941, 0.933333, 0.933333],
 'darkslategray3': [0.474510, 0.803922, 0.803922],
 'darkslategray4': [0.321569, 0.545098, 0.545098],
-'darkslategrey': [0.580392, 0.000000, 0.827451],
 'deeppink': [1.000000, 0.078431, 0.576471],
 'deepskyblue': [0.000000, 0.749020, 1.000000],
 'deeppink1': [1.000000, 0.078431, 0.576471],
@@ -1819,7 +1786,6 @@ def getX11RGBfactors() -> dict:
 'lightblue2': [0.698039, 0.874510, 0.933333],
 'lightblue3': [0.603922, 0.752941, 0.803922],
 'lightblue4': [0.407843, 0.513725, 0.545098],
-'lightcoral': [0.878431, 1.000000, 1.000000],
 'lightcyan1': [0.878431, 1.000000, 1.000000],
 'lightcyan2': [0.819608, 0.933333, 0.933333],
 'lightcyan3': [0.705882, 0.803922, 0.803922],
@@ -1828,7 +1794,6 @@ def getX11RGBfactors() -> dict:
 'lightgoldenrod2': [0.933333, 0.862745, 0.509804],
 'lightgoldenrod3': [0.803922, 0.745098, 0.439216],
 'lightgoldenrod4': [0.545098, 0.505882, 0.298039],
-'lightgoldenrodyellow': [1.000000, 0.713725, 0.756863],
 'lightpink1': [1.000000, 0.682353, 0.725490],
 'lightpink2': [0.933333, 0.635294, 0.678431],
 'lightpink3': [0.803922, 0.549020, 0.584314],
@@ -1837,12 +1802,10 @@ def getX11RGBfactors() -> dict:
 'lightsalmon2': [0.933333, 0.584314, 0.447059],
 'lightsalmon3': [0.803922, 0.505882, 0.384314],
 'lightsalmon4': [0.545098, 0.341176, 0.258824],
-'lightseagreen': [0.529412, 0.807843, 0.980392],
 'lightskyblue1': [0.690196, 0.886275, 1.000000],
 'lightskyblue2': [0.643137, 0.827451, 0.933333],
 'lightskyblue3': [0.552941, 0.713725, 0.803922],
 'lightskyblue4': [0.376471, 0.482353, 0.545098],
-'lightslateblue': [0.690196, 0.768627, 0.870588],
 'lightsteelblue1': [0.792157, 0.882353, 1.000000],
 'lightsteelblue2': [0.737255, 0.823529, 0.933333],
 'lightsteelblue3': [0.635294, 0.709804, 0.803922],
@@ -1873,7 +1836,6 @@ def getX11RGBfactors() -> dict:
 'mediumspringgreen': [0.000000, 0.980392, 0.603922],
 'mediumturquoise': [0.282353, 0.819608, 0.800000],
 'mediumvioletred': [0.780392, 0.082353, 0.521569],
-'mediumaquamarine': [0.729412, 0.333333, 0.827451],
 'mediumorchid1': [0.878431, 0.400000, 1.000000],
 'mediumorchid2': [0.819608, 0.372549, 0.933333],
 'mediumorchid3': [0.705882, 0.321569, 0.803922],
@@ -1882,7 +1844,6 @@ def getX11RGBfactors() -> dict:
 'mediumpurple2': [0.623529, 0.474510, 0.933333],
 'mediumpurple3': [0.537255, 0.407843, 0.803922],
 'mediumpurple4': [0.364706, 0.278431, 0.545098],
-'mediumseagreen': [0.780392, 0.082353, 0.521569],
 'midnightblue': [0.098039, 0.098039, 0.439216],
 'mintcream': [0.960784, 1.000000, 0.980392],
 'mistyrose': [1.000000, 0.894118, 0.882353],
@@ -1924,7 +1885,6 @@ def getX11RGBfactors() -> dict:
 'palegreen': [0.596078, 0.984314, 0.596078],
 'paleturquoise': [0.686275, 0.933333, 0.933333],
 'palevioletred': [0.858824, 0.439216, 0.576471],
-'palegoldenrod': [0.596078, 0.984314, 0.596078],
 'palegreen1': [0.603922, 1.000000, 0.603922],
 'palegreen2': [0.564706, 0.933333, 0.564706],
 'palegreen3': [0.486275, 0.803922, 0.486275],
@@ -2062,7 +2022,6 @@ def getX11RGBfactors() -> dict:
 'webgrey': [0.501961, 0.501961, 0.501961],
 'webmaroon': [0.501961, 0.000000, 0.000000],
 'webpurple': [0.501961, 0.000000, 0.501961],
-'webgray': [0.501961, 0.000000, 0.501961],
 'wheat': [0.960784, 0.870588, 0.701961],
 'wheat1': [1.000000, 0.905882, 0.729412],
 'wheat2': [0.933333, 0.847059, 0.682353],
@@ -2075,7 +2034,6 @@ def getX11RGBfactors() -> dict:
 'x11grey': [0.745098, 0.745098, 0.745098],
 'x11maroon': [0.690196, 0.188235, 0.376471],
 'x11purple': [0.627451, 0.125490, 0.941176],
-'x11gray': [0.627451, 0.125490, 0.941176],
 'yellow': [1.000000, 1.000000, 0.000000],
 'yellowgreen': [0.603922, 0.803922, 0.196078],
 'yellow1': [1.000000, 1.000000, 0.000000],
-- 
2.43.0


From 8116d7ed59665ea83aaa7eb5cd04011ef1030cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 39/77] fix: sideways italic patterns at scale 1 lean the right
 way

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 60c7b35..3a3dfc5 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -4968,7 +4968,7 @@ def plotitalic8bitpatternsidewaywithfn(
             x += scale
             y = oy + i
             if x % 2 == 0 and scale == 1:
-                y -= 1
+                y += 1
     elif type(color) == list or type(color) == tuple:
         colorcnt = len(color)
         colorind = 0
@@ -4990,7 +4990,7 @@ def plotitalic8bitpatternsidewaywithfn(
             if colorind == colorcnt:
                 colorind = 0
             if x % 2 == 0 and scale == 1:
-                y -= 1
+                y += 1
 
 def plot8bitpatternsideway(
         bmp: array, x: int, y: int,
-- 
2.43.0


From a94fb833d3943fa14862e9c07f52a5ad9e5dc39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 40/77] fix: sideways patterns take their colors row by row

---
 pythonbmp/BITMAPlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 3a3dfc5..f5ed0f0 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -4919,11 +4919,11 @@ def plot8bitpatternsidewaywithfn(
                         fn(bmp, x, y, inc, cl)
                 mask >>= 1
                 y -= scale
-                colorind += 1
-                if colorcnt == colorind:
-                    colorind = 0
             x += scale
             y = oy
+            colorind += 1
+            if colorcnt == colorind:
+                colorind = 0
 
 
 def plotitalic8bitpatternsidewaywithfn(
-- 
2.43.0


From 6dd705ef54bd4363717215460c0ab28227d78056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:17 +0000
Subject: [PATCH 41/77] fix: plotbmpastext prints the bottom row too

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f5ed0f0..fc1646f 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12360,7 +12360,7 @@ def plotbmpastext(bmp: array):
     my = getmaxy(bmp) - 1
     r = _xchrcnt(bmp)
     offset = _hdsz(bmp)
-    for y in range(my, 0, -1):
+    for y in range(my, -1, -1):
         for x in range(r):
             i = offset + r * y + x
             if bits == 1:
-- 
2.43.0


From b9f42d30a559fa48d97deaa4df4db520de65df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 42/77] fix: upside down strings of dots run like the other
 upside down strings

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index fc1646f..d8a5fde 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -6221,7 +6221,7 @@ def plotstringupsidedownasdots(
     plotstringfunc(bmp, x, y, str2plot,
         scale, pixspace,
         spacebetweenchar, color,
-        fontbuf, enumletters,
+        fontbuf, enumreverseletters,
         plot8bitpatternupsidedownasdots)
 
 
-- 
2.43.0


From f2d21a6f808994ac00a1f996d4b7d0512bab5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:59 +0000
Subject: [PATCH 43/77] fix: a bezier curve uses and reaches its last control
 point

---
 pythonbmp/primitives2D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 4f3327c..dd45153 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -357,11 +357,11 @@ def iterbeziercurve(
     klim = cnt << 2
     for i in range(cnt):
         if i > cnt - 2:
-            last = i - 1
-            for k in range(klim):
+            last = i
+            for k in range(klim + 1):
                 u = k / klim
                 v = [0, 0]
-                for j in range(i):
+                for j in range(i + 1):
                     v = addvect(v,
                          scalarmulvect(
                                 pntlist[j],
-- 
2.43.0


From 332ea62872a992462a32b2a721bf09f486142e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 44/77] fix: small arcs have both their spokes

---
 pythonbmp/primitives2D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index dd45153..8f4b1dd 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -625,14 +625,19 @@ def arcvert(x: int, y: int, r: int,
     c = (x, y)
     sa = radians(startdegangle)
     ea = radians(enddegangle)
+    arc = []
     for p in itercircle(x, y, r):
         pc = rect2polarcoord2Dwithcenter(c, p)
         a = pc[1]
         if a >= sa and a <= ea:
             v.append(p)
+            arc.append((a, p))
             if abs(a - sa) < tol or \
                abs(a - ea) < tol: #for larger arcs tol may be >0.03
                 v.extend(iter(iterline(c, p)))
+    if arc: #small arcs may have no point within tol of an end
+        v.extend(iter(iterline(c, min(arc)[1])))
+        v.extend(iter(iterline(c, max(arc)[1])))
     return v
 
 
-- 
2.43.0


From 08e87a7d3ebaaa89fe3a5dd7446fc9b6da1588b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 45/77] fix: drawarc shows the outline when asked to and on top
 of the filling

---
 pythonbmp/BITMAPlib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index d8a5fde..9af4d68 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3945,15 +3945,16 @@ def drawarc(bmp: array,
     """
     av = arcvert(x, y, r,
          startdegangle, enddegangle)
-    for p in av:
-        plotxybit(bmp, p[0], p[1],
-            color)
     if isfilled:
         fillboundary(bmp,
             fillpolydata(av,
                 getmaxx(bmp),
                 getmaxy(bmp)),
                 fillcolor)
+    if showoutline:
+        for p in av:
+            plotxybit(bmp, p[0], p[1],
+                color)
 
 
 def rectangle(bmp: array,
-- 
2.43.0


From 36f1b13aa8699810d299728297cf4492867f1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 46/77] fix: regular polygons whose number of sides does not
 divide 360

---
 pythonbmp/primitives2D.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 8f4b1dd..6c781f5 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -506,11 +506,10 @@ def floatregpolygonvert(
     """
     v = []
     angle = radians(angle)
-    anginc = 360 // sides
-    maxang = 360
+    anginc = 360 / sides
     q = complex(cx, cy)
-    for a in range(0, maxang, anginc):
-        ang = angle + radians(a)
+    for i in range(sides):
+        ang = angle + radians(i * anginc)
         z = q - r * complex(sin(ang), cos(ang))
         v.append([z.real, z.imag])
     return v
-- 
2.43.0


From df161f4724fd7b274b99b57138a24bdec1c9607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:37 +0000
Subject: [PATCH 47/77] fix: the involute of a circle follows its equation

---
 pythonbmp/primitives2D.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 6c781f5..a19b39d 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1065,8 +1065,7 @@ def itercircleinvolute(
     t = 0
     b = complex(x, y)
     while t < lim:
-        z = rect(1, t)
-        z *= a * z * t * 1j
+        z = a * rect(1, t) * (1 - t * 1j)
         t += delta
         z += b
         yield (round(z.real),
-- 
2.43.0


From c833cfcd2f1c4371db67c234198a93be718cb2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 48/77] fix: hypotrochoids roll inside the fixed circle

---
 pythonbmp/primitives2D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index a19b39d..cc7d7fa 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1194,12 +1194,12 @@ def iterhypotrochoid(
         [[x: int, y: int], ...]
     """
     p = a - b
-    d = (a / b) + 1
+    d = (a / b) - 1
     t = 0
     q = complex(x, y)
     while t < lim:
-        z = rect(p, t) - \
-            rect(c, d * t) + q
+        z = rect(p, t) + \
+            rect(c, -d * t) + q
         t += delta
         yield (round(z.real),
                round(z.imag))
-- 
2.43.0


From 5556947d0be0cfb3a2e62ca4edaa0e28c8462ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:53 +0000
Subject: [PATCH 49/77] fix: spirographs roll inside the fixed circle

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index cc7d7fa..e6c8334 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -936,7 +936,7 @@ def iterspirograph(
     q = complex(x, y)
     while a < lim:
         z = r * (rect(d, a) + \
-                 rect(e, a * f)) + q
+                 rect(e, -a * f)) + q
         a += delta
         yield (round(z.real),
                round(z.imag))
-- 
2.43.0


From e1f77cd132a94908169026141a836eb05b4a853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:43 +0000
Subject: [PATCH 50/77] fix: a filled arc too narrow for any pixel draws
 nothing instead of raising

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 9af4d68..c29c533 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3945,7 +3945,7 @@ def drawarc(bmp: array,
     """
     av = arcvert(x, y, r,
          startdegangle, enddegangle)
-    if isfilled:
+    if isfilled and av:
         fillboundary(bmp,
             fillpolydata(av,
                 getmaxx(bmp),
-- 
2.43.0


From 68354eceb44f27c13bba31c11a38e7ab936bdc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 51/77] fix: egg curves have the length and shape their
 equation gives

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index e6c8334..57683f4 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1538,7 +1538,7 @@ def itereggcurve(cx: int, cy: int,
         for x in range(a):
             y = int(((k - 2 * x + \
                       ((_4b * x + \
-            k) ** p).real) ** p).real * \
+        k * k) ** p).real) ** p).real * \
             (x ** p).real / sqrt2)
             if y > 0:
                 px = cx + x - c
-- 
2.43.0


From cf61d316b849210b192d90e921e46231b748216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 52/77] fix: a palette made from fewer colors than it has room
 for is stored

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c29c533..8f2c4ba 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -1319,7 +1319,8 @@ def setnewpalfromsourcebmp(
         colorhistogram(sourcebmp),
         getmaxcolors(newbmp),
         similaritythreshold)
-    setbmppal(newbmp, newpal)
+    setbmppal(newbmp, newpal +
+        getallRGBpal(newbmp)[len(newpal):])
     return newpal
 
 
-- 
2.43.0


From 3683a1d4de4b80371079fbb873b1986832ba4204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:36 +0000
Subject: [PATCH 53/77] fix: autocrop of an image without edges keeps it whole
 instead of raising

---
 pythonbmp/BITMAPlib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 8f2c4ba..8b8de04 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -14689,9 +14689,12 @@ def autocropimg2file(
         new bitmap file
     """
     bmp = loadBMP(ExistingBMPfile)
-    p, (x, y) = rectboundarycoords(
-        getimagedgevert(bmp,
-            similaritythreshold))
+    edge = getimagedgevert(bmp,
+            similaritythreshold)
+    if not edge: # nothing to crop
+        saveBMP(NewBMPfile, bmp)
+        return
+    p, (x, y) = rectboundarycoords(edge)
     mx, my = getmaxxy(bmp)
     cropBMPandsaveusingrectbnd(
         ExistingBMPfile, NewBMPfile,
-- 
2.43.0


From 6a35e849f82e279b259394974723d5e2bb1585ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:23 +0000
Subject: [PATCH 54/77] fix: report a missing input file in sphere2file as
 every other file operation does

---
 pythonbmp/BITMAPlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 8b8de04..4d4baeb 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13773,6 +13773,7 @@ def _use24btclrfnwithpar2circreg(
             ExistingBMPfile, NewBMPfile))
 
 
+@checklink
 def _use24btclrfnwithmultpar2circreg(
         ExistingBMPfile: str,
         NewBMPfile: str,
-- 
2.43.0


From f39089c96aa7713322fb43820bfa9174edf402c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:45 +0000
Subject: [PATCH 55/77] fix: colorcycle2dir accepts an absolute directory

---
 pythonbmp/BITMAPlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4d4baeb..842647a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -45,7 +45,7 @@ from os import (
     mkdir
     )
 
-from os.path import pathsep
+from os.path import join, pathsep
 from pathlib import Path
 from random import random
 from typing import Callable
@@ -13602,7 +13602,8 @@ def _usefndirsv(
         if not overwritedir:
             raise FileExistsError(sysmsg['direxist'])
     for (i, bmp) in enumerate(func(obmp)):
-        NewBMPfile = f'{cwd}/{NewDir}/{i}.bmp'
+        NewBMPfile = join(
+            cwd, NewDir, f'{i}.bmp')
         saveBMP(NewBMPfile, bmp)
         print(sysmsg['savefunc'] %
         (func.__name__ ,
-- 
2.43.0


From 36f0f347f9989eb6391ea846af30d30036582e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:52 +0000
Subject: [PATCH 56/77] fix: colorcycle2dir refuses other depths without making
 a directory or failing

---
 pythonbmp/BITMAPlib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 842647a..53a34fc 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13594,14 +13594,17 @@ def _usefndirsv(
     Returns:
         new bitmap files in a new directory
     """
-    obmp = loadBMP(ExistingBMPfile)
+    frames = func(
+        loadBMP(ExistingBMPfile))
+    if frames is None:
+        return
     cwd = getcwd()
     try:
         mkdir(NewDir)
     except FileExistsError:
         if not overwritedir:
             raise FileExistsError(sysmsg['direxist'])
-    for (i, bmp) in enumerate(func(obmp)):
+    for (i, bmp) in enumerate(frames):
         NewBMPfile = join(
             cwd, NewDir, f'{i}.bmp')
         saveBMP(NewBMPfile, bmp)
-- 
2.43.0


From af9e4ad61ef1f77fbb51d1125b9a4c40dd8183fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:57 +0000
Subject: [PATCH 57/77] fix: 8-bit fractals stay inside the bitmap and allow
 more than 255 iterations

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 53a34fc..2e4bfca 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9298,7 +9298,7 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = c
+            plotxybit(bmp, x, y, c)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
@@ -9356,7 +9356,7 @@ def plotmultifractalcomplexpar(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = v
+            plotxybit(bmp, x, y, v)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-- 
2.43.0


From 39b06d26a601e6baac0e2a40e932995684cc3e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:06 +0000
Subject: [PATCH 58/77] fix: superellipse fractals work on 1, 4 and 8-bit
 bitmaps

---
 pythonbmp/BITMAPlib.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 2e4bfca..e309412 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9298,19 +9298,21 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 1:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c % maxcolors)
+            plotxybit(bmp, x, y,
+                      int(c) % maxcolors)
     else:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, (mcolor - c) % maxcolors)
+            plotxybit(bmp, x, y,
+                      (mcolor - int(c)) % maxcolors)
 
 
 def plotmultifractalcomplexpar(bmp: array,
-- 
2.43.0


From 4d074d3b1ffa6a7d3d8aaf5f29766910caf91669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 59/77] fix: symmetric icon attractors keep their rotational
 symmetry when o is not zero

---
 pythonbmp/fractals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/fractals.py b/pythonbmp/fractals.py
index 7dea57a..08682fc 100644
--- a/pythonbmp/fractals.py
+++ b/pythonbmp/fractals.py
@@ -2167,7 +2167,7 @@ def symmetriciconattractorlist(
         v[i] = z = (a * abs(z * c) + l + \
         b * (z.real * p.real - \
              z.imag * p.imag)) * z + \
-        (g * p).conjugate() - o * c * 1j
+        (g * p).conjugate() + o * z * 1j
     return v
 
 
-- 
2.43.0


From a5fc071e71a833e735f4b6ee1cb226aa7b5f0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 60/77] fix: Newton fractals of up to three roots can be saved
 below 24 bits

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index e309412..ed79bd5 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -11489,7 +11489,8 @@ def savefractalwithparam2file(
         a bitmap file
     """
     bmp = newBMP(x, y, bitdepth)
-    if bitdepth < 24:
+    if bitdepth < 24 and not isinstance(
+        rgbfactors[0], (list, tuple)):
         cp = len(rgbfactors)
         if   cp == 3:
             setBMP2invshiftedmonochrome(bmp, rgbfactors)
-- 
2.43.0


From 6f63ec08edebd7222b4eb2651327bd11328f8f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 61/77] fix: iterated function systems start on their attractor
 wherever they are drawn

---
 pythonbmp/fractals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/fractals.py b/pythonbmp/fractals.py
index 08682fc..37849dd 100644
--- a/pythonbmp/fractals.py
+++ b/pythonbmp/fractals.py
@@ -130,8 +130,7 @@ def iterIFS(
     x1, y1, x2, y2 = \
         sortrecpoints(x1, y1, x2, y2)
     (af, p) = IFStransparam
-    x = x1
-    y = y1
+    x = y = 0
     dy = y2 - y1
     (p0, p1, p2) = p[0:3]
     for _ in range(maxiter):
-- 
2.43.0


From 147b795231010fce79a27d3c232e9b9d2d3bfa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 62/77] fix: turned Hilbert curves fill bitmaps that are not
 square

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index ed79bd5..03ce459 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12261,7 +12261,7 @@ def savehilbertcurve2file(
     y -= 1
     if backgroundcolor > 0:
         filledrect(bmp, 0, 0, x, y, backgroundcolor)
-    o =  (0, x, y, 0) if orientation == 1 \
+    o =  (0, y, x, 0) if orientation == 1 \
     else (x, 0, 0, y)
     l = []
     hilbertvert(l, (0, 0), o, order)
-- 
2.43.0


From 1759820a5eabb2696bc4e35a75769fe34879fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 63/77] fix: tetrahedra, hexahedra and spheres show their front
 instead of their back

---
 pythonbmp/solids3D.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 2bfbe2a..e3f64d2 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -53,22 +53,22 @@ def getshapesidedict() -> dict:
         dictionary of side or polygon
         definitions for basic solids
     """
-    return {"tetrahedra":((2, 1, 0),
-                          (2, 3, 1),
-                          (0, 3, 2),
-                          (3, 0, 1)),
+    return {"tetrahedra":((0, 1, 2),
+                          (1, 3, 2),
+                          (2, 3, 0),
+                          (1, 0, 3)),
                   "cube":((1, 2, 3, 0),
                           (5, 6, 7, 4),
                           (0, 3, 6, 5),
                           (4, 7, 2, 1),
                           (4, 1, 0, 5),
                           (2, 7, 6, 3)),
-             "hexahedra":((2, 3, 1),
-                          (0, 3, 2),
-                          (3, 0, 1),
-                          (1, 4, 2),
-                          (2, 4, 0),
-                          (1, 0, 4)),
+             "hexahedra":((1, 3, 2),
+                          (2, 3, 0),
+                          (1, 0, 3),
+                          (2, 4, 1),
+                          (0, 4, 2),
+                          (4, 0, 1)),
              "octahedra":((1, 2, 0),
                           (4, 1, 0),
                           (3, 4, 0),
@@ -542,8 +542,8 @@ def genspheresurfaces(
     i = 0
     for i in range(lpts):
         j = 0 if i == maxp else i + 1
-        surf += [[northpole, npts[j], npts[i]],
-                 [southpole, spts[i], spts[j]]]
+        surf += [[northpole, npts[i], npts[j]],
+                 [southpole, spts[j], spts[i]]]
     if levels > 2:
         mxlv = levels - 1
         for k in range(1, mxlv):
@@ -555,9 +555,9 @@ def genspheresurfaces(
             i = 0
             for i in range(lpts):
                 j = 0 if i == maxp else i + 1
-                surf += [[adjpts[j % maxadjpts],
+                surf += [[pts[j], pts[i],
                           adjpts[i % maxadjpts],
-                          pts[i], pts[j]]]
+                          adjpts[j % maxadjpts]]]
     return surf
 
 
-- 
2.43.0


From 7547f96b2daf0e5fa41a646e8709a6863706d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 64/77] fix: the south pole of a sphere follows its center

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index e3f64d2..9b23141 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -480,7 +480,7 @@ def spherevert(vcen: list[float,
                            radians(phi)]))
             if p not in plist:
                 plist.append(p)
-    p = [0, 0, -r]
+    p = addvect(vcen, [0, 0, -r])
     if p not in plist:
         plist.append(p)
     return plist
-- 
2.43.0


From 346f6adfcce983644187d56227483797938020a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 65/77] fix: surface plots whose width is not a multiple of the
 step

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 9b23141..3b23b56 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -705,7 +705,7 @@ def surfplot3Dvertandsurface(
         for x in range(x1, x2, step):
             z = fnxy(x, y)
             vlist.append([x, y, z])
-    dx = abs(x2 - x1) // step
+    dx = len(range(x1, x2, step))
     dx1 = dx - 1
     vl = len(vlist)
     for v in vlist:
-- 
2.43.0


From 4cc6723f7a93b94b1ff5a95da4bd4a486f9f0412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 66/77] fix: pie charts of two halves show both

---
 pythonbmp/BITMAPlib.py | 4 ++--
 pythonbmp/charts.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 03ce459..bc0c8aa 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12401,8 +12401,8 @@ def piechart(bmp: array,
     if big > -1: #for speed more computions in drawarc
             circle(bmp, x, y, r,
                 alist[big][2], True)
-    for a in alist:
-        if a[4] < 50:
+    for i, a in enumerate(alist):
+        if i != big:
             drawarc(bmp, x, y, r,
                 a[0], a[1], a[2],
                 True, a[2], True)
diff --git a/pythonbmp/charts.py b/pythonbmp/charts.py
index 2908d43..784a846 100644
--- a/pythonbmp/charts.py
+++ b/pythonbmp/charts.py
@@ -47,12 +47,12 @@ def genpiechartdata(dlist: list):
     tot = getdatalisttotal(dlist)
     alist = []
     big = -1
-    for d in dlist:
+    for i, d in enumerate(dlist):
         p = d[0] / tot
         ea = sa + p * 360
         p *= 100
         alist.append([sa, ea, d[1], d[0], p])
         if p >= 50:
-            big = dlist.index(d)
+            big = i
         sa = ea
     return alist, big
-- 
2.43.0


From 60bf5c940d12782472fd8411ee92d7ebb56120c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 67/77] fix: numbers at repeated places keep counting

---
 pythonbmp/BITMAPlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index bc0c8aa..292e2d1 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7128,8 +7128,7 @@ def numbervert(bmp: array,
         rightjustify: bool):
     plot = False
     maxv = len(vlist) - 1
-    for v in vlist:
-        i = vlist.index(v)
+    for i, v in enumerate(vlist):
         plot = True if i > 0 else not suppresszero
         if i == maxv and suppresslastnum:
             plot = False
-- 
2.43.0


From 598b4e0c2b910bb550eb7eb70d176d8a1dc53c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 68/77] fix: grid lines of an axis run through its tick marks

---
 pythonbmp/BITMAPlib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 292e2d1..9471179 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7242,8 +7242,12 @@ def XYaxis(bmp: array,
                 origin[1], xylimits[1],
                 -steps[1])
     if showgrid:
-        xygridvec(bmp, origin, xylimits,
-            steps, gridcolor)
+        for x, _ in hvert:
+            vertline(bmp, x, xylimits[1],
+                origin[1], gridcolor)
+        for _, y in vvert:
+            horiline(bmp, y, origin[0],
+                xylimits[0], gridcolor)
     drawvec(bmp, origin, [origin[0],
             xylimits[1]], 10, color)
     drawvec(bmp, origin,
-- 
2.43.0


From 764de78851b16cca1eb675009b77f803e159723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 69/77] fix: points outside a scatterplot leave no mark in the
 corner

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 9471179..58b4a1f 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7355,6 +7355,8 @@ def XYscatterplot(
         r = v[2]
         w = userdef2Dcooordsys2screenxy(
                 v[0], v[1], XYcoordinfo)
+        if w == [-1, -1]:
+            continue
         if r>1:
             circlevec(bmp, w,
                 setmax(r, 5), v[3], v[4])
-- 
2.43.0


From eddba2d566ccd34a62a330417692b2843b9909e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 70/77] fix: regression lines leaving a scatterplot end at its
 top

---
 pythonbmp/BITMAPlib.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 58b4a1f..a313be9 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7367,18 +7367,20 @@ def XYscatterplot(
         b = LSMYint(XYdata)
         xmin = XYcoordinfo[3][0]
         xmax = XYcoordinfo[5][0]
-        ymin = xmin * m + b
-        ymax = xmax * m + b
-        u = userdef2Dcooordsys2screenxy(
-                xmin, ymin, XYcoordinfo)
-        w = userdef2Dcooordsys2screenxy(
-                xmax, ymax, XYcoordinfo)
-        if w == [-1, -1]:
-            ymax = XYcoordinfo[5][1]
-            xmax = (ymax - b) / m
+        ymax = XYcoordinfo[5][1]
+        ends = []
+        for x in (xmin, xmax):
             w = userdef2Dcooordsys2screenxy(
-                    xmax, ymax, XYcoordinfo)
-        linevec(bmp, u, w, reglinecolor)
+                    x, x * m + b, XYcoordinfo)
+            if w == [-1, -1] and m:
+                x = (ymax - b) / m
+                if xmin <= x <= xmax:
+                    w = userdef2Dcooordsys2screenxy(
+                            x, ymax, XYcoordinfo)
+            ends.append(w)
+        if [-1, -1] not in ends:
+            linevec(bmp, ends[0], ends[1],
+                reglinecolor)
 
 
 def getneighborcolorlist(
-- 
2.43.0


From 1845022b8e128a664b87bbcdc06fcb769eea4457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 71/77] fix: elapsed times keep the zeros of their fraction

---
 pythonbmp/proctimer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/proctimer.py b/pythonbmp/proctimer.py
index 4d7a0f0..079615f 100644
--- a/pythonbmp/proctimer.py
+++ b/pythonbmp/proctimer.py
@@ -51,7 +51,7 @@ def hhmmsselaspedtime(inittime: int
         ((f'{str(hrs).zfill(2)}:' + str(mins).zfill(2)) + ':')
         + str(secs).zfill(2)
         + '.'
-    ) + str(ns)
+    ) + str(ns).zfill(9)
 
 
 def functimer(func):
-- 
2.43.0


From 228e14373672fe6a9a28c3b03e0348e68026a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 72/77] fix: quadrant mirrors of a circle do not half apply
 below 8 bits

---
 pythonbmp/BITMAPlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index a313be9..eec6e12 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3017,6 +3017,7 @@ def mirrorbottomincircregion(
         bmp, x, y, r, 'B')
 
 
+@func8and24bitonlyandentirecircleinboundary
 def mirrortopleftincircregion(
         bmp: array,
         x: int, y: int, r: int):
@@ -3036,6 +3037,7 @@ def mirrortopleftincircregion(
     mirrortopincircregion(bmp, x, y, r)
 
 
+@func8and24bitonlyandentirecircleinboundary
 def mirrortoprightincircregion(
         bmp: array,
         x: int, y: int, r: int):
@@ -3054,6 +3056,7 @@ def mirrortoprightincircregion(
     mirrortopincircregion(bmp, x, y, r)
 
 
+@func8and24bitonlyandentirecircleinboundary
 def mirrorbottomleftincircregion(
         bmp: array,
         x: int, y: int, r: int):
@@ -3072,6 +3075,7 @@ def mirrorbottomleftincircregion(
     mirrorbottomincircregion(bmp, x, y, r)
 
 
+@func8and24bitonlyandentirecircleinboundary
 def mirrorbottomrightincircregion(
         bmp: array,
         x: int, y: int, r: int):
-- 
2.43.0


From 330714d710103aa0a9a6bbd7442db8a140208789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 73/77] fix: gradient of a thick rotated ellipse follows the
 gradient function given

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index eec6e12..c0dbb56 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3752,7 +3752,7 @@ def gradthickellipserot(bmp: array,
     """
     (l1, l2) = lumrange
     for i in range(penradius, 0, -1):
-        c = colormix(int(lerp(l1, l2, i / penradius)),
+        c = colormix(int(fn(l1, l2, i / penradius)),
                 RGBfactors)
         if bmp[bmpcolorbits] != 24:
             c = matchRGBtopal(
-- 
2.43.0


From aea23befef6fee3e5f27dd400cf6138daea05937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 74/77] fix: outlines of circles and ellipses reduce the color
 to 8 bits like every other shape

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index c0dbb56..4d28ef7 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3506,6 +3506,7 @@ def circle(bmp: array,
                     bmp[s3: s3 + 3] = \
                     bmp[s4: s4 + 3] = color
         elif bits == 8:
+            color &= 0xff
             if dobndcheck:
                 for (px, py) in itercircle(x, y, r):
                     if isinBMPrectbnd(bmp, px, py):
@@ -3870,6 +3871,7 @@ def ellipse(bmp: array,
                     s = c(bmp, px, py)
                     bmp[s: s + 3] = color
         elif bits == 8:
+            color &= 0xff
             for (px, py) in iterellipse(x, y, b, a):
                 if dobndcheck:
                     if isinBMPrectbnd(bmp, px, py):
-- 
2.43.0


From 1f2121b1fcc75beeab50d1ea039e82ff40e6eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 75/77] fix: the default palette given is a copy, not the
 library's own table

---
 pythonbmp/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index 8a5a36c..baf7cc5 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -84,7 +84,7 @@ def getdefaultbitpal(
     Returns:
         list of palette entries
     """
-    return bmpstdpal[bits]
+    return [list(BGR) for BGR in bmpstdpal[bits]]
 
 
 def colormix(lum: int,
-- 
2.43.0


From 8a17f78b3ff0172e5a13bf9697ae7699cf2b74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 76/77] fix: colours are matched to black palette entries too

---
 pythonbmp/colors.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index baf7cc5..4cb28c1 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -294,11 +294,10 @@ def matchRGBtopal(RGB: list,
         c = pal.index(RGB)
     else:
         for p in pal:
-            if p != [0,0,0] and RGB != [0,0,0]:
-                newd = dist(RGB, p)
-                if newd < d:
-                    c = i
-                    d = newd
+            newd = dist(RGB, p)
+            if newd < d:
+                c = i
+                d = newd
             i += 1
     return c
 
-- 
2.43.0


From 1f4a7bf95afff6eb0b51f564873efedd5dd4d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 77/77] fix: a decahedron of any size has its corners on its
 sphere

---
 pythonbmp/solids3D.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 3b23b56..02beb98 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -37,8 +37,7 @@ from .mathlib import(
 from .primitives2D import(
     floatregpolygonvert,
     iterline,
-    rectboundarycoords,
-    regpolygonvert
+    rectboundarycoords
     )
 
 from .messages import sysmsg
@@ -194,7 +193,7 @@ def decahedvertandsurface(
               y: float,
               z: float)
     """
-    pts = regpolygonvert(0, 0, x, 5, 0)
+    pts = floatregpolygonvert(0, 0, x, 5, 0)
     z = sqrt((dist(pts[0], pts[1]) ** 2 - x**2))
 
     return [[[0, 0, -z]] + \
-- 
2.43.0

