From a2392ccd209412fc1e6bf2b6ed70a34934cb34ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 01/45] fix: raster: split negative co-ordinates by floor, not
 truncation

A co-ordinate in (-64, 0) was assigned to cell 0 with a negative fraction
instead of cell -1, so that a path partly above or left of the bounds could
contribute wrong coverage to the first row or column.
---
 raster/raster.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index 7e6cd4e..16f774c 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -120,9 +120,9 @@ func (r *Rasterizer) setCell(xi, yi int) {
 // and from y0f to y1f fractional vertical units within that scanline.
 func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 	// Break the 26.6 fixed point X co-ordinates into integral and fractional parts.
-	x0i := int(x0) / 64
+	x0i := int(x0) >> 6
 	x0f := x0 - fixed.Int26_6(64*x0i)
-	x1i := int(x1) / 64
+	x1i := int(x1) >> 6
 	x1f := x1 - fixed.Int26_6(64*x1i)
 
 	// A perfectly horizontal scan.
@@ -192,7 +192,7 @@ func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 
 // Start starts a new curve at the given point.
 func (r *Rasterizer) Start(a fixed.Point26_6) {
-	r.setCell(int(a.X/64), int(a.Y/64))
+	r.setCell(int(a.X)>>6, int(a.Y)>>6)
 	r.a = a
 }
 
@@ -203,9 +203,9 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 	dx, dy := x1-x0, y1-y0
 	// Break the 26.6 fixed point Y co-ordinates into integral and fractional
 	// parts.
-	y0i := int(y0) / 64
+	y0i := int(y0) >> 6
 	y0f := y0 - fixed.Int26_6(64*y0i)
-	y1i := int(y1) / 64
+	y1i := int(y1) >> 6
 	y1f := y1 - fixed.Int26_6(64*y1i)
 
 	if y0i == y1i {
@@ -224,7 +224,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		} else {
 			edge0, edge1, yiDelta = 64, 0, -1
 		}
-		x0i, yi := int(x0)/64, y0i
+		x0i, yi := int(x0)>>6, y0i
 		x0fTimes2 := (int(x0) - (64 * x0i)) * 2
 		// Do the first pixel.
 		dcover := int(edge1 - y0f)
@@ -272,7 +272,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		x, yi := x0, y0i
 		r.scan(yi, x, y0f, x+xDelta, edge1)
 		x, yi = x+xDelta, yi+yiDelta
-		r.setCell(int(x)/64, yi)
+		r.setCell(int(x)>>6, yi)
 		if yi != y1i {
 			// Do all the intermediate scanlines.
 			p = 64 * dx
@@ -291,7 +291,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 				}
 				r.scan(yi, x, edge0, x+xDelta, edge1)
 				x, yi = x+xDelta, yi+yiDelta
-				r.setCell(int(x)/64, yi)
+				r.setCell(int(x)>>6, yi)
 			}
 		}
 		// Do the last scanline.
-- 
2.43.0


From 5403c6774120762d45acbb808a15703201f371b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 02/45] fix: raster: consider both control points when
 subdividing a cubic

Add3 chose the number of subdivisions from the first control point's
distance and from a quantity that vanishes for some curves far from straight,
so that such a curve was drawn with as few as two line segments.
---
 raster/raster.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster/raster.go b/raster/raster.go
index 16f774c..b722d53 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -367,6 +367,10 @@ func (r *Rasterizer) Add3(b, c, d fixed.Point26_6) {
 	// 'curvy' it is.
 	dev2 := maxAbs(r.a.X-3*(b.X+c.X)+d.X, r.a.Y-3*(b.Y+c.Y)+d.Y) / fixed.Int26_6(r.splitScale2)
 	dev3 := maxAbs(r.a.X-2*b.X+d.X, r.a.Y-2*b.Y+d.Y) / fixed.Int26_6(r.splitScale3)
+	// The second control point can be further from the chord than the first.
+	if dev4 := maxAbs(r.a.X-2*c.X+d.X, r.a.Y-2*c.Y+d.Y) / fixed.Int26_6(r.splitScale3); dev3 < dev4 {
+		dev3 = dev4
+	}
 	nsplit := 0
 	for dev2 > 0 || dev3 > 0 {
 		dev2 /= 8
-- 
2.43.0


From d8c2c997f7f5a95eacc705c263d382cc69172254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 03/45] fix: raster: normalize short vectors to the requested
 length

pNorm divided by the vector's length truncated to an integer, so that the
normal of a segment a few units long was up to 41% too long and its stroke
bulged.
---
 raster/geom.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/raster/geom.go b/raster/geom.go
index f3696ea..d8565ba 100644
--- a/raster/geom.go
+++ b/raster/geom.go
@@ -38,25 +38,17 @@ func pDot(p fixed.Point26_6, q fixed.Point26_6) fixed.Int52_12 {
 	return fixed.Int52_12(px*qx + py*qy)
 }
 
-// pLen returns the length of the vector p.
-func pLen(p fixed.Point26_6) fixed.Int26_6 {
-	// TODO(nigeltao): use fixed point math.
-	x := float64(p.X)
-	y := float64(p.Y)
-	return fixed.Int26_6(math.Sqrt(x*x + y*y))
-}
-
 // pNorm returns the vector p normalized to the given length, or zero if p is
 // degenerate.
 func pNorm(p fixed.Point26_6, length fixed.Int26_6) fixed.Point26_6 {
-	d := pLen(p)
-	if d == 0 {
+	if p == (fixed.Point26_6{}) {
 		return fixed.Point26_6{}
 	}
-	s, t := int64(length), int64(d)
-	x := int64(p.X) * s / t
-	y := int64(p.Y) * s / t
-	return fixed.Point26_6{fixed.Int26_6(x), fixed.Int26_6(y)}
+	// The length of p is not rounded to an integer, as that would make the
+	// result of normalizing a short vector too long.
+	x, y, s := float64(p.X), float64(p.Y), float64(length)
+	d := math.Sqrt(x*x + y*y)
+	return fixed.Point26_6{fixed.Int26_6(x * s / d), fixed.Int26_6(y * s / d)}
 }
 
 // pRot45CW returns the vector p rotated clockwise by 45 degrees.
-- 
2.43.0


From eb9f5a35996cedddf566e6b8d63992019d6dc522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 04/45] fix: raster: route the inner side of a join via the
 pivot

With segments shorter than the stroke width, the direct line between the two
inner normals enclosed an area with the opposite winding, which left holes in
the stroke.
---
 raster/stroke.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/raster/stroke.go b/raster/stroke.go
index bcc66b2..119a91b 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -80,10 +80,15 @@ var RoundJoiner Joiner = JoinerFunc(roundJoiner)
 
 func roundJoiner(lhs, rhs Adder, haflWidth fixed.Int26_6, pivot, n0, n1 fixed.Point26_6) {
 	dot := pDot(pRot90CW(n0), n1)
+	// The inner side goes via the pivot. Going directly from one normal to the
+	// other may enclose an area outside of a short segment in the opposite
+	// direction, cancelling out the winding of the rest of the stroke.
 	if dot >= 0 {
 		addArc(lhs, pivot, n0, n1)
+		rhs.Add1(pivot)
 		rhs.Add1(pivot.Sub(n1))
 	} else {
+		lhs.Add1(pivot)
 		lhs.Add1(pivot.Add(n1))
 		addArc(rhs, pivot, pNeg(n0), pNeg(n1))
 	}
@@ -93,6 +98,12 @@ func roundJoiner(lhs, rhs Adder, haflWidth fixed.Int26_6, pivot, n0, n1 fixed.Po
 var BevelJoiner Joiner = JoinerFunc(bevelJoiner)
 
 func bevelJoiner(lhs, rhs Adder, haflWidth fixed.Int26_6, pivot, n0, n1 fixed.Point26_6) {
+	// As for a round join, the inner side goes via the pivot.
+	if pDot(pRot90CW(n0), n1) >= 0 {
+		rhs.Add1(pivot)
+	} else {
+		lhs.Add1(pivot)
+	}
 	lhs.Add1(pivot.Add(n1))
 	rhs.Add1(pivot.Sub(n1))
 }
-- 
2.43.0


From 1909da726d4b5a6550902b8195d29f1e370a3bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 05/45] fix: raster: detect cusps by the angle of the control
 polygon when stroking

The test compared the dot product of two normals truncated to integers with the
exact squared half width, so that it failed except for axis-aligned cusps, and
the arc around the cusp was left out.
---
 raster/stroke.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/raster/stroke.go b/raster/stroke.go
index 119a91b..d778e2e 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -6,6 +6,8 @@
 package raster
 
 import (
+	"math"
+
 	"golang.org/x/image/math/fixed"
 )
 
@@ -209,6 +211,11 @@ func angleGreaterThan45(v0, v1 fixed.Point26_6) bool {
 	return pDot(v, v1) < 0 || pDot(pRot90CW(v), v1) < 0
 }
 
+// cosAngle returns the cosine of the angle between two non-zero vectors.
+func cosAngle(v0, v1 fixed.Point26_6) float64 {
+	return float64(pDot(v0, v1)) / math.Sqrt(float64(pDot(v0, v0))*float64(pDot(v1, v1)))
+}
+
 // interpolate returns the point (1-t)*a + t*b.
 func interpolate(a, b fixed.Point26_6, t fixed.Int52_12) fixed.Point26_6 {
 	s := 1<<12 - t
@@ -379,7 +386,7 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	// then the decomposition can become unstable, so we approximate the
 	// quadratic segment by two linear segments joined by an arc.
 	bcnorm := pRot90CCW(pNorm(bc, k.u))
-	if pDot(abnorm, bcnorm) < -fixed.Int52_12(k.u)*fixed.Int52_12(k.u)*2047/2048 {
+	if cosAngle(ab, bc) < -2047.0/2048 {
 		pArc := pDot(abnorm, bc) < 0
 
 		k.p.Add1(mabc.Add(abnorm))
-- 
2.43.0


From 382d6d3eb1160f77963119c6de3b69c0aea62cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 06/45] fix: raster: do not split a stroked quadratic into a
 nearly-degenerate part

When the point of maximum curvature was almost at an end point, the short part
had a zero or arbitrary normal at its end, which deformed or dropped the cap.
---
 raster/stroke.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/raster/stroke.go b/raster/stroke.go
index d778e2e..b0069bd 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -411,6 +411,13 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 		return
 	}
 
+	// A nearly-degenerate part has no well-defined normal at its end.
+	am, mc := mabc.Sub(k.a), c.Sub(mabc)
+	if pDot(am, am) < epsilon || pDot(mc, mc) < epsilon {
+		k.addNonCurvy2(b, c)
+		return
+	}
+
 	// Process the decomposed parts.
 	k.addNonCurvy2(mab, mabc)
 	k.addNonCurvy2(mbc, c)
-- 
2.43.0


From d614cf33159a2f987da2a1aac93cc028d51705fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 07/45] fix: raster: do not pass on empty spans from a
 MonochromePainter

The first span of each rasterization was the accumulator's initial, empty one,
and a rasterization without any opaque pixel ended with one too.
---
 raster/paint.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/raster/paint.go b/raster/paint.go
index 652256c..b4bd911 100644
--- a/raster/paint.go
+++ b/raster/paint.go
@@ -197,8 +197,10 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 			if m.y == s.Y && m.x1 == s.X0 {
 				m.x1 = s.X1
 			} else {
-				ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
-				j++
+				if m.x0 < m.x1 {
+					ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
+					j++
+				}
 				m.y, m.x0, m.x1 = s.Y, s.X0, s.X1
 			}
 		}
@@ -206,7 +208,9 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 	if done {
 		// Flush the accumulated Span.
 		finalSpan := Span{m.y, m.x0, m.x1, 1<<16 - 1}
-		if j < len(ss) {
+		if m.x0 >= m.x1 {
+			m.Painter.Paint(ss[:j], true)
+		} else if j < len(ss) {
 			ss[j] = finalSpan
 			j++
 			m.Painter.Paint(ss[:j], true)
-- 
2.43.0


From 96b7be327653bc02785cf8ff953a83724e7f47e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 08/45] fix: truetype: check the cmap subtable's length when
 parsing

A truncated or corrupt cmap made Parse panic, and a large number of groups made
it allocate an amount of memory unrelated to the size of the font.
---
 truetype/truetype.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 7270bbf..1abaa8e 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -207,10 +207,16 @@ func (f *Font) parseCmap() error {
 	if offset <= 0 || offset > len(f.cmap) {
 		return FormatError("bad cmap offset")
 	}
+	if len(f.cmap)-offset < 2 {
+		return FormatError("cmap too short")
+	}
 
 	cmapFormat := u16(f.cmap, offset)
 	switch cmapFormat {
 	case cmapFormat4:
+		if len(f.cmap)-offset < 14 {
+			return FormatError("cmap too short")
+		}
 		language := u16(f.cmap, offset+4)
 		if language != languageIndependent {
 			return UnsupportedError(fmt.Sprintf("language: %d", language))
@@ -221,6 +227,9 @@ func (f *Font) parseCmap() error {
 		}
 		segCount := segCountX2 / 2
 		offset += 14
+		if len(f.cmap)-offset < 8*segCount+2 {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, segCount)
 		for i := 0; i < segCount; i++ {
 			f.cm[i].end = uint32(u16(f.cmap, offset))
@@ -243,6 +252,9 @@ func (f *Font) parseCmap() error {
 		return nil
 
 	case cmapFormat12:
+		if len(f.cmap)-offset < 16 {
+			return FormatError("cmap too short")
+		}
 		if u16(f.cmap, offset+2) != 0 {
 			return FormatError(fmt.Sprintf("cmap format: % x", f.cmap[offset:offset+4]))
 		}
@@ -256,6 +268,9 @@ func (f *Font) parseCmap() error {
 			return FormatError("inconsistent cmap length")
 		}
 		offset += 16
+		if uint32(len(f.cmap)-offset)/12 < nGroups {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, nGroups)
 		for i := uint32(0); i < nGroups; i++ {
 			f.cm[i].start = u32(f.cmap, offset+0)
-- 
2.43.0


From e0722e0bf72fb32fdd40da3d4fb84df9d018fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 09/45] fix: truetype: reject a unitsPerEm of zero

All scaling divides by it.
---
 truetype/truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 1abaa8e..94b1f2d 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -288,6 +288,9 @@ func (f *Font) parseHead() error {
 		return FormatError(fmt.Sprintf("bad head length: %d", len(f.head)))
 	}
 	f.fUnitsPerEm = int32(u16(f.head, 18))
+	if f.fUnitsPerEm == 0 {
+		return FormatError("bad unitsPerEm: 0")
+	}
 	f.bounds.Min.X = fixed.Int26_6(int16(u16(f.head, 36)))
 	f.bounds.Min.Y = fixed.Int26_6(int16(u16(f.head, 38)))
 	f.bounds.Max.X = fixed.Int26_6(int16(u16(f.head, 40)))
-- 
2.43.0


From 4c11fd47b6a3b57d308299bbaafc2e2728686fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 10/45] fix: truetype: reject a font without any full
 horizontal metric

The glyphs past the last one share its advance width.
---
 truetype/truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 94b1f2d..db60c8f 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -313,6 +313,9 @@ func (f *Font) parseHhea() error {
 	f.ascent = int32(int16(u16(f.hhea, 4)))
 	f.descent = int32(int16(u16(f.hhea, 6)))
 	f.nHMetric = int(u16(f.hhea, 34))
+	if f.nHMetric == 0 {
+		return FormatError("bad number of horizontal metrics: 0")
+	}
 	if 4*f.nHMetric+2*(f.nGlyph-f.nHMetric) != len(f.hmtx) {
 		return FormatError(fmt.Sprintf("bad hmtx length: %d", len(f.hmtx)))
 	}
-- 
2.43.0


From 556f6f3074266a0ec5733b88d65d4b710ea45809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 11/45] fix: truetype: check the number of kerning pairs
 against the table's length

---
 truetype/truetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index db60c8f..fb62d23 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -366,7 +366,7 @@ func (f *Font) parseKern() error {
 		return UnsupportedError(fmt.Sprintf("kern coverage: 0x%04x", coverage))
 	}
 	f.nKern, offset = int(u16(f.kern, offset)), offset+2
-	if 6*f.nKern != length-14 {
+	if 6*f.nKern != length-14 || 6*f.nKern > len(f.kern)-18 {
 		return FormatError("bad kern table length")
 	}
 	return nil
-- 
2.43.0


From 3a2725301e62986492caa030265dc30cf7607e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 12/45] fix: truetype: check a name's offset and length, and do
 not wrap them around

A name whose text lies past the end of the table made Name panic, and the sum
of two 16-bit offsets could wrap around to other text.
---
 truetype/truetype.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index fb62d23..4f68f8a 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -438,7 +438,10 @@ func (f *Font) Name(id NameID) string {
 	if err != nil {
 		return ""
 	}
-	offset, length := u16(f.name, 4)+u16(f.name, x+10), u16(f.name, x+8)
+	offset, length := int(u16(f.name, 4))+int(u16(f.name, x+10)), int(u16(f.name, x+8))
+	if offset+length > len(f.name) {
+		return ""
+	}
 	// Return the ASCII value of the encoded string.
 	// The string is encoded as UTF-16 on non-Apple platformIDs; Apple is platformID 1.
 	src := f.name[offset : offset+length]
-- 
2.43.0


From 62cefbda475d95d56c90a7195f779bed305d121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 13/45] fix: truetype: bounds-check the cmap's glyph array and
 apply its delta

A segment with a non-zero idRangeOffset has a glyph array, whose non-zero
entries idDelta is to be added to. An offset past the array made Index panic.
---
 truetype/truetype.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 4f68f8a..c62c2c1 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -423,7 +423,15 @@ func (f *Font) Index(x rune) Index {
 			return Index(c + cm.delta)
 		} else {
 			offset := int(cm.offset) + 2*(h-len(f.cm)+int(c-cm.start))
-			return Index(u16(f.cmapIndexes, offset))
+			if offset < 0 || offset+2 > len(f.cmapIndexes) {
+				return 0
+			}
+			i := Index(u16(f.cmapIndexes, offset))
+			if i != 0 {
+				// The delta applies to the glyph array's entries too.
+				i += Index(cm.delta)
+			}
+			return i
 		}
 	}
 	return 0
-- 
2.43.0


From 15151f582a02394ba3e042ae7b0855f72d7fb6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 14/45] fix: truetype: check a glyph's index and location when
 loading it

A glyph index past the end, or a corrupt or truncated loca or glyf table, made
Load panic.
---
 truetype/glyph.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 6157ad8..1587ee3 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -175,8 +175,18 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	if recursion >= 32 {
 		return UnsupportedError("excessive compound glyph recursion")
 	}
+	if int(i) >= g.font.nGlyph {
+		return FormatError("glyph index out of range")
+	}
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
+	locaEntrySize := 4
+	if g.font.locaOffsetFormat == locaOffsetFormatShort {
+		locaEntrySize = 2
+	}
+	if len(g.font.loca) < locaEntrySize*(int(i)+2) {
+		return FormatError("loca table too short")
+	}
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
 		g0 = 2 * uint32(u16(g.font.loca, 2*int(i)))
 		g1 = 2 * uint32(u16(g.font.loca, 2*int(i)+2))
@@ -189,7 +199,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// 10 bytes of the glyf data. boundsYMin and boundsXMax, at offsets 4
 	// and 6, are unused.
 	glyf, ne, boundsXMin, boundsYMax := []byte(nil), 0, fixed.Int26_6(0), fixed.Int26_6(0)
-	if g0+10 <= g1 {
+	if g0 < g1 && 10 <= g1-g0 {
+		if uint64(g1) > uint64(len(g.font.glyf)) {
+			return FormatError("bad glyph location")
+		}
 		glyf = g.font.glyf[g0:g1]
 		ne = int(int16(u16(glyf, 0)))
 		boundsXMin = fixed.Int26_6(int16(u16(glyf, 2)))
-- 
2.43.0


From ad6bb302139941640260d6171b22cbd88f92b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 15/45] fix: truetype: check a simple glyph's data while
 decoding it

Truncated data, decreasing contour ends and too many repeated flags made Load
panic or yield more points than the glyph has.
---
 truetype/glyph.go | 51 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 1587ee3..3fafee7 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -239,7 +239,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		}
 	} else {
 		np0, ne0 := len(g.Points), len(g.Ends)
-		program := g.loadSimple(glyf, ne)
+		program, err := g.loadSimple(glyf, ne)
+		if err != nil {
+			return err
+		}
 		g.addPhantomsAndScale(np0, np0, true, true)
 		pp1x = g.Points[len(g.Points)-4].X
 		if g.hinting != font.HintingNone {
@@ -283,21 +286,34 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 // 10 bytes are the number of contours and the bounding box.
 const loadOffset = 10
 
-func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
+func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
+	errShort := FormatError("glyph data too short")
 	offset := loadOffset
+	if len(glyf)-offset < 2*ne+2 {
+		return nil, errShort
+	}
+	prevEnd := 0
 	for i := 0; i < ne; i++ {
-		g.Ends = append(g.Ends, 1+int(u16(glyf, offset)))
+		end := 1 + int(u16(glyf, offset))
+		if end < prevEnd {
+			return nil, FormatError("glyph contour ends are decreasing")
+		}
+		g.Ends = append(g.Ends, end)
+		prevEnd = end
 		offset += 2
 	}
 
 	// Note the TrueType hinting instructions.
 	instrLen := int(u16(glyf, offset))
 	offset += 2
+	if len(glyf)-offset < instrLen {
+		return nil, errShort
+	}
 	program = glyf[offset : offset+instrLen]
 	offset += instrLen
 
 	if ne == 0 {
-		return program
+		return program, nil
 	}
 
 	np0 := len(g.Points)
@@ -305,13 +321,22 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 
 	// Decode the flags.
 	for i := np0; i < np1; {
+		if offset >= len(glyf) {
+			return nil, errShort
+		}
 		c := uint32(glyf[offset])
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
 		if c&flagRepeat != 0 {
+			if offset >= len(glyf) {
+				return nil, errShort
+			}
 			count := glyf[offset]
 			offset++
+			if int(count) > np1-i {
+				return nil, FormatError("too many repeated glyph flags")
+			}
 			for ; count > 0; count-- {
 				g.Points = append(g.Points, Point{Flags: c})
 				i++
@@ -320,6 +345,22 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	}
 
 	// Decode the co-ordinates.
+	size := 0
+	for _, p := range g.Points[np0:] {
+		if p.Flags&flagXShortVector != 0 {
+			size++
+		} else if p.Flags&flagThisXIsSame == 0 {
+			size += 2
+		}
+		if p.Flags&flagYShortVector != 0 {
+			size++
+		} else if p.Flags&flagThisYIsSame == 0 {
+			size += 2
+		}
+	}
+	if len(glyf)-offset < size {
+		return nil, errShort
+	}
 	var x int16
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
@@ -355,7 +396,7 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 		g.Points[i].Y = fixed.Int26_6(y)
 	}
 
-	return program
+	return program, nil
 }
 
 func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
-- 
2.43.0


From e53ad23884ac21a41d384e32c58aba5f1c77b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 16/45] fix: truetype: check a compound glyph's data while
 decoding it

---
 truetype/glyph.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 3fafee7..fe49018 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -417,13 +417,20 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		flagUseMyMetrics
 		flagOverlapCompound
 	)
+	errShort := FormatError("glyph data too short")
 	np0, ne0 := len(g.Points), len(g.Ends)
 	offset := loadOffset
 	for {
+		if len(glyf)-offset < 6 {
+			return errShort
+		}
 		flags := u16(glyf, offset)
 		component := Index(u16(glyf, offset+2))
 		dx, dy, transform, hasTransform := fixed.Int26_6(0), fixed.Int26_6(0), [4]int16{}, false
 		if flags&flagArg1And2AreWords != 0 {
+			if len(glyf)-offset < 8 {
+				return errShort
+			}
 			dx = fixed.Int26_6(int16(u16(glyf, offset+4)))
 			dy = fixed.Int26_6(int16(u16(glyf, offset+6)))
 			offset += 8
@@ -437,6 +444,15 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		}
 		if flags&(flagWeHaveAScale|flagWeHaveAnXAndYScale|flagWeHaveATwoByTwo) != 0 {
 			hasTransform = true
+			size := 8
+			if flags&flagWeHaveAScale != 0 {
+				size = 2
+			} else if flags&flagWeHaveAnXAndYScale != 0 {
+				size = 4
+			}
+			if len(glyf)-offset < size {
+				return errShort
+			}
 			switch {
 			case flags&flagWeHaveAScale != 0:
 				transform[0] = int16(u16(glyf, offset+0))
@@ -513,6 +529,9 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 
 	// Hint the compound glyph.
+	if len(glyf)-offset < instrLen {
+		return errShort
+	}
 	program := glyf[offset : offset+instrLen]
 	// Temporarily adjust the ends to be relative to this compound glyph.
 	if np0 != 0 {
-- 
2.43.0


From bf55847531e932bfa3db2f5e002ab14d05d9f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 17/45] fix: truetype: limit the number of components and
 points of a glyph

The recursion limit alone let a font of a few hundred bytes keep Load busy for
hours, or allocate all memory, with compound glyphs that each refer to the next
one several times.
---
 truetype/glyph.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index fe49018..9c5ec82 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -53,6 +53,8 @@ type GlyphBuf struct {
 	// metricsSet is whether the glyph's metrics have been set yet. For a
 	// compound glyph, a sub-glyph may override the outer glyph's metrics.
 	metricsSet bool
+	// nComponents is the number of simple and compound glyphs visited so far.
+	nComponents int
 	// tmp is a scratch buffer.
 	tmp []Point
 }
@@ -93,6 +95,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	g.pp1x = 0
 	g.phantomPoints = [4]Point{}
 	g.metricsSet = false
+	g.nComponents = 0
 
 	if h != font.HintingNone {
 		if err := g.hinter.init(f, scale); err != nil {
@@ -175,6 +178,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	if recursion >= 32 {
 		return UnsupportedError("excessive compound glyph recursion")
 	}
+	// So is this limit. Without it, the work is exponential in the depth.
+	if g.nComponents++; g.nComponents > 4096 {
+		return UnsupportedError("excessive number of compound glyph components")
+	}
 	if int(i) >= g.font.nGlyph {
 		return FormatError("glyph index out of range")
 	}
@@ -318,6 +325,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 
 	np0 := len(g.Points)
 	np1 := np0 + int(g.Ends[len(g.Ends)-1])
+	if np1 > 1<<16 {
+		return nil, UnsupportedError("excessive number of points")
+	}
 
 	// Decode the flags.
 	for i := np0; i < np1; {
-- 
2.43.0


From c01e2b8f0ce1b6cd66ef2f9ce1978e9769e62623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 18/45] fix: truetype: drop the phantom points of an empty
 glyph from all point lists

A compound glyph's components after an empty one were hinted with the unhinted
and unscaled points of the wrong indexes.
---
 truetype/glyph.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 9c5ec82..e106d8a 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -229,7 +229,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		g.addPhantomsAndScale(len(g.Points), len(g.Points), true, true)
 		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
 		g.Points = g.Points[:len(g.Points)-4]
-		// TODO: also trim g.InFontUnits and g.Unhinted?
+		if g.hinting != font.HintingNone {
+			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
+			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
+		}
 		return nil
 	}
 
-- 
2.43.0


From d0ae7eafd86ee36e41ef5b50ae845b7f1de53a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 19/45] fix: truetype: let an empty component provide the
 metrics of its compound

The phantom points of an empty component with the use-my-metrics flag were
scaled twice, so that the advance width was wrong.
---
 truetype/glyph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index e106d8a..0d2a58b 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -233,6 +233,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
 			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
 		}
+		if useMyMetrics && !g.metricsSet {
+			g.metricsSet = true
+			g.pp1x = g.phantomPoints[0].X
+		}
 		return nil
 	}
 
-- 
2.43.0


From 2ef5fc6c39f9a8fc1c01ea7392b0370d63d1d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 20/45] fix: truetype: check zone pointers when hinting

A zone other than 0 or 1 made the interpreter panic on the next use.
---
 truetype/hint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 13f785b..b8f0051 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -331,10 +331,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSZP0, opSZP1, opSZP2:
 			top--
+			if h.stack[top] != twilightZone && h.stack[top] != glyphZone {
+				return errors.New("truetype: hinting: invalid zone")
+			}
 			h.gs.zp[opcode-opSZP0] = h.stack[top]
 
 		case opSZPS:
 			top--
+			if h.stack[top] != twilightZone && h.stack[top] != glyphZone {
+				return errors.New("truetype: hinting: invalid zone")
+			}
 			h.gs.zp[0] = h.stack[top]
 			h.gs.zp[1] = h.stack[top]
 			h.gs.zp[2] = h.stack[top]
-- 
2.43.0


From 09dfec330c6c59c9e9b005204b1898eef129a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 21/45] fix: truetype: check the delta shift and the number of
 deltas when hinting

A shift of 32 or more divided by zero, and a large number of exceptions
overflowed the check against the stack's depth.
---
 truetype/hint.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index b8f0051..154b7d0 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -900,6 +900,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSDS:
 			top--
+			if h.stack[top] < 0 || 6 < h.stack[top] {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.deltaShift = h.stack[top]
 
 		case opADD:
@@ -1359,7 +1362,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			top--
 			n := h.stack[top]
-			if int32(top) < 2*n {
+			if int32(top)/2 < n {
 				return errors.New("truetype: hinting: stack underflow")
 			}
 			for ; n > 0; n-- {
-- 
2.43.0


From ca2426bdbde5534862c85c3b0f07ff492132e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 22/45] fix: truetype: check that points exist in IP, MIAP, GC
 and MDRP

Points out of range made the interpreter panic, as they do not in the other
instructions.
---
 truetype/hint.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 154b7d0..6861ba1 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -648,17 +648,29 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			p := h.point(1, pointType, h.gs.rp[2])
 			oldP := h.point(0, pointType, h.gs.rp[1])
+			if p == nil || oldP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldRange := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 
 			p = h.point(1, current, h.gs.rp[2])
 			curP := h.point(0, current, h.gs.rp[1])
+			if p == nil || curP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			curRange := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 			for ; h.gs.loop != 0; h.gs.loop-- {
 				top--
 				i := h.stack[top]
 				p = h.point(2, pointType, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				oldDist := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 				p = h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				curDist := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 				newDist := fixed.Int26_6(0)
 				if oldDist != 0 {
@@ -726,11 +738,17 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if h.gs.zp[0] == 0 {
 				p := h.point(0, unhinted, i)
 				q := h.point(0, current, i)
+				if p == nil || q == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				p.X = fixed.Int26_6((int64(distance) * int64(h.gs.fv[0])) >> 14)
 				p.Y = fixed.Int26_6((int64(distance) * int64(h.gs.fv[1])) >> 14)
 				*q = *p
 			}
 			p := h.point(0, current, i)
+			if p == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldDist := dotProduct(p.X, p.Y, h.gs.pv)
 			if opcode == opMIAP1 {
 				if fabs(distance-oldDist) > h.gs.controlValueCutIn {
@@ -777,9 +795,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			i := h.stack[top-1]
 			if opcode == opGC0 {
 				p := h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.pv))
 			} else {
 				p := h.point(2, unhinted, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				// Using dv as per C Freetype.
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.dv))
 			}
@@ -1157,10 +1181,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if h.gs.zp[0] == 0 || h.gs.zp[1] == 0 {
 					p0 := h.point(1, unhinted, i)
 					p1 := h.point(0, unhinted, h.gs.rp[0])
+					if p0 == nil || p1 == nil {
+						return errors.New("truetype: hinting: point out of range")
+					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
 				} else {
 					p0 := h.point(1, inFontUnits, i)
 					p1 := h.point(0, inFontUnits, h.gs.rp[0])
+					if p0 == nil || p1 == nil {
+						return errors.New("truetype: hinting: point out of range")
+					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
 					oldDist = h.font.scale(h.scale * oldDist)
 				}
-- 
2.43.0


From 6edced3367e009a2bcd77f44b60e96035c6de959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 23/45] fix: truetype: do not divide by a zero product of the
 hinting vectors

Moving a point along a freedom vector that is perpendicular to the projection
vector divided by zero. Like C Freetype, treat vectors that are all but
perpendicular as parallel. Also, leave a zero vector unnormalized.
---
 truetype/hint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 6861ba1..ddc5fa0 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -1503,6 +1503,9 @@ func (h *hinter) move(p *Point, distance fixed.Int26_6, touch bool) {
 	}
 
 	fvDotPv := (fvx*pvx + fvy*pvy) >> 14
+	if -0x400 < fvDotPv && fvDotPv < 0x400 {
+		fvDotPv = 0x4000
+	}
 
 	if fvx != 0 {
 		p.X += fixed.Int26_6(mulDiv(fvx, int64(distance), fvDotPv))
@@ -1680,6 +1683,9 @@ func skipInstructionPayload(program []byte, pc int) (newPC int, ok bool) {
 type f2dot14 int16
 
 func normalize(x, y f2dot14) [2]f2dot14 {
+	if x == 0 && y == 0 {
+		return [2]f2dot14{}
+	}
 	fx, fy := float64(x), float64(y)
 	l := 0x4000 / math.Hypot(fx, fy)
 	fx *= l
-- 
2.43.0


From 78eba2dd1c7bcd7e9256b23f97566e19a70d2b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 24/45] fix: truetype: do not carry hinting state over between
 glyphs, scales and fonts

A glyph's hinting program could see what was hinted earlier with the same
GlyphBuf: storage, the control value table and the function table were not
reset between glyphs, whereas the twilight points that the prep program set up
were only seen by the first glyph. The fpgm program saw the previous font's
graphics state and scale, the stack and storage sizes were the previous font's
if those were larger, and an error from the fpgm or prep program was only
reported once.

Run the fpgm and prep programs anew for each new font or scale, and otherwise
restore the state that they left.
---
 truetype/hint.go | 115 ++++++++++++++++++++++++++++-------------------
 1 file changed, 69 insertions(+), 46 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index ddc5fa0..a5f74a1 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -64,6 +64,15 @@ type hinter struct {
 	// scaledCVT is the lazily initialized scaled Control Value Table.
 	scaledCVTInitialized bool
 	scaledCVT            []fixed.Int26_6
+
+	// ready is whether the font's fpgm and prep programs have been run,
+	// without an error, for the current font and scale. The saved fields are
+	// the state that those programs left: a glyph's program starts from that
+	// state, regardless of what other glyphs were hinted before.
+	ready          bool
+	savedStore     []int32
+	savedScaledCVT []fixed.Int26_6
+	savedTwilight  [numPointType][]Point
 }
 
 // graphicsState is described at https://developer.apple.com/fonts/TTRefMan/RM04/Chap4.html
@@ -115,60 +124,74 @@ func resetTwilightPoints(f *Font, p []Point) []Point {
 	return p
 }
 
-func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
-	h.points[twilightZone][0] = resetTwilightPoints(f, h.points[twilightZone][0])
-	h.points[twilightZone][1] = resetTwilightPoints(f, h.points[twilightZone][1])
-	h.points[twilightZone][2] = resetTwilightPoints(f, h.points[twilightZone][2])
-
-	rescale := h.scale != scale
-	if h.font != f {
-		h.font, rescale = f, true
-		if h.functions == nil {
-			h.functions = make(map[int32][]byte)
-		} else {
-			for k := range h.functions {
-				delete(h.functions, k)
-			}
-		}
+// resizeInt32s returns a slice of n zeroes, re-using s if it is large enough.
+func resizeInt32s(s []int32, n int) []int32 {
+	if n > cap(s) {
+		return make([]int32, n)
+	}
+	s = s[:n]
+	for i := range s {
+		s[i] = 0
+	}
+	return s
+}
 
-		if x := int(f.maxStackElements); x > len(h.stack) {
-			x += 255
-			x &^= 255
-			h.stack = make([]int32, x)
-		}
-		if x := int(f.maxStorage); x > len(h.store) {
-			x += 15
-			x &^= 15
-			h.store = make([]int32, x)
-		}
-		if len(f.fpgm) != 0 {
-			if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
-				return err
-			}
+func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
+	if h.ready && h.font == f && h.scale == scale {
+		copy(h.store, h.savedStore)
+		h.scaledCVTInitialized = len(h.savedScaledCVT) != 0
+		copy(h.scaledCVT, h.savedScaledCVT)
+		for i := range h.savedTwilight {
+			copy(h.points[twilightZone][i], h.savedTwilight[i])
 		}
+		return nil
 	}
 
-	if rescale {
-		h.scale = scale
+	h.ready = false
+	h.font = f
+	for i := range h.points[twilightZone] {
+		h.points[twilightZone][i] = resetTwilightPoints(f, h.points[twilightZone][i])
+	}
+	h.functions = make(map[int32][]byte)
+	h.stack = resizeInt32s(h.stack, (int(f.maxStackElements)+255)&^255)
+	h.store = resizeInt32s(h.store, (int(f.maxStorage)+15)&^15)
+	h.defaultGS = globalDefaultGS
+
+	if len(f.fpgm) != 0 {
+		// The font program is not specific to any one scale.
+		h.scale = 0
 		h.scaledCVTInitialized = false
+		if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
+			return err
+		}
+	}
 
-		h.defaultGS = globalDefaultGS
-
-		if len(f.prep) != 0 {
-			if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
-				return err
-			}
-			h.defaultGS = h.gs
-			// The MS rasterizer doesn't allow the following graphics state
-			// variables to be modified by the CVT program.
-			h.defaultGS.pv = globalDefaultGS.pv
-			h.defaultGS.fv = globalDefaultGS.fv
-			h.defaultGS.dv = globalDefaultGS.dv
-			h.defaultGS.rp = globalDefaultGS.rp
-			h.defaultGS.zp = globalDefaultGS.zp
-			h.defaultGS.loop = globalDefaultGS.loop
+	h.scale = scale
+	h.scaledCVTInitialized = false
+	if len(f.prep) != 0 {
+		if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
+			return err
 		}
+		h.defaultGS = h.gs
+		// The MS rasterizer doesn't allow the following graphics state
+		// variables to be modified by the CVT program.
+		h.defaultGS.pv = globalDefaultGS.pv
+		h.defaultGS.fv = globalDefaultGS.fv
+		h.defaultGS.dv = globalDefaultGS.dv
+		h.defaultGS.rp = globalDefaultGS.rp
+		h.defaultGS.zp = globalDefaultGS.zp
+		h.defaultGS.loop = globalDefaultGS.loop
+	}
+
+	h.savedStore = append(h.savedStore[:0], h.store...)
+	h.savedScaledCVT = h.savedScaledCVT[:0]
+	if h.scaledCVTInitialized {
+		h.savedScaledCVT = append(h.savedScaledCVT, h.scaledCVT...)
+	}
+	for i := range h.savedTwilight {
+		h.savedTwilight[i] = append(h.savedTwilight[i][:0], h.points[twilightZone][i]...)
 	}
+	h.ready = true
 	return nil
 }
 
-- 
2.43.0


From 20b8b7ccd7f8c563efd4dede71df4e438e50708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 25/45] fix: truetype: reject an FDEF in a glyph's hinting
 program

Functions are defined by the fpgm and prep programs. A definition by a glyph's
program would otherwise affect the hinting of later glyphs. C Freetype rejects
it too.
---
 truetype/hint.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index a5f74a1..f85564f 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -494,6 +494,11 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			continue
 
 		case opFDEF:
+			// As per C Freetype, FDEF is only allowed in the fpgm and prep
+			// programs, which have no glyph points.
+			if len(pCurrent) != 0 {
+				return errors.New("truetype: hinting: FDEF in a glyph's program")
+			}
 			// Save all bytecode up until the next ENDF.
 			startPC := pc + 1
 		fdefloop:
-- 
2.43.0


From c11b24d40e80bc3068becad9e6e4e0f60e93e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 26/45] fix: truetype: set rp1 before rp0 in MSIRP

RP1 is set to the reference point, which is the old RP0, even if RP0 is then
set to the moved point.
---
 truetype/hint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index f85564f..b36b72e 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -726,11 +726,11 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			curDist := dotProduct(p.X-ref.X, p.Y-ref.Y, h.gs.pv)
 
 			// Set-RP0 bit.
+			h.gs.rp[1] = h.gs.rp[0]
+			h.gs.rp[2] = i
 			if opcode == opMSIRP1 {
 				h.gs.rp[0] = i
 			}
-			h.gs.rp[1] = h.gs.rp[0]
-			h.gs.rp[2] = i
 
 			// Move the point.
 			h.move(p, distance-curDist, true)
-- 
2.43.0


From d8662ca72404f2f46b7b4b0ce17574d420b19de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 27/45] fix: truetype: use zone pointers 1 and 2 in SPVTL and
 SFVTL

As per the specification and as in SDPVTL, the line's points are in zones zp1
and zp2, not both in zp0.
---
 truetype/hint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index b36b72e..b1962ab 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -250,8 +250,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSPVTL0, opSPVTL1, opSFVTL0, opSFVTL1:
 			top -= 2
-			p1 := h.point(0, current, h.stack[top+0])
-			p2 := h.point(0, current, h.stack[top+1])
+			p1 := h.point(1, current, h.stack[top+0])
+			p2 := h.point(2, current, h.stack[top+1])
 			if p1 == nil || p2 == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-- 
2.43.0


From 5fe1c1a0009aaa123d8c74457ec2927c62de1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 28/45] fix: truetype: only clear the UTP touched flags in the
 freedom vector's directions

---
 truetype/hint.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index b1962ab..ff5b08b 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -470,7 +470,12 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if p == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-			p.Flags &^= flagTouchedX | flagTouchedY
+			if h.gs.fv[0] != 0 {
+				p.Flags &^= flagTouchedX
+			}
+			if h.gs.fv[1] != 0 {
+				p.Flags &^= flagTouchedY
+			}
 
 		case opLOOPCALL, opCALL:
 			if callStackTop >= len(callStack) {
-- 
2.43.0


From 3916942bdfa4b66d69b094e5c18d21ae7e9ebab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 29/45] fix: truetype: move points by SHPIX along the freedom
 vector

SHPIX shifts points by the given number of pixels in the direction of the
freedom vector, regardless of the projection vector.
---
 truetype/hint.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index ff5b08b..623b4ff 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -656,7 +656,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSHPIX:
 			top--
-			d := fixed.Int26_6(h.stack[top])
+			d := int64(h.stack[top])
+			dx := fixed.Int26_6(mulDiv(d, int64(h.gs.fv[0]), 0x4000))
+			dy := fixed.Int26_6(mulDiv(d, int64(h.gs.fv[1]), 0x4000))
 			if top < int(h.gs.loop) {
 				return errors.New("truetype: hinting: stack underflow")
 			}
@@ -666,7 +668,14 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				h.move(p, d, true)
+				if h.gs.fv[0] != 0 {
+					p.X += dx
+					p.Flags |= flagTouchedX
+				}
+				if h.gs.fv[1] != 0 {
+					p.Y += dy
+					p.Flags |= flagTouchedY
+				}
 			}
 			h.gs.loop = 1
 
-- 
2.43.0


From abc0e5b89610b5e10e5966d7b777ea206ccca88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 30/45] fix: truetype: round the scaled distance in MD

Like all other scaled font units, the distance is rounded to the nearest 26.6
fixed point number.
---
 truetype/hint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 623b4ff..686cb4e 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -890,7 +890,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			d := int32(dotProduct(p.X-q.X, p.Y-q.Y, v))
 			if scale {
-				d = int32(int64(d*int32(h.scale)) / int64(h.font.fUnitsPerEm))
+				d = int32(h.font.scale(h.scale * fixed.Int26_6(d)))
 			}
 			h.stack[top-1] = d
 
-- 
2.43.0


From 25eeb27d9e3fdc31239a3306b510a40858c94288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 31/45] fix: truetype: ignore the reserved flags of a glyph's
 points

The 0x40 bit (OVERLAP_SIMPLE) and the 0x80 bit are used internally for touched
points, so that such a point was hinted as if it had been touched.
---
 truetype/glyph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 0d2a58b..252a217 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -341,7 +341,7 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 		if offset >= len(glyf) {
 			return nil, errShort
 		}
-		c := uint32(glyf[offset])
+		c := uint32(glyf[offset]) &^ (flagTouchedX | flagTouchedY)
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
-- 
2.43.0


From dc2d7a61e5e9f0d2567baf0c55f1f2cd33eec9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 32/45] fix: truetype: only look for a compound glyph's program
 if it has one

Without the WE_HAVE_INSTRUCTIONS flag, any bytes after the components are
padding.
---
 truetype/glyph.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 252a217..25d230f 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -436,7 +436,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	)
 	errShort := FormatError("glyph data too short")
 	np0, ne0 := len(g.Points), len(g.Ends)
-	offset := loadOffset
+	offset, haveInstructions := loadOffset, false
 	for {
 		if len(glyf)-offset < 6 {
 			return errShort
@@ -487,6 +487,9 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 				offset += 8
 			}
 		}
+		if flags&flagWeHaveInstructions != 0 {
+			haveInstructions = true
+		}
 		savedPP := g.phantomPoints
 		np0 := len(g.Points)
 		componentUMM := useMyMetrics && (flags&flagUseMyMetrics != 0)
@@ -526,7 +529,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 
 	instrLen := 0
-	if g.hinting != font.HintingNone && offset+2 <= len(glyf) {
+	if g.hinting != font.HintingNone && haveInstructions && offset+2 <= len(glyf) {
 		instrLen = int(u16(glyf, offset))
 		offset += 2
 	}
-- 
2.43.0


From cef900dfa78ba1679e197a5268c75f123d8dddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 33/45] fix: truetype: do not truncate distances when
 normalizing a vector

A vector between two points has 26.6 fixed point components. These overflow an
int16 if the points are 512 or more pixels apart.
---
 truetype/hint.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 686cb4e..14892d9 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -255,15 +255,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if p1 == nil || p2 == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-			dx := f2dot14(p1.X - p2.X)
-			dy := f2dot14(p1.Y - p2.Y)
+			dx := p1.X - p2.X
+			dy := p1.Y - p2.Y
 			if dx == 0 && dy == 0 {
 				dx = 0x4000
 			} else if opcode&1 != 0 {
 				// Counter-clockwise rotation.
 				dx, dy = -dy, dx
 			}
-			v := normalize(dx, dy)
+			v := normalizeDistance(dx, dy)
 			if opcode < opSFVTL0 {
 				h.gs.pv = v
 				h.gs.dv = v
@@ -1129,8 +1129,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil || q == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				dx := f2dot14(p.X - q.X)
-				dy := f2dot14(p.Y - q.Y)
+				dx := p.X - q.X
+				dy := p.Y - q.Y
 				if dx == 0 && dy == 0 {
 					dx = 0x4000
 				} else if opcode&1 != 0 {
@@ -1138,9 +1138,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 					dx, dy = -dy, dx
 				}
 				if i == 0 {
-					h.gs.dv = normalize(dx, dy)
+					h.gs.dv = normalizeDistance(dx, dy)
 				} else {
-					h.gs.pv = normalize(dx, dy)
+					h.gs.pv = normalizeDistance(dx, dy)
 				}
 			}
 
@@ -1725,6 +1725,11 @@ func skipInstructionPayload(program []byte, pc int) (newPC int, ok bool) {
 type f2dot14 int16
 
 func normalize(x, y f2dot14) [2]f2dot14 {
+	return normalizeDistance(fixed.Int26_6(x), fixed.Int26_6(y))
+}
+
+// normalizeDistance is like normalize, but for a vector between two points.
+func normalizeDistance(x, y fixed.Int26_6) [2]f2dot14 {
 	if x == 0 && y == 0 {
 		return [2]f2dot14{}
 	}
-- 
2.43.0


From 1336679cc3e3db9d92d901868423f4a1d7848a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 34/45] fix: truetype: do not scale a compound glyph's points
 twice in MD and MDRP

The program of a compound glyph refers to its already scaled and hinted
components, also for the original distances that are otherwise in font units.
---
 truetype/glyph.go | 5 ++++-
 truetype/hint.go  | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 25d230f..74627f3 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -562,7 +562,10 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	// Hinting instructions of a composite glyph completely refer to the
 	// (already) hinted subglyphs.
 	g.tmp = append(g.tmp[:0], points...)
-	if err := g.hinter.run(program, points, g.tmp, g.tmp, ends); err != nil {
+	g.hinter.isCompound = true
+	err := g.hinter.run(program, points, g.tmp, g.tmp, ends)
+	g.hinter.isCompound = false
+	if err != nil {
 		return err
 	}
 	if np0 != 0 {
diff --git a/truetype/hint.go b/truetype/hint.go
index 14892d9..6fc8b19 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -60,6 +60,9 @@ type hinter struct {
 	// and glyph's contour boundaries.
 	points [numZone][numPointType][]Point
 	ends   []int
+	// isCompound is whether the glyph is a compound glyph, whose inFontUnits
+	// points are already scaled.
+	isCompound bool
 
 	// scaledCVT is the lazily initialized scaled Control Value Table.
 	scaledCVTInitialized bool
@@ -881,7 +884,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			} else {
 				pt = inFontUnits
 				v = h.gs.dv
-				scale = true
+				scale = !h.isCompound
 			}
 			p := h.point(0, pt, h.stack[top-1])
 			q := h.point(1, pt, h.stack[top])
@@ -1234,7 +1237,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 						return errors.New("truetype: hinting: point out of range")
 					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
-					oldDist = h.font.scale(h.scale * oldDist)
+					if !h.isCompound {
+						oldDist = h.font.scale(h.scale * oldDist)
+					}
 				}
 
 				// Single-width cut-in test.
-- 
2.43.0


From a87ef8c9688a871ff4ef3c7d94a6af620e55497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 35/45] fix: freetype: clip a glyph's mask along with its
 rectangle in DrawString

A glyph that was clipped on its left side was drawn with the left side of its
mask, instead of with the part that is inside of the clip rectangle.
---
 freetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index 9603586..c534d8e 100644
--- a/freetype.go
+++ b/freetype.go
@@ -249,7 +249,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		glyphRect := mask.Bounds().Add(offset)
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
-			mp := image.Point{0, dr.Min.Y - glyphRect.Min.Y}
+			mp := dr.Min.Sub(glyphRect.Min)
 			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
-- 
2.43.0


From 2c93ecaf7264d0cf5cad7189ea155238997cad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 36/45] fix: truetype: use the SubPixelsY option for the
 vertical direction

---
 truetype/face.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index 099006f..ae9a9cb 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -117,9 +117,9 @@ func (o *Options) subPixelsX() (value uint32, halfQuantum, mask fixed.Int26_6) {
 
 func (o *Options) subPixelsY() (value uint32, halfQuantum, mask fixed.Int26_6) {
 	if o != nil {
-		switch o.SubPixelsX {
+		switch o.SubPixelsY {
 		case 1, 2, 4, 8, 16, 32, 64:
-			return subPixels(o.SubPixelsX)
+			return subPixels(o.SubPixelsY)
 		}
 	}
 	// This default value of 1 isn't based on anything scientific, merely that
-- 
2.43.0


From 6880f38764b03f4e9ab0eb5c913e22a242f77a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 37/45] fix: freetype: do not cut off glyphs that stick out of
 the font's bounds

The rasterizer's bounds were the scaled font's bounding box. A glyph can be one
pixel wider or taller than that when drawn at a fractional position, and can
also be bigger due to hinting. It was then cut off at its right and bottom.
---
 freetype.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/freetype.go b/freetype.go
index c534d8e..96a42f6 100644
--- a/freetype.go
+++ b/freetype.go
@@ -29,6 +29,10 @@ const (
 	nYFractions = 1
 )
 
+// maxGlyphSize is the maximum width and height of a glyph, in pixels. The
+// limit is arbitrary, but defends against malformed fonts.
+const maxGlyphSize = 1 << 14
+
 // An entry in the glyph cache is keyed explicitly by the glyph index and
 // implicitly by the quantized x and y fractional offset. It maps to a mask
 // image and an offset.
@@ -71,6 +75,8 @@ type Context struct {
 	fontSize, dpi float64
 	scale         fixed.Int26_6
 	hinting       font.Hinting
+	// maxw and maxh are the rasterizer's bounds.
+	maxw, maxh int
 	// cache is the glyph cache.
 	cache [nGlyphs * nXFractions * nYFractions]cacheEntry
 }
@@ -172,6 +178,9 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 	if xmin > xmax || ymin > ymax {
 		return 0, nil, image.Point{}, errors.New("freetype: negative sized glyph")
 	}
+	if xmax-xmin > maxGlyphSize || ymax-ymin > maxGlyphSize {
+		return 0, nil, image.Point{}, errors.New("freetype: glyph is too large")
+	}
 	// A TrueType's glyph's nodes can have negative co-ordinates, but the
 	// rasterizer clips anything left of x=0 or above y=0. xmin and ymin are
 	// the pixel offsets, based on the font's FUnit metrics, that let a
@@ -181,6 +190,12 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 	fy -= fixed.Int26_6(ymin << 6)
 	// Rasterize the glyph's vectors.
 	c.r.Clear()
+	if w, h := xmax-xmin, ymax-ymin; w > c.maxw || h > c.maxh {
+		// The glyph sticks out of the font's bounding box, for example because
+		// of hinting.
+		c.r.SetBounds(w, h)
+		defer c.r.SetBounds(c.maxw, c.maxh)
+	}
 	e0 := 0
 	for _, e1 := range c.glyphBuf.Ends {
 		c.drawContour(c.glyphBuf.Points[e0:e1], fx, fy)
@@ -262,16 +277,19 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 func (c *Context) recalc() {
 	c.scale = fixed.Int26_6(c.fontSize * c.dpi * (64.0 / 72.0))
 	if c.f == nil {
-		c.r.SetBounds(0, 0)
+		c.maxw, c.maxh = 0, 0
 	} else {
-		// Set the rasterizer's bounds to be big enough to handle the largest glyph.
+		// Set the rasterizer's bounds to be big enough to handle the largest
+		// glyph, which can straddle an additional pixel when it is drawn at a
+		// fractional position.
 		b := c.f.Bounds(c.scale)
 		xmin := +int(b.Min.X) >> 6
 		ymin := -int(b.Max.Y) >> 6
 		xmax := +int(b.Max.X+63) >> 6
 		ymax := -int(b.Min.Y-63) >> 6
-		c.r.SetBounds(xmax-xmin, ymax-ymin)
+		c.maxw, c.maxh = xmax-xmin+1, ymax-ymin+1
 	}
+	c.r.SetBounds(c.maxw, c.maxh)
 	for i := range c.cache {
 		c.cache[i] = cacheEntry{}
 	}
-- 
2.43.0


From 8817e8abe45afa519f68c9fe5caf899df82d6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 38/45] fix: truetype: do not cut off glyphs that stick out of
 the font's bounds

A face's mask has a slot for each cached glyph. The slot's size was that of the
scaled font's bounding box. A glyph can be one pixel wider or taller than that
when drawn at a fractional position, and can also be bigger due to hinting. It
was then cut off, and parts of other slots were visible next to it.
---
 truetype/face.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index ae9a9cb..909b116 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -168,6 +168,8 @@ type glyphCacheVal struct {
 	offset       image.Point
 	gw           int
 	gh           int
+	// mask is nil if the glyph's mask is in the face's masks.
+	mask *image.Alpha
 }
 
 type indexCacheEntry struct {
@@ -195,14 +197,16 @@ func NewFace(f *Font, opts *Options) font.Face {
 		a.indexCache[i].rune = -1
 	}
 
-	// Set the rasterizer's bounds to be big enough to handle the largest glyph.
+	// Set the rasterizer's bounds to be big enough to handle the largest glyph,
+	// which can straddle an additional pixel when it is drawn at a fractional
+	// position.
 	b := f.Bounds(a.scale)
 	xmin := +int(b.Min.X) >> 6
 	ymin := -int(b.Max.Y) >> 6
 	xmax := +int(b.Max.X+63) >> 6
 	ymax := -int(b.Min.Y-63) >> 6
-	a.maxw = xmax - xmin
-	a.maxh = ymax - ymin
+	a.maxw = xmax - xmin + 1
+	a.maxh = ymax - ymin + 1
 	a.masks = image.NewAlpha(image.Rect(0, 0, a.maxw, a.maxh*len(a.glyphCache)))
 	a.r.SetBounds(a.maxw, a.maxh)
 	a.p = facePainter{a}
@@ -235,6 +239,10 @@ type face struct {
 
 const indexCacheLen = 256
 
+// maxGlyphSize is the maximum width and height of a glyph's mask, in pixels.
+// The limit is arbitrary, but defends against malformed fonts.
+const maxGlyphSize = 1 << 14
+
 func (a *face) index(r rune) Index {
 	const mask = indexCacheLen - 1
 	c := &a.indexCache[r&mask]
@@ -315,6 +323,9 @@ func (a *face) Glyph(dot fixed.Point26_6, r rune) (
 		X: dr.Min.X + v.gw,
 		Y: dr.Min.Y + v.gh,
 	}
+	if v.mask != nil {
+		return dr, v.mask, image.Point{}, v.advanceWidth, true
+	}
 	return dr, a.masks, image.Point{Y: a.paintOffset}, v.advanceWidth, true
 }
 
@@ -361,7 +372,8 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 	ymin := int(fy-a.glyphBuf.Bounds.Max.Y) >> 6
 	xmax := int(fx+a.glyphBuf.Bounds.Max.X+0x3f) >> 6
 	ymax := int(fy-a.glyphBuf.Bounds.Min.Y+0x3f) >> 6
-	if xmin > xmax || ymin > ymax {
+	gw, gh := xmax-xmin, ymax-ymin
+	if gw < 0 || gh < 0 || gw > maxGlyphSize || gh > maxGlyphSize {
 		return glyphCacheVal{}, false
 	}
 	// A TrueType's glyph's nodes can have negative co-ordinates, but the
@@ -373,19 +385,30 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 	fy -= fixed.Int26_6(ymin << 6)
 	// Rasterize the glyph's vectors.
 	a.r.Clear()
-	pixOffset := a.paintOffset * a.maxw
-	clear(a.masks.Pix[pixOffset : pixOffset+a.maxw*a.maxh])
+	mask, painter := (*image.Alpha)(nil), a.p
+	if gw <= a.maxw && gh <= a.maxh {
+		pixOffset := a.paintOffset * a.maxw
+		clear(a.masks.Pix[pixOffset : pixOffset+a.maxw*a.maxh])
+	} else {
+		// The glyph sticks out of the font's bounding box, for example because
+		// of hinting. It does not fit into a.masks.
+		mask = image.NewAlpha(image.Rect(0, 0, gw, gh))
+		painter = raster.NewAlphaSrcPainter(mask)
+		a.r.SetBounds(gw, gh)
+		defer a.r.SetBounds(a.maxw, a.maxh)
+	}
 	e0 := 0
 	for _, e1 := range a.glyphBuf.Ends {
 		a.drawContour(a.glyphBuf.Points[e0:e1], fx, fy)
 		e0 = e1
 	}
-	a.r.Rasterize(a.p)
+	a.r.Rasterize(painter)
 	return glyphCacheVal{
 		a.glyphBuf.AdvanceWidth,
 		image.Point{xmin, ymin},
-		xmax - xmin,
-		ymax - ymin,
+		gw,
+		gh,
+		mask,
 	}, true
 }
 
-- 
2.43.0


From d2a310eda73c05a62ece76dc918a6b8681bc1ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 39/45] fix: truetype: do not scale a component's metrics twice

A compound glyph that uses the metrics of a component takes over its phantom
points, which are already scaled and hinted. They were scaled again before they
were passed to the compound glyph's hinting program, and the compound glyph's
points were shifted accordingly.
---
 truetype/glyph.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 74627f3..e9ce854 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -276,9 +276,7 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
 			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
 		}
-		if useMyMetrics {
-			copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
-		}
+		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
 		g.Points = g.Points[:len(g.Points)-4]
 		if np0 != 0 {
 			// The hinting program expects the []Ends values to be indexed
@@ -436,7 +434,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	)
 	errShort := FormatError("glyph data too short")
 	np0, ne0 := len(g.Points), len(g.Ends)
-	offset, haveInstructions := loadOffset, false
+	offset, haveInstructions, phantomsScaled := loadOffset, false, false
 	for {
 		if len(glyf)-offset < 6 {
 			return errShort
@@ -498,6 +496,8 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		}
 		if flags&flagUseMyMetrics == 0 {
 			g.phantomPoints = savedPP
+		} else {
+			phantomsScaled = true
 		}
 		if hasTransform {
 			for j := np0; j < len(g.Points); j++ {
@@ -534,7 +534,11 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		offset += 2
 	}
 
-	g.addPhantomsAndScale(np0, len(g.Points), false, instrLen > 0)
+	np1 := len(g.Points)
+	if phantomsScaled {
+		np1 += len(g.phantomPoints)
+	}
+	g.addPhantomsAndScale(np0, np1, false, instrLen > 0)
 	points, ends := g.Points[np0:], g.Ends[ne0:]
 	g.Points = g.Points[:len(g.Points)-4]
 	for j := range points {
@@ -542,9 +546,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 
 	if instrLen == 0 {
-		if !g.metricsSet {
-			copy(g.phantomPoints[:], points[len(points)-4:])
-		}
+		copy(g.phantomPoints[:], points[len(points)-4:])
 		return nil
 	}
 
@@ -573,9 +575,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 			ends[i] += np0
 		}
 	}
-	if !g.metricsSet {
-		copy(g.phantomPoints[:], points[len(points)-4:])
-	}
+	copy(g.phantomPoints[:], points[len(points)-4:])
 	return nil
 }
 
-- 
2.43.0


From ef854fe3cb2bc1bdf8c7e0a530e177b59b20ddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:12 +0000
Subject: [PATCH 40/45] fix: truetype: use the device metrics of the last
 glyphs

---
 truetype/glyph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index e9ce854..3d11df8 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -121,10 +121,10 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	advanceWidth := g.phantomPoints[1].X - g.phantomPoints[0].X
 	if h != font.HintingNone {
 		if len(f.hdmx) >= 8 {
-			if n := u32(f.hdmx, 4); n > 3+uint32(i) {
+			if n := u32(f.hdmx, 4); n > 2+uint32(i) {
 				for hdmx := f.hdmx[8:]; uint32(len(hdmx)) >= n; hdmx = hdmx[n:] {
 					if fixed.Int26_6(hdmx[0]) == scale>>6 {
-						advanceWidth = fixed.Int26_6(hdmx[2+i]) << 6
+						advanceWidth = fixed.Int26_6(hdmx[2+int(i)]) << 6
 						break
 					}
 				}
-- 
2.43.0


From 5e2a33caa482069852dd96aadbbd04da8f742623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 41/45] fix: raster: stroke segments of no length

A repeated point has no normal. It must not take away the caps or
joins around it.
---
 raster/stroke.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/raster/stroke.go b/raster/stroke.go
index b0069bd..73a7bed 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -333,6 +333,10 @@ func (k *stroker) addNonCurvy2(b, c fixed.Point26_6) {
 
 // Add1 adds a linear segment to the stroker.
 func (k *stroker) Add1(b fixed.Point26_6) {
+	// A segment of no length has no normal to cap or join.
+	if b == k.a {
+		return
+	}
 	bnorm := pRot90CCW(pNorm(b.Sub(k.a), k.u))
 	if len(k.r) == 0 {
 		k.p.Start(k.a.Add(bnorm))
@@ -349,6 +353,13 @@ func (k *stroker) Add1(b fixed.Point26_6) {
 func (k *stroker) Add2(b, c fixed.Point26_6) {
 	ab := b.Sub(k.a)
 	bc := c.Sub(b)
+
+	// Approximate nearly-degenerate quadratics by linear segments.
+	if pDot(ab, ab) < epsilon || pDot(bc, bc) < epsilon {
+		k.Add1(c)
+		return
+	}
+
 	abnorm := pRot90CCW(pNorm(ab, k.u))
 	if len(k.r) == 0 {
 		k.p.Start(k.a.Add(abnorm))
@@ -357,17 +368,6 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 		k.jr.Join(k.p, &k.r, k.u, k.a, k.anorm, abnorm)
 	}
 
-	// Approximate nearly-degenerate quadratics by linear segments.
-	abIsSmall := pDot(ab, ab) < epsilon
-	bcIsSmall := pDot(bc, bc) < epsilon
-	if abIsSmall || bcIsSmall {
-		acnorm := pRot90CCW(pNorm(c.Sub(k.a), k.u))
-		k.p.Add1(c.Add(acnorm))
-		k.r.Add1(c.Sub(acnorm))
-		k.a, k.anorm = c, acnorm
-		return
-	}
-
 	// The quadratic segment (k.a, b, c) has a point of maximum curvature.
 	// If this occurs at an end point, we process the segment as a whole.
 	t := curviest2(k.a, b, c)
-- 
2.43.0


From 6ec15297fc8309c8ea58eb0e204f4b9e9efeaac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 42/45] fix: a clip changed which part of a source image a
 glyph was drawn with

---
 freetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index 96a42f6..8fdf7f1 100644
--- a/freetype.go
+++ b/freetype.go
@@ -265,7 +265,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
 			mp := dr.Min.Sub(glyphRect.Min)
-			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
+			draw.DrawMask(c.dst, dr, c.src, mp, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
 	}
-- 
2.43.0


From bff1ca53506da852e8947030214b909b283285c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 43/45] fix: a MonochromePainter wrote behind an empty final
 batch of spans

---
 raster/paint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster/paint.go b/raster/paint.go
index b4bd911..843ad29 100644
--- a/raster/paint.go
+++ b/raster/paint.go
@@ -216,7 +216,7 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 			m.Painter.Paint(ss[:j], true)
 		} else if j == len(ss) {
 			m.Painter.Paint(ss, false)
-			if cap(ss) > 0 {
+			if len(ss) > 0 {
 				ss = ss[:1]
 			} else {
 				ss = make([]Span, 1)
-- 
2.43.0


From 50d8f4f98b16f5871e5b9e2acb7ec1a65479d486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 44/45] fix: round scaled values that are close to the 32-bit
 limit

Adding half of the units per em overflowed, which turned large positive
values into negative ones.
---
 truetype/truetype.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index c62c2c1..38e9513 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -386,12 +386,14 @@ func (f *Font) parseMaxp() error {
 
 // scale returns x divided by f.fUnitsPerEm, rounded to the nearest integer.
 func (f *Font) scale(x fixed.Int26_6) fixed.Int26_6 {
-	if x >= 0 {
-		x += fixed.Int26_6(f.fUnitsPerEm) / 2
+	// The sum may need more than 32 bits.
+	n, d := int64(x), int64(f.fUnitsPerEm)
+	if n >= 0 {
+		n += d / 2
 	} else {
-		x -= fixed.Int26_6(f.fUnitsPerEm) / 2
+		n -= d / 2
 	}
-	return x / fixed.Int26_6(f.fUnitsPerEm)
+	return fixed.Int26_6(n / d)
 }
 
 // Bounds returns the union of a Font's glyphs' bounds.
-- 
2.43.0


From a39b18a6045003e955ab832706b3544c1374eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 45/45] fix: scan convert segments wider than 2^25 units

64 times their width does not fit in 32 bits.
---
 raster/raster.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index b722d53..15ca14a 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -252,15 +252,17 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		// There are at least two scanlines. Apart from the first and last
 		// scanlines, all intermediate scanlines go through the full height of
 		// the row, or 64 units in 26.6 fixed point format.
+		// 64 times dx may need more than 32 bits.
 		var (
-			p, q, edge0, edge1 fixed.Int26_6
-			yiDelta            int
+			p, q         int64
+			edge0, edge1 fixed.Int26_6
+			yiDelta      int
 		)
 		if dy > 0 {
-			p, q = (64-y0f)*dx, dy
+			p, q = int64(64-y0f)*int64(dx), int64(dy)
 			edge0, edge1, yiDelta = 0, 64, 1
 		} else {
-			p, q = y0f*dx, -dy
+			p, q = int64(y0f)*int64(dx), -int64(dy)
 			edge0, edge1, yiDelta = 64, 0, -1
 		}
 		xDelta, xRem := p/q, p%q
@@ -270,12 +272,12 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		}
 		// Do the first scanline.
 		x, yi := x0, y0i
-		r.scan(yi, x, y0f, x+xDelta, edge1)
-		x, yi = x+xDelta, yi+yiDelta
+		r.scan(yi, x, y0f, x+fixed.Int26_6(xDelta), edge1)
+		x, yi = x+fixed.Int26_6(xDelta), yi+yiDelta
 		r.setCell(int(x)>>6, yi)
 		if yi != y1i {
 			// Do all the intermediate scanlines.
-			p = 64 * dx
+			p = 64 * int64(dx)
 			fullDelta, fullRem := p/q, p%q
 			if fullRem < 0 {
 				fullDelta -= 1
@@ -289,8 +291,8 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 					xDelta += 1
 					xRem -= q
 				}
-				r.scan(yi, x, edge0, x+xDelta, edge1)
-				x, yi = x+xDelta, yi+yiDelta
+				r.scan(yi, x, edge0, x+fixed.Int26_6(xDelta), edge1)
+				x, yi = x+fixed.Int26_6(xDelta), yi+yiDelta
 				r.setCell(int(x)>>6, yi)
 			}
 		}
-- 
2.43.0

