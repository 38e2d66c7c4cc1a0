From 2f2c38ae9f47363845d24db27877b976c13f0495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 01/15] fix: keep hinting independent of a glyph buffer's
 history

A glyph buffer's hinter remembered a font whose fpgm or prep program had
failed as if it had succeeded, ran fpgm under the previous font's graphics
state and scale, and let the storage, control values, twilight points and
functions that one glyph's program left behind affect the next glyph.
---
 truetype/hint.go | 141 +++++++++++++++++++++++++++++++----------------
 1 file changed, 94 insertions(+), 47 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 13f785b..2043fd3 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -46,10 +46,12 @@ type hinter struct {
 	functions map[int32][]byte
 
 	// font and scale are the font and scale last used for this hinter.
-	// Changing the font will require running the new font's fpgm bytecode.
-	// Changing either will require running the font's prep bytecode.
+	// Changing either will require running the font's fpgm and prep bytecode,
+	// as will a previous failure to do so. ready is whether the bytecode was
+	// run successfully for that font and scale.
 	font  *Font
 	scale fixed.Int26_6
+	ready bool
 
 	// gs and defaultGS are the current and default graphics state. The
 	// default graphics state is the global default graphics state after
@@ -64,6 +66,16 @@ type hinter struct {
 	// scaledCVT is the lazily initialized scaled Control Value Table.
 	scaledCVTInitialized bool
 	scaledCVT            []fixed.Int26_6
+
+	// prepared is the state that the fpgm and prep bytecode left behind. Every
+	// glyph starts with a copy of it, so that a glyph's bytecode cannot affect
+	// another glyph.
+	prepared struct {
+		store                []int32
+		points               [numPointType][]Point
+		scaledCVTInitialized bool
+		scaledCVT            []fixed.Int26_6
+	}
 }
 
 // graphicsState is described at https://developer.apple.com/fonts/TTRefMan/RM04/Chap4.html
@@ -115,60 +127,91 @@ func resetTwilightPoints(f *Font, p []Point) []Point {
 	return p
 }
 
+// resetInt32s returns a slice of n zeroes, re-using s's memory if possible.
+func resetInt32s(s []int32, n int) []int32 {
+	if n > cap(s) {
+		return make([]int32, n)
+	}
+	s = s[:n]
+	for i := range s {
+		s[i] = 0
+	}
+	return s
+}
+
 func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
-	h.points[twilightZone][0] = resetTwilightPoints(f, h.points[twilightZone][0])
-	h.points[twilightZone][1] = resetTwilightPoints(f, h.points[twilightZone][1])
-	h.points[twilightZone][2] = resetTwilightPoints(f, h.points[twilightZone][2])
-
-	rescale := h.scale != scale
-	if h.font != f {
-		h.font, rescale = f, true
-		if h.functions == nil {
-			h.functions = make(map[int32][]byte)
-		} else {
-			for k := range h.functions {
-				delete(h.functions, k)
-			}
+	if !h.ready || h.font != f || h.scale != scale {
+		if err := h.prepare(f, scale); err != nil {
+			return err
 		}
+	}
 
-		if x := int(f.maxStackElements); x > len(h.stack) {
-			x += 255
-			x &^= 255
-			h.stack = make([]int32, x)
-		}
-		if x := int(f.maxStorage); x > len(h.store) {
-			x += 15
-			x &^= 15
-			h.store = make([]int32, x)
+	// Start from what fpgm and prep left behind.
+	copy(h.store, h.prepared.store)
+	for i := range h.prepared.points {
+		copy(h.points[twilightZone][i], h.prepared.points[i])
+	}
+	h.scaledCVTInitialized = h.prepared.scaledCVTInitialized
+	if h.scaledCVTInitialized {
+		h.scaledCVT = append(h.scaledCVT[:0], h.prepared.scaledCVT...)
+	}
+	return nil
+}
+
+// prepare runs the font's fpgm and prep bytecode, forgetting everything about
+// the font and scale that were last used for this hinter.
+func (h *hinter) prepare(f *Font, scale fixed.Int26_6) error {
+	h.ready = false
+	h.font = f
+	if h.functions == nil {
+		h.functions = make(map[int32][]byte)
+	} else {
+		for k := range h.functions {
+			delete(h.functions, k)
 		}
-		if len(f.fpgm) != 0 {
-			if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
-				return err
-			}
+	}
+	h.stack = resetInt32s(h.stack, (int(f.maxStackElements)+255)&^255)
+	h.store = resetInt32s(h.store, (int(f.maxStorage)+15)&^15)
+	for i := range h.points[twilightZone] {
+		h.points[twilightZone][i] = resetTwilightPoints(f, h.points[twilightZone][i])
+	}
+
+	h.scale = 0
+	h.scaledCVTInitialized = false
+	h.defaultGS = graphicsState{}
+	if len(f.fpgm) != 0 {
+		if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
+			return err
 		}
 	}
 
-	if rescale {
-		h.scale = scale
-		h.scaledCVTInitialized = false
-
-		h.defaultGS = globalDefaultGS
-
-		if len(f.prep) != 0 {
-			if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
-				return err
-			}
-			h.defaultGS = h.gs
-			// The MS rasterizer doesn't allow the following graphics state
-			// variables to be modified by the CVT program.
-			h.defaultGS.pv = globalDefaultGS.pv
-			h.defaultGS.fv = globalDefaultGS.fv
-			h.defaultGS.dv = globalDefaultGS.dv
-			h.defaultGS.rp = globalDefaultGS.rp
-			h.defaultGS.zp = globalDefaultGS.zp
-			h.defaultGS.loop = globalDefaultGS.loop
+	h.scale = scale
+	h.scaledCVTInitialized = false
+	h.defaultGS = globalDefaultGS
+	if len(f.prep) != 0 {
+		if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
+			return err
 		}
+		h.defaultGS = h.gs
+		// The MS rasterizer doesn't allow the following graphics state
+		// variables to be modified by the CVT program.
+		h.defaultGS.pv = globalDefaultGS.pv
+		h.defaultGS.fv = globalDefaultGS.fv
+		h.defaultGS.dv = globalDefaultGS.dv
+		h.defaultGS.rp = globalDefaultGS.rp
+		h.defaultGS.zp = globalDefaultGS.zp
+		h.defaultGS.loop = globalDefaultGS.loop
+	}
+
+	h.prepared.store = append(h.prepared.store[:0], h.store...)
+	for i := range h.prepared.points {
+		h.prepared.points[i] = append(h.prepared.points[i][:0], h.points[twilightZone][i]...)
+	}
+	h.prepared.scaledCVTInitialized = h.scaledCVTInitialized
+	if h.scaledCVTInitialized {
+		h.prepared.scaledCVT = append(h.prepared.scaledCVT[:0], h.scaledCVT...)
 	}
+	h.ready = true
 	return nil
 }
 
@@ -465,6 +508,10 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			continue
 
 		case opFDEF:
+			// As per C Freetype, only fpgm and prep may define functions.
+			if h.points[glyphZone][current] != nil {
+				return errors.New("truetype: hinting: FDEF in glyph program")
+			}
 			// Save all bytecode up until the next ENDF.
 			startPC := pc + 1
 		fdefloop:
-- 
2.43.0


From 427fcca5b3fec9d2461983174b6ad5ee01d0cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 02/15] fix: quantize glyph positions before rasterizing, not
 only when caching

The context's glyph cache is keyed by the quantized sub-pixel position, but
glyphs were rasterized at the exact position, so that a glyph's pixels
depended on where in the same quantum it was first drawn.
---
 freetype.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freetype.go b/freetype.go
index 9603586..75b6887 100644
--- a/freetype.go
+++ b/freetype.go
@@ -198,6 +198,11 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 func (c *Context) glyph(glyph truetype.Index, p fixed.Point26_6) (
 	fixed.Int26_6, *image.Alpha, image.Point, error) {
 
+	// Quantize p to the sub-pixel positions that the cache distinguishes, so
+	// that what is drawn does not depend on what was cached earlier.
+	const qx, qy = 64 / nXFractions, 64 / nYFractions
+	p.X = (p.X + qx/2) &^ (qx - 1)
+	p.Y = (p.Y + qy/2) &^ (qy - 1)
 	// Split p.X and p.Y into their integer and fractional parts.
 	ix, fx := int(p.X>>6), p.X&0x3f
 	iy, fy := int(p.Y>>6), p.Y&0x3f
-- 
2.43.0


From e503ee8b63501ad875f9f3f44c211c5ac8569df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 03/15] fix: clip glyphs horizontally without shifting them

A glyph that straddled the left edge of the clip rectangle was drawn with the
left part of its mask, and a source image was sampled from its origin at the
clipped corner instead of at the glyph's.
---
 freetype.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freetype.go b/freetype.go
index 75b6887..9fc97fc 100644
--- a/freetype.go
+++ b/freetype.go
@@ -254,8 +254,8 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		glyphRect := mask.Bounds().Add(offset)
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
-			mp := image.Point{0, dr.Min.Y - glyphRect.Min.Y}
-			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
+			mp := dr.Min.Sub(glyphRect.Min)
+			draw.DrawMask(c.dst, dr, c.src, mp, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
 	}
-- 
2.43.0


From 8a60a56ab51a96b98d161a5bfdaccc341b9e335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 04/15] fix: use SubPixelsY for the vertical sub-pixel
 positions

---
 truetype/face.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index 099006f..ae9a9cb 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -117,9 +117,9 @@ func (o *Options) subPixelsX() (value uint32, halfQuantum, mask fixed.Int26_6) {
 
 func (o *Options) subPixelsY() (value uint32, halfQuantum, mask fixed.Int26_6) {
 	if o != nil {
-		switch o.SubPixelsX {
+		switch o.SubPixelsY {
 		case 1, 2, 4, 8, 16, 32, 64:
-			return subPixels(o.SubPixelsX)
+			return subPixels(o.SubPixelsY)
 		}
 	}
 	// This default value of 1 isn't based on anything scientific, merely that
-- 
2.43.0


From de9fcb65a826a3ec86b8fccbdf06c2baa67c55a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 05/15] fix: keep a face's glyph within its cache entry's part
 of the masks

A glyph larger than the font's stated bounds was returned with a rectangle
that covered pixels of the next cache entry.
---
 truetype/face.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index ae9a9cb..3e90269 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -381,11 +381,20 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 		e0 = e1
 	}
 	a.r.Rasterize(a.p)
+	// A glyph may be larger than the font's bounds say that its largest glyph
+	// is. The mask only has room for the part that is inside those bounds.
+	gw, gh := xmax-xmin, ymax-ymin
+	if gw > a.maxw {
+		gw = a.maxw
+	}
+	if gh > a.maxh {
+		gh = a.maxh
+	}
 	return glyphCacheVal{
 		a.glyphBuf.AdvanceWidth,
 		image.Point{xmin, ymin},
-		xmax - xmin,
-		ymax - ymin,
+		gw,
+		gh,
 	}, true
 }
 
-- 
2.43.0


From a405ac02d2a8c0fcaa215be9d54b688216d348e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 06/15] fix: do not have MonochromePainter paint an empty span
 at the origin

Each rasterization started with a bogus empty span at (0, 0), which made a
wrapped painter whose image ends above y=0 ignore the whole batch.
---
 raster/paint.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/raster/paint.go b/raster/paint.go
index 652256c..b1c83ae 100644
--- a/raster/paint.go
+++ b/raster/paint.go
@@ -197,8 +197,10 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 			if m.y == s.Y && m.x1 == s.X0 {
 				m.x1 = s.X1
 			} else {
-				ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
-				j++
+				if m.x0 < m.x1 {
+					ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
+					j++
+				}
 				m.y, m.x0, m.x1 = s.Y, s.X0, s.X1
 			}
 		}
@@ -206,7 +208,10 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 	if done {
 		// Flush the accumulated Span.
 		finalSpan := Span{m.y, m.x0, m.x1, 1<<16 - 1}
-		if j < len(ss) {
+		if m.x0 >= m.x1 {
+			// There is no accumulated Span.
+			m.Painter.Paint(ss[:j], true)
+		} else if j < len(ss) {
 			ss[j] = finalSpan
 			j++
 			m.Painter.Paint(ss[:j], true)
-- 
2.43.0


From df63d39be2d63c03f7b0bf6900bb3bd37c8b8bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 07/15] fix: return errors for malformed hinting programs
 instead of panicking

Out of range points, zones, delta shifts and delta counts, and perpendicular
projection and freedom vectors, made the bytecode interpreter panic.
---
 truetype/hint.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 2043fd3..f738394 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -374,10 +374,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSZP0, opSZP1, opSZP2:
 			top--
+			if h.stack[top] < 0 || numZone <= h.stack[top] {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.zp[opcode-opSZP0] = h.stack[top]
 
 		case opSZPS:
 			top--
+			if h.stack[top] < 0 || numZone <= h.stack[top] {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.zp[0] = h.stack[top]
 			h.gs.zp[1] = h.stack[top]
 			h.gs.zp[2] = h.stack[top]
@@ -689,6 +695,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			p := h.point(1, pointType, h.gs.rp[2])
 			oldP := h.point(0, pointType, h.gs.rp[1])
+			if p == nil || oldP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldRange := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 
 			p = h.point(1, current, h.gs.rp[2])
@@ -698,6 +707,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				top--
 				i := h.stack[top]
 				p = h.point(2, pointType, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				oldDist := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 				p = h.point(2, current, i)
 				curDist := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
@@ -767,11 +779,17 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if h.gs.zp[0] == 0 {
 				p := h.point(0, unhinted, i)
 				q := h.point(0, current, i)
+				if p == nil || q == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				p.X = fixed.Int26_6((int64(distance) * int64(h.gs.fv[0])) >> 14)
 				p.Y = fixed.Int26_6((int64(distance) * int64(h.gs.fv[1])) >> 14)
 				*q = *p
 			}
 			p := h.point(0, current, i)
+			if p == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldDist := dotProduct(p.X, p.Y, h.gs.pv)
 			if opcode == opMIAP1 {
 				if fabs(distance-oldDist) > h.gs.controlValueCutIn {
@@ -818,9 +836,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			i := h.stack[top-1]
 			if opcode == opGC0 {
 				p := h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.pv))
 			} else {
 				p := h.point(2, unhinted, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				// Using dv as per C Freetype.
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.dv))
 			}
@@ -941,6 +965,10 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSDS:
 			top--
+			// As per C Freetype, larger shifts are invalid.
+			if h.stack[top] < 0 || 6 < h.stack[top] {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.deltaShift = h.stack[top]
 
 		case opADD:
@@ -1400,7 +1428,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			top--
 			n := h.stack[top]
-			if int32(top) < 2*n {
+			if int64(top) < 2*int64(n) {
 				return errors.New("truetype: hinting: stack underflow")
 			}
 			for ; n > 0; n-- {
@@ -1511,6 +1539,12 @@ func (h *hinter) move(p *Point, distance fixed.Int26_6, touch bool) {
 	}
 
 	fvDotPv := (fvx*pvx + fvy*pvy) >> 14
+	if fvDotPv == 0 {
+		// The vectors are perpendicular: no movement along the freedom vector
+		// achieves the distance. As per C Freetype, act as if they were
+		// parallel.
+		fvDotPv = 0x4000
+	}
 
 	if fvx != 0 {
 		p.X += fixed.Int26_6(mulDiv(fvx, int64(distance), fvDotPv))
-- 
2.43.0


From 15f0060a7d9cdad27f272df4b909e0c3e4f09e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 08/15] fix: return errors for malformed glyph data instead of
 panicking

Truncated or damaged loca and glyf tables, glyph indices beyond the end of the
loca table and unordered contours made loading a glyph panic.
---
 truetype/glyph.go | 75 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 69 insertions(+), 6 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 6157ad8..e270275 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -178,9 +178,15 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
+		if len(g.font.loca) < 2*int(i)+4 {
+			return FormatError("loca data too short")
+		}
 		g0 = 2 * uint32(u16(g.font.loca, 2*int(i)))
 		g1 = 2 * uint32(u16(g.font.loca, 2*int(i)+2))
 	} else {
+		if len(g.font.loca) < 4*int(i)+8 {
+			return FormatError("loca data too short")
+		}
 		g0 = u32(g.font.loca, 4*int(i))
 		g1 = u32(g.font.loca, 4*int(i)+4)
 	}
@@ -189,7 +195,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// 10 bytes of the glyf data. boundsYMin and boundsXMax, at offsets 4
 	// and 6, are unused.
 	glyf, ne, boundsXMin, boundsYMax := []byte(nil), 0, fixed.Int26_6(0), fixed.Int26_6(0)
-	if g0+10 <= g1 {
+	if g0 <= g1 && loadOffset <= g1-g0 {
+		if uint64(g1) > uint64(len(g.font.glyf)) {
+			return FormatError("glyf data too short")
+		}
 		glyf = g.font.glyf[g0:g1]
 		ne = int(int16(u16(glyf, 0)))
 		boundsXMin = fixed.Int26_6(int16(u16(glyf, 2)))
@@ -226,7 +235,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		}
 	} else {
 		np0, ne0 := len(g.Points), len(g.Ends)
-		program := g.loadSimple(glyf, ne)
+		program, err := g.loadSimple(glyf, ne)
+		if err != nil {
+			return err
+		}
 		g.addPhantomsAndScale(np0, np0, true, true)
 		pp1x = g.Points[len(g.Points)-4].X
 		if g.hinting != font.HintingNone {
@@ -270,21 +282,34 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 // 10 bytes are the number of contours and the bounding box.
 const loadOffset = 10
 
-func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
+func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
+	const errTooShort = FormatError("glyf data too short")
 	offset := loadOffset
+	if len(glyf) < offset+2*ne+2 {
+		return nil, errTooShort
+	}
+	prevEnd := 0
 	for i := 0; i < ne; i++ {
-		g.Ends = append(g.Ends, 1+int(u16(glyf, offset)))
+		end := 1 + int(u16(glyf, offset))
+		if end <= prevEnd {
+			return nil, FormatError("unordered contours")
+		}
+		g.Ends = append(g.Ends, end)
+		prevEnd = end
 		offset += 2
 	}
 
 	// Note the TrueType hinting instructions.
 	instrLen := int(u16(glyf, offset))
 	offset += 2
+	if len(glyf) < offset+instrLen {
+		return nil, errTooShort
+	}
 	program = glyf[offset : offset+instrLen]
 	offset += instrLen
 
 	if ne == 0 {
-		return program
+		return program, nil
 	}
 
 	np0 := len(g.Points)
@@ -292,11 +317,17 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 
 	// Decode the flags.
 	for i := np0; i < np1; {
+		if len(glyf) < offset+1 {
+			return nil, errTooShort
+		}
 		c := uint32(glyf[offset])
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
 		if c&flagRepeat != 0 {
+			if len(glyf) < offset+1 {
+				return nil, errTooShort
+			}
 			count := glyf[offset]
 			offset++
 			for ; count > 0; count-- {
@@ -311,6 +342,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagXShortVector != 0 {
+			if len(glyf) < offset+1 {
+				return nil, errTooShort
+			}
 			dx := int16(glyf[offset])
 			offset++
 			if f&flagPositiveXShortVector == 0 {
@@ -319,6 +353,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				x += dx
 			}
 		} else if f&flagThisXIsSame == 0 {
+			if len(glyf) < offset+2 {
+				return nil, errTooShort
+			}
 			x += int16(u16(glyf, offset))
 			offset += 2
 		}
@@ -328,6 +365,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagYShortVector != 0 {
+			if len(glyf) < offset+1 {
+				return nil, errTooShort
+			}
 			dy := int16(glyf[offset])
 			offset++
 			if f&flagPositiveYShortVector == 0 {
@@ -336,13 +376,16 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				y += dy
 			}
 		} else if f&flagThisYIsSame == 0 {
+			if len(glyf) < offset+2 {
+				return nil, errTooShort
+			}
 			y += int16(u16(glyf, offset))
 			offset += 2
 		}
 		g.Points[i].Y = fixed.Int26_6(y)
 	}
 
-	return program
+	return program, nil
 }
 
 func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
@@ -363,13 +406,20 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		flagUseMyMetrics
 		flagOverlapCompound
 	)
+	const errTooShort = FormatError("compound glyph data too short")
 	np0, ne0 := len(g.Points), len(g.Ends)
 	offset := loadOffset
 	for {
+		if len(glyf) < offset+6 {
+			return errTooShort
+		}
 		flags := u16(glyf, offset)
 		component := Index(u16(glyf, offset+2))
 		dx, dy, transform, hasTransform := fixed.Int26_6(0), fixed.Int26_6(0), [4]int16{}, false
 		if flags&flagArg1And2AreWords != 0 {
+			if len(glyf) < offset+8 {
+				return errTooShort
+			}
 			dx = fixed.Int26_6(int16(u16(glyf, offset+4)))
 			dy = fixed.Int26_6(int16(u16(glyf, offset+6)))
 			offset += 8
@@ -385,14 +435,23 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 			hasTransform = true
 			switch {
 			case flags&flagWeHaveAScale != 0:
+				if len(glyf) < offset+2 {
+					return errTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[3] = transform[0]
 				offset += 2
 			case flags&flagWeHaveAnXAndYScale != 0:
+				if len(glyf) < offset+4 {
+					return errTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[3] = int16(u16(glyf, offset+2))
 				offset += 4
 			case flags&flagWeHaveATwoByTwo != 0:
+				if len(glyf) < offset+8 {
+					return errTooShort
+				}
 				transform[0] = int16(u16(glyf, offset+0))
 				transform[1] = int16(u16(glyf, offset+2))
 				transform[2] = int16(u16(glyf, offset+4))
@@ -444,6 +503,10 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		offset += 2
 	}
 
+	if len(glyf) < offset+instrLen {
+		return errTooShort
+	}
+
 	g.addPhantomsAndScale(np0, len(g.Points), false, instrLen > 0)
 	points, ends := g.Points[np0:], g.Ends[ne0:]
 	g.Points = g.Points[:len(g.Points)-4]
-- 
2.43.0


From aec81a55a44b53f0fe0e488e0a99d961c5d65466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 09/15] fix: trim an empty component's phantom points from
 every point list

Unhinted and InFontUnits kept them, so that later components were hinted
against the wrong points, and could be hinted out of range.
---
 truetype/glyph.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index e270275..51ab52c 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -218,7 +218,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		g.addPhantomsAndScale(len(g.Points), len(g.Points), true, true)
 		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
 		g.Points = g.Points[:len(g.Points)-4]
-		// TODO: also trim g.InFontUnits and g.Unhinted?
+		if g.hinting != font.HintingNone {
+			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
+			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
+		}
 		return nil
 	}
 
-- 
2.43.0


From ce2ee4a0bc67a5a1ebb0ee6a08c51e024487bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 10/15] fix: bound the work done for one glyph

Compound glyphs can refer to other compound glyphs often enough to multiply
exponentially, and each of a hinting program's 100000 instructions can visit
all of the program or all of the points.
---
 truetype/glyph.go | 18 ++++++++++++++++++
 truetype/hint.go  | 21 ++++++++++++++++++++-
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 51ab52c..4c3ec9a 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -53,6 +53,9 @@ type GlyphBuf struct {
 	// metricsSet is whether the glyph's metrics have been set yet. For a
 	// compound glyph, a sub-glyph may override the outer glyph's metrics.
 	metricsSet bool
+	// nLoads is the number of simple and compound glyphs that were loaded as
+	// part of the current glyph, including itself.
+	nLoads int
 	// tmp is a scratch buffer.
 	tmp []Point
 }
@@ -79,6 +82,13 @@ const (
 	flagThisYIsSame = flagPositiveYShortVector
 )
 
+// These limits are arbitrary, but defend against malformed compound glyphs,
+// which can multiply exponentially.
+const (
+	maxLoads  = 1 << 14
+	maxPoints = 1 << 16
+)
+
 // Load loads a glyph's contours from a Font, overwriting any previously loaded
 // contours for this GlyphBuf. scale is the number of 26.6 fixed point units in
 // 1 em, i is the glyph index, and h is the hinting policy.
@@ -93,6 +103,8 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	g.pp1x = 0
 	g.phantomPoints = [4]Point{}
 	g.metricsSet = false
+	g.nLoads = 0
+	g.hinter.work = 0
 
 	if h != font.HintingNone {
 		if err := g.hinter.init(f, scale); err != nil {
@@ -175,6 +187,9 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	if recursion >= 32 {
 		return UnsupportedError("excessive compound glyph recursion")
 	}
+	if g.nLoads++; g.nLoads > maxLoads {
+		return UnsupportedError("excessive number of compound glyph components")
+	}
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
@@ -317,6 +332,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 
 	np0 := len(g.Points)
 	np1 := np0 + int(g.Ends[len(g.Ends)-1])
+	if np1 > maxPoints {
+		return nil, UnsupportedError("excessive number of glyph points")
+	}
 
 	// Decode the flags.
 	for i := np0; i < np1; {
diff --git a/truetype/hint.go b/truetype/hint.go
index f738394..05b8aab 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -67,6 +67,11 @@ type hinter struct {
 	scaledCVTInitialized bool
 	scaledCVT            []fixed.Int26_6
 
+	// work is how much work has been done for the glyph being loaded. Besides
+	// the number of instructions, it takes into account how much of the
+	// program, the stack and the points those instructions each visit.
+	work int
+
 	// prepared is the state that the fpgm and prep bytecode left behind. Every
 	// glyph starts with a copy of it, so that a glyph's bytecode cannot affect
 	// another glyph.
@@ -115,6 +120,10 @@ var globalDefaultGS = graphicsState{
 	autoFlip:          true,
 }
 
+// maxWork limits the work done to hint one glyph, including its components, in
+// order to defend against malformed fonts.
+const maxWork = 4000000
+
 func resetTwilightPoints(f *Font, p []Point) []Point {
 	if n := int(f.maxTwilightPoints) + 4; n <= cap(p) {
 		p = p[:n]
@@ -235,7 +244,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 	for 0 <= pc && pc < len(program) {
 		steps++
-		if steps == 100000 {
+		h.work++
+		if steps == 100000 || h.work > maxWork {
 			return errors.New("truetype: hinting: too many steps")
 		}
 		opcode = program[pc]
@@ -469,6 +479,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			h.stack[top-1] = h.stack[top-1-x]
 			if opcode == opMINDEX {
+				h.work += x
 				copy(h.stack[top-1-x:top-1], h.stack[top-x:top])
 				top--
 			}
@@ -532,6 +543,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				case opENDF:
 					top--
 					h.functions[h.stack[top]] = program[startPC : pc+1]
+					h.work += pc - startPC
 					break fdefloop
 				default:
 					var ok bool
@@ -577,6 +589,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if iupY {
 				mask = flagTouchedY
 			}
+			h.work += len(h.points[glyphZone][current])
 			prevEnd := 0
 			for _, end := range h.ends {
 				for i := prevEnd; i < end; i++ {
@@ -642,6 +655,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if contour > 0 {
 				j0 = int32(h.ends[contour-1])
 			}
+			h.work += int(j1 - j0)
 			move := h.gs.zp[zonePointer] != h.gs.zp[2]
 			for j := j0; j < j1; j++ {
 				if move || j != i {
@@ -662,6 +676,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if h.gs.zp[2] == glyphZone {
 				limit -= 4
 			}
+			h.work += int(limit)
 			for j := int32(0); j < limit; j++ {
 				if i != j || h.gs.zp[zonePointer] != h.gs.zp[2] {
 					h.move(h.point(2, current, j), d, false)
@@ -1105,6 +1120,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if i < 0 || len(points) <= int(i) || j < 0 || len(points) <= int(j) {
 				return errors.New("truetype: hinting: point out of range")
 			}
+			h.work += int(j) - int(i)
 			for ; i <= j; i++ {
 				if opcode == opFLIPRGON {
 					points[i].Flags |= flagOnCurve
@@ -1354,6 +1370,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 		// next EIF (for all opcodes). Opcode == 0 means that we have come
 		// from an IF. Opcode == 1 means that we have come from an ELSE.
 		{
+			startPC := pc
 		ifelseloop:
 			for depth := 0; ; {
 				pc++
@@ -1380,6 +1397,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 					}
 				}
 			}
+			h.work += pc - startPC
 			pc++
 			continue
 		}
@@ -1403,6 +1421,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				opcode = program[pc]
 			}
 			pc++
+			h.work += int(opcode)
 			if top+int(opcode) > len(h.stack) {
 				return errors.New("truetype: hinting: stack overflow")
 			}
-- 
2.43.0


From ddf6173b688b326a0b6deeab9dae6642b1f6c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 11/15] fix: return errors for malformed font tables instead of
 panicking

Truncated or inconsistent cmap, head, hhea, kern and name tables made parsing
or querying a font panic, divide by zero or allocate gigabytes.
---
 truetype/truetype.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 7270bbf..6947eb9 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -204,13 +204,16 @@ func (f *Font) parseCmap() error {
 		return err
 	}
 	offset = int(u32(f.cmap, offset+4))
-	if offset <= 0 || offset > len(f.cmap) {
+	if offset <= 0 || offset+2 > len(f.cmap) {
 		return FormatError("bad cmap offset")
 	}
 
 	cmapFormat := u16(f.cmap, offset)
 	switch cmapFormat {
 	case cmapFormat4:
+		if len(f.cmap) < offset+14 {
+			return FormatError("cmap too short")
+		}
 		language := u16(f.cmap, offset+4)
 		if language != languageIndependent {
 			return UnsupportedError(fmt.Sprintf("language: %d", language))
@@ -221,6 +224,9 @@ func (f *Font) parseCmap() error {
 		}
 		segCount := segCountX2 / 2
 		offset += 14
+		if len(f.cmap) < offset+8*segCount+2 {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, segCount)
 		for i := 0; i < segCount; i++ {
 			f.cm[i].end = uint32(u16(f.cmap, offset))
@@ -243,6 +249,9 @@ func (f *Font) parseCmap() error {
 		return nil
 
 	case cmapFormat12:
+		if len(f.cmap) < offset+16 {
+			return FormatError("cmap too short")
+		}
 		if u16(f.cmap, offset+2) != 0 {
 			return FormatError(fmt.Sprintf("cmap format: % x", f.cmap[offset:offset+4]))
 		}
@@ -256,6 +265,9 @@ func (f *Font) parseCmap() error {
 			return FormatError("inconsistent cmap length")
 		}
 		offset += 16
+		if uint64(len(f.cmap)-offset) < 12*uint64(nGroups) {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, nGroups)
 		for i := uint32(0); i < nGroups; i++ {
 			f.cm[i].start = u32(f.cmap, offset+0)
@@ -273,6 +285,9 @@ func (f *Font) parseHead() error {
 		return FormatError(fmt.Sprintf("bad head length: %d", len(f.head)))
 	}
 	f.fUnitsPerEm = int32(u16(f.head, 18))
+	if f.fUnitsPerEm == 0 {
+		return FormatError("bad unitsPerEm: 0")
+	}
 	f.bounds.Min.X = fixed.Int26_6(int16(u16(f.head, 36)))
 	f.bounds.Min.Y = fixed.Int26_6(int16(u16(f.head, 38)))
 	f.bounds.Max.X = fixed.Int26_6(int16(u16(f.head, 40)))
@@ -295,6 +310,9 @@ func (f *Font) parseHhea() error {
 	f.ascent = int32(int16(u16(f.hhea, 4)))
 	f.descent = int32(int16(u16(f.hhea, 6)))
 	f.nHMetric = int(u16(f.hhea, 34))
+	if f.nHMetric == 0 && f.nGlyph != 0 {
+		return FormatError("bad number of horizontal metrics: 0")
+	}
 	if 4*f.nHMetric+2*(f.nGlyph-f.nHMetric) != len(f.hmtx) {
 		return FormatError(fmt.Sprintf("bad hmtx length: %d", len(f.hmtx)))
 	}
@@ -345,7 +363,7 @@ func (f *Font) parseKern() error {
 		return UnsupportedError(fmt.Sprintf("kern coverage: 0x%04x", coverage))
 	}
 	f.nKern, offset = int(u16(f.kern, offset)), offset+2
-	if 6*f.nKern != length-14 {
+	if 6*f.nKern != length-14 || len(f.kern) < 18+6*f.nKern {
 		return FormatError("bad kern table length")
 	}
 	return nil
@@ -402,6 +420,9 @@ func (f *Font) Index(x rune) Index {
 			return Index(c + cm.delta)
 		} else {
 			offset := int(cm.offset) + 2*(h-len(f.cm)+int(c-cm.start))
+			if offset < 0 || offset+2 > len(f.cmapIndexes) {
+				return 0
+			}
 			return Index(u16(f.cmapIndexes, offset))
 		}
 	}
@@ -417,7 +438,10 @@ func (f *Font) Name(id NameID) string {
 	if err != nil {
 		return ""
 	}
-	offset, length := u16(f.name, 4)+u16(f.name, x+10), u16(f.name, x+8)
+	offset, length := int(u16(f.name, 4))+int(u16(f.name, x+10)), int(u16(f.name, x+8))
+	if offset+length > len(f.name) {
+		return ""
+	}
 	// Return the ASCII value of the encoded string.
 	// The string is encoded as UTF-16 on non-Apple platformIDs; Apple is platformID 1.
 	src := f.name[offset : offset+length]
-- 
2.43.0


From 61e62cd88536cb6df6eef555db4b2ff7d5e9cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 12/15] fix: do not panic on fonts with negative bounds or
 oversized glyphs

Negative bounds made a face index its masks out of range, and a malformed
glyph could make a context allocate a mask of any size.
---
 freetype.go      | 25 ++++++++++++++++++++++---
 truetype/face.go |  7 +++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/freetype.go b/freetype.go
index 9fc97fc..bff8932 100644
--- a/freetype.go
+++ b/freetype.go
@@ -71,6 +71,8 @@ type Context struct {
 	fontSize, dpi float64
 	scale         fixed.Int26_6
 	hinting       font.Hinting
+	// maxw and maxh are the rasterizer's bounds.
+	maxw, maxh int
 	// cache is the glyph cache.
 	cache [nGlyphs * nXFractions * nYFractions]cacheEntry
 }
@@ -186,7 +188,16 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 		c.drawContour(c.glyphBuf.Points[e0:e1], fx, fy)
 		e0 = e1
 	}
-	a := image.NewAlpha(image.Rect(0, 0, xmax-xmin, ymax-ymin))
+	// The rasterizer clips anything beyond its bounds, which limits how large a
+	// mask a malformed glyph needs.
+	gw, gh := xmax-xmin, ymax-ymin
+	if gw > c.maxw {
+		gw = c.maxw
+	}
+	if gh > c.maxh {
+		gh = c.maxh
+	}
+	a := image.NewAlpha(image.Rect(0, 0, gw, gh))
 	c.r.Rasterize(raster.NewAlphaSrcPainter(a))
 	return c.glyphBuf.AdvanceWidth, a, image.Point{xmin, ymin}, nil
 }
@@ -267,7 +278,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 func (c *Context) recalc() {
 	c.scale = fixed.Int26_6(c.fontSize * c.dpi * (64.0 / 72.0))
 	if c.f == nil {
-		c.r.SetBounds(0, 0)
+		c.maxw, c.maxh = 0, 0
 	} else {
 		// Set the rasterizer's bounds to be big enough to handle the largest glyph.
 		b := c.f.Bounds(c.scale)
@@ -275,8 +286,16 @@ func (c *Context) recalc() {
 		ymin := -int(b.Max.Y) >> 6
 		xmax := +int(b.Max.X+63) >> 6
 		ymax := -int(b.Min.Y-63) >> 6
-		c.r.SetBounds(xmax-xmin, ymax-ymin)
+		c.maxw, c.maxh = xmax-xmin, ymax-ymin
+		// A malformed font's bounds can be negative.
+		if c.maxw < 0 {
+			c.maxw = 0
+		}
+		if c.maxh < 0 {
+			c.maxh = 0
+		}
 	}
+	c.r.SetBounds(c.maxw, c.maxh)
 	for i := range c.cache {
 		c.cache[i] = cacheEntry{}
 	}
diff --git a/truetype/face.go b/truetype/face.go
index 3e90269..706acfe 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -203,6 +203,13 @@ func NewFace(f *Font, opts *Options) font.Face {
 	ymax := -int(b.Min.Y-63) >> 6
 	a.maxw = xmax - xmin
 	a.maxh = ymax - ymin
+	// A malformed font's bounds can be negative.
+	if a.maxw < 0 {
+		a.maxw = 0
+	}
+	if a.maxh < 0 {
+		a.maxh = 0
+	}
 	a.masks = image.NewAlpha(image.Rect(0, 0, a.maxw, a.maxh*len(a.glyphCache)))
 	a.r.SetBounds(a.maxw, a.maxh)
 	a.p = facePainter{a}
-- 
2.43.0


From d171a9e4c7a88fcfc64fb3412497e81e0850547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 13/15] fix: do not let a curve's stroke depend on the curve
 before it

---
 raster/stroke.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster/stroke.go b/raster/stroke.go
index bcc66b2..95986c7 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -338,6 +338,9 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	} else {
 		k.jr.Join(k.p, &k.r, k.u, k.a, k.anorm, abnorm)
 	}
+	// The segment starts with its own normal, not with that of the previous
+	// segment, which may be one of another curve.
+	k.anorm = abnorm
 
 	// Approximate nearly-degenerate quadratics by linear segments.
 	abIsSmall := pDot(ab, ab) < epsilon
-- 
2.43.0


From 543d9153c0151b63b19a57c320f1de7a0f63f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 14/15] fix: do not have MonochromePainter write past the spans
 it is given

---
 raster/paint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster/paint.go b/raster/paint.go
index b1c83ae..702b919 100644
--- a/raster/paint.go
+++ b/raster/paint.go
@@ -217,7 +217,7 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 			m.Painter.Paint(ss[:j], true)
 		} else if j == len(ss) {
 			m.Painter.Paint(ss, false)
-			if cap(ss) > 0 {
+			if len(ss) > 0 {
 				ss = ss[:1]
 			} else {
 				ss = make([]Span, 1)
-- 
2.43.0


From 06ffbdf3203ce74d648bedb19d63ee26bcea811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 15/15] fix: do not take a face's unused index cache entries
 for rune -1

---
 truetype/face.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/face.go b/truetype/face.go
index 706acfe..781dfec 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -245,7 +245,7 @@ const indexCacheLen = 256
 func (a *face) index(r rune) Index {
 	const mask = indexCacheLen - 1
 	c := &a.indexCache[r&mask]
-	if c.rune == r {
+	if c.rune == r && r >= 0 {
 		return c.index
 	}
 	i := a.f.Index(r)
-- 
2.43.0

