From 218ee179d430245e576517dfe626ef9b225991d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:20 +0000
Subject: [PATCH 01/45] fix: accept every exponent spelling of path numbers

SVG numbers allow an upper case exponent marker, a signed exponent and a
number starting with a dot right after an exponent (1E2, 1e+2, 1e2.5).
---
 parse_path.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index d87d75f..61df040 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -57,7 +57,7 @@ func (c *pathCursor) compilePath(svgPath string) error {
 	c.init()
 	lastIndex := -1
 	for i, v := range svgPath {
-		if unicode.IsLetter(v) && v != 'e' {
+		if unicode.IsLetter(v) && v != 'e' && v != 'E' {
 			if lastIndex != -1 {
 				if err := c.addSeg(svgPath[lastIndex:i]); err != nil {
 					return err
@@ -113,7 +113,10 @@ func (c *pathCursor) readFloat(numStr string) error {
 	last := 0
 	isFirst := true
 	for i, n := range numStr {
-		if n == '.' {
+		if n == 'e' || n == 'E' {
+			// the exponent has no fraction, the next dot starts a new number
+			isFirst = false
+		} else if n == '.' {
 			if isFirst {
 				isFirst = false
 				continue
@@ -141,7 +144,8 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 	c.points = c.points[0:0]
 	lr := ' '
 	for i, r := range dataPoints {
-		if !unicode.IsNumber(r) && r != '.' && !(r == '-' && lr == 'e') && r != 'e' {
+		inExp := (r == '-' || r == '+') && (lr == 'e' || lr == 'E')
+		if !unicode.IsNumber(r) && r != '.' && !inExp && r != 'e' && r != 'E' {
 			if lastIndex != -1 {
 				if err := c.readFloat(dataPoints[lastIndex:i]); err != nil {
 					return err
-- 
2.43.0


From 710bca13ddc91bff977f45f76238e3cae6bf252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:24 +0000
Subject: [PATCH 02/45] fix: draw every arc of an A command with its own
 parameters

All arcs of a multi-arc command were drawn with the radii, flags and end
point of the first one. Also follow the out-of-range rules of the SVG
implementation notes: coincident end points omit the arc, a zero radius
draws a straight line and negative radii are made positive; these cases
produced NaN coordinates.
---
 parse_path.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index 61df040..5b86c15 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -402,7 +402,20 @@ func (c *pathCursor) ellipseAt(cx, cy, rx, ry float64) {
 
 // addArcFromA adds a path of an arc element to the svgCursor path to the pathCursor
 func (c *pathCursor) addArcFromA(points []float64) {
+	endX, endY := points[5], points[6]
+	if endX == c.placeX && endY == c.placeY {
+		return // the arc is omitted when its endpoints are the same
+	}
+	points[0], points[1] = math.Abs(points[0]), math.Abs(points[1])
+	if points[0] == 0 || points[1] == 0 {
+		// an arc without extent is a straight line
+		c.path.Line(toFixedP(endX+c.curX, endY+c.curY))
+		c.placeX, c.placeY = endX, endY
+		return
+	}
 	cx, cy := findEllipseCenter(&points[0], &points[1], points[2]*math.Pi/180, c.placeX,
-		c.placeY, points[5], points[6], points[4] == 0, points[3] == 0)
-	c.placeX, c.placeY = c.path.addArc(c.points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
+		c.placeY, endX, endY, points[4] == 0, points[3] == 0)
+	points[5], points[6] = endX+c.curX, endY+c.curY
+	c.path.addArc(points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
+	c.placeX, c.placeY = endX, endY
 }
-- 
2.43.0


From 981d9144c6894f1c618d714d5e397afed7e04e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:00 +0000
Subject: [PATCH 03/45] fix: start a new subpath when drawing goes on after a
 closepath

The operations after the close had no MoveTo, and closing the continued
subpath again was dropped.
---
 parse_path.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index 5b86c15..2da15a8 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -187,6 +187,18 @@ func (c *pathCursor) reflectControlCube() {
 	}
 }
 
+// restartAfterClose starts a new subpath at the start of the one just closed,
+// as required when a close is not followed by a move.
+func (c *pathCursor) restartAfterClose() {
+	if len(c.path) == 0 {
+		return
+	}
+	if _, closed := c.path[len(c.path)-1].(OpClose); closed {
+		c.path.Start(toFixedP(c.pathStartX+c.curX, c.pathStartY+c.curY))
+		c.inPath = true
+	}
+}
+
 // addSeg decodes an SVG seqment string into equivalent raster path commands saved
 // in the svgCursor's Path
 func (c *pathCursor) addSeg(segString string) error {
@@ -198,6 +210,11 @@ func (c *pathCursor) addSeg(segString string) error {
 	k := segString[0]
 	rel := false
 	switch k {
+	case 'z', 'Z', 'm', 'M':
+	default:
+		c.restartAfterClose()
+	}
+	switch k {
 	case 'z':
 		fallthrough
 	case 'Z':
-- 
2.43.0


From 9c33129e49ff9480907d9e2ae53a33579c5c2988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:22 +0000
Subject: [PATCH 04/45] fix: validate and clamp colour values

An empty colour, an empty rgb() component or a short hexadecimal colour
panicked, other wrong lengths were silently misread, and rgb() values
outside their range wrapped around instead of being clamped.
---
 patterns.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/patterns.go b/patterns.go
index fe7f40f..a269dc5 100644
--- a/patterns.go
+++ b/patterns.go
@@ -90,7 +90,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 		}
 		return toOptColor(NewPlainColor(cvals[0], cvals[1], cvals[2], 0xFF)), nil
 	}
-	if colorStr[0] == '#' {
+	if strings.HasPrefix(colorStr, "#") {
 		r, g, b, err := parseSVGColorNum(colorStr)
 		if err != nil {
 			return optionnalColor{}, err
@@ -101,30 +101,43 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 }
 
 func parseColorValue(v string) (uint8, error) {
-	if v[len(v)-1] == '%' {
+	v = strings.TrimSpace(v)
+	if strings.HasSuffix(v, "%") {
 		n, err := strconv.Atoi(strings.TrimSpace(v[:len(v)-1]))
 		if err != nil {
 			return 0, err
 		}
-		return uint8(n * 0xFF / 100), nil
+		return uint8(clampInt(n, 100) * 0xFF / 100), nil
 	}
-	n, err := strconv.Atoi(strings.TrimSpace(v))
-	if n > 255 {
-		n = 255
+	n, err := strconv.Atoi(v)
+	return uint8(clampInt(n, 0xFF)), err
+}
+
+// clampInt limits n to the range [0,max]
+func clampInt(n, max int) int {
+	if n < 0 {
+		return 0
 	}
-	return uint8(n), err
+	if n > max {
+		return max
+	}
+	return n
 }
 
 // parseSVGColorNum reads the SFG color string e.g. #FBD9BD
 func parseSVGColorNum(colorStr string) (r, g, b uint8, err error) {
 	colorStr = strings.TrimPrefix(colorStr, "#")
 	var t uint64
-	if len(colorStr) != 6 {
+	switch len(colorStr) {
+	case 6:
+	case 3:
 		// SVG specs say duplicate characters in case of 3 digit hex number
 		colorStr = string([]byte{
 			colorStr[0], colorStr[0],
 			colorStr[1], colorStr[1], colorStr[2], colorStr[2],
 		})
+	default:
+		return 0, 0, 0, errParamMismatch
 	}
 	for _, v := range []struct {
 		c *uint8
-- 
2.43.0


From 4b956d11c676b210cfea38a467d8fbcee5d057b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:55 +0000
Subject: [PATCH 05/45] fix: compose transforms as matrix products

Mult computed wrong translation terms and Scale and Translate multiplied
from the other side than Rotate, SkewX and SkewY, so nested transforms,
rotate(a cx cy), most transform lists, rounded rectangles with rx != ry
and targets with an offset or a viewBox origin were placed wrong. Multiply
consistently from the right, in list order, as the SVG specification
defines; accept the comma between transform functions and translate(x) as
translate(x 0).
---
 matrix.go                | 16 ++++++++--------
 parse.go                 | 10 +++++++---
 renderer/draw2d/draw.go  |  2 +-
 renderer/gg/draw.go      |  2 +-
 renderer/options.go      |  2 +-
 renderer/rasterx/draw.go |  2 +-
 6 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/matrix.go b/matrix.go
index 755d110..bc0ccd2 100644
--- a/matrix.go
+++ b/matrix.go
@@ -73,8 +73,8 @@ func (a Matrix2D) Mult(b Matrix2D) Matrix2D {
 		B: a.B*b.A + a.D*b.B,
 		C: a.A*b.C + a.C*b.D,
 		D: a.B*b.C + a.D*b.D,
-		E: a.A*b.E + a.C*b.F + a.E*b.A,
-		F: a.B*b.E + a.D*b.F + a.F*b.D,
+		E: a.A*b.E + a.C*b.F + a.E,
+		F: a.B*b.E + a.D*b.F + a.F,
 	}
 }
 
@@ -108,11 +108,11 @@ func (a Matrix2D) TransformVector(x1, y1 float64) (x2, y2 float64) {
 func (a Matrix2D) Scale(x, y float64) Matrix2D {
 	return Matrix2D{
 		A: a.A * x,
-		B: a.B * y,
-		C: a.C * x,
+		B: a.B * x,
+		C: a.C * y,
 		D: a.D * y,
-		E: a.E * x,
-		F: a.F * y,
+		E: a.E,
+		F: a.F,
 	}
 }
 
@@ -147,8 +147,8 @@ func (a Matrix2D) Translate(x, y float64) Matrix2D {
 		B: a.B,
 		C: a.C,
 		D: a.D,
-		E: a.E + x,
-		F: a.F + y,
+		E: a.A*x + a.C*y + a.E,
+		F: a.B*x + a.D*y + a.F,
 	}
 }
 
diff --git a/parse.go b/parse.go
index a45309f..b8464fd 100644
--- a/parse.go
+++ b/parse.go
@@ -60,7 +60,7 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 		}
 	case "translate":
 		if ln == 1 {
-			m1 = m1.Translate(c.points[0], c.points[0])
+			m1 = m1.Translate(c.points[0], 0)
 		} else if ln == 2 {
 			m1 = m1.Translate(c.points[0], c.points[1])
 		} else {
@@ -109,9 +109,13 @@ func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
 	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
-	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left.
-	for i := len(ts) - 1; i >= 0; i-- {
+	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left:
+	// the matrices are multiplied in the order they are listed.
+	for i := range ts {
 		t := strings.TrimSpace(ts[i])
+		if i > 0 {
+			t = strings.TrimSpace(strings.TrimPrefix(t, ","))
+		}
 		if len(t) == 0 {
 			continue
 		}
diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 4c51a27..f44d74f 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -73,7 +73,7 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		var fr draw2d.FillRule
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index c586d20..0b58a09 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
 			return err
 		}
 	}
diff --git a/renderer/options.go b/renderer/options.go
index cc9b06f..72b0879 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -30,7 +30,7 @@ type targetOption struct {
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
 	scaleW := o.W / s.ViewBox.W
 	scaleH := o.H / s.ViewBox.H
-	r.Target = svg.Identity.Translate(o.X-s.ViewBox.X, o.Y-s.ViewBox.Y).Scale(scaleW, scaleH)
+	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
 // Target specifies the rectangle to draw within.
diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index b49b9cb..97293ca 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -129,7 +129,7 @@ func toRasterxGradient(grad svg.Gradient) rasterx.Gradient {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		filler := &gc.Filler
-- 
2.43.0


From 25dc1e55b6df077f3b5055ad6e54e03492d83780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:55 +0000
Subject: [PATCH 06/45] fix: draw without a target or a view box

Without the Target option everything was collapsed by a zero matrix, and a
view box without size gave infinite coordinates.
---
 renderer/options.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/renderer/options.go b/renderer/options.go
index 72b0879..1e1f711 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -28,8 +28,13 @@ type targetOption struct {
 }
 
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
-	scaleW := o.W / s.ViewBox.W
-	scaleH := o.H / s.ViewBox.H
+	scaleW, scaleH := 1.0, 1.0
+	if s.ViewBox.W != 0 {
+		scaleW = o.W / s.ViewBox.W
+	}
+	if s.ViewBox.H != 0 {
+		scaleH = o.H / s.ViewBox.H
+	}
 	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
@@ -42,6 +47,7 @@ func Target(x, y, w, h float64) RenderOption {
 func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	r := &RenderOptions{
 		Opacity: 1,
+		Target:  svg.Identity,
 	}
 	for _, o := range opts {
 		o.apply(s, r)
-- 
2.43.0


From 122eee4c9f43372cf544d644dd29c94f21f28563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:56 +0000
Subject: [PATCH 07/45] fix: gradientTransform does not depend on where the
 gradient is defined

The gradient matrix started from the transform of the elements around the
gradient definition.
---
 parse.go    | 6 +++---
 patterns.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index b8464fd..6ea26b5 100644
--- a/parse.go
+++ b/parse.go
@@ -105,9 +105,9 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 	return m1, nil
 }
 
-func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
+// parseTransform multiplies m1 by the transform list v
+func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
-	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
 	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left:
 	// the matrices are multiplied in the order they are listed.
@@ -288,7 +288,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 			curStyle.LineOpacity *= op
 		}
 	case "transform":
-		m, err := c.parseTransform(v)
+		m, err := c.parseTransform(c.styleStack[len(c.styleStack)-1].Transform, v)
 		if err != nil {
 			return err
 		}
diff --git a/patterns.go b/patterns.go
index a269dc5..00e2756 100644
--- a/patterns.go
+++ b/patterns.go
@@ -287,7 +287,7 @@ func (c *svgCursor) readGradURL(v string, defaultColor Pattern) (grad Gradient,
 func (c *svgCursor) readGradAttr(attr xml.Attr) (err error) {
 	switch attr.Name.Local {
 	case "gradientTransform":
-		c.grad.Matrix, err = c.parseTransform(attr.Value)
+		c.grad.Matrix, err = c.parseTransform(Identity, attr.Value)
 	case "gradientUnits":
 		switch strings.TrimSpace(attr.Value) {
 		case "userSpaceOnUse":
-- 
2.43.0


From 76ea16e158c7ab33c15e966bc3a64dadfb6c9b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:57 +0000
Subject: [PATCH 08/45] fix: draw polylines and polygons from their own points
 only

Without a points attribute they were drawn with numbers left over from an
earlier element, and a polyline of two points was not drawn at all.
---
 svg_elements.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index 93ba5f9..b01e127 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -206,6 +206,7 @@ func lineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polylineF(c *svgCursor, attrs []xml.Attr) error {
 	var err error
+	c.points = c.points[:0]
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "points":
@@ -218,7 +219,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Start(fixed.Point26_6{
 			X: fixed.Int26_6((c.points[0] + c.curX) * 64),
 			Y: fixed.Int26_6((c.points[1] + c.curY) * 64),
@@ -235,7 +236,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polygonF(c *svgCursor, attrs []xml.Attr) error {
 	err := polylineF(c, attrs)
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Stop(true)
 	}
 	return err
-- 
2.43.0


From 584624bd5b50f27f8e117026c808e3760e47862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:58 +0000
Subject: [PATCH 09/45] fix: write the cubic command letter once

ToSVGPath produced "CC", which is not valid path data.
---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 1c72359..1c3d8c8 100644
--- a/path.go
+++ b/path.go
@@ -47,7 +47,7 @@ func (op OpQuadTo) String() string {
 }
 
 func (op OpCubicTo) String() string {
-	return "C" + fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
+	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
 		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)
 }
 
-- 
2.43.0


From 091427b32eba9a179a0d50784937038d223e3183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:47 +0000
Subject: [PATCH 10/45] fix: the style attribute overrides presentation
 attributes

Which of them won depended on the order of the attributes.
---
 parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 6ea26b5..b9817e6 100644
--- a/parse.go
+++ b/parse.go
@@ -307,15 +307,17 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 // for fill. Note that this parses both the contents of a style attribute plus
 // direct fill and opacity attributes.
 func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
-	var pairs []string
+	var pairs, stylePairs []string
 	for _, attr := range attrs {
 		switch strings.ToLower(attr.Name.Local) {
 		case "style":
-			pairs = append(pairs, strings.Split(attr.Value, ";")...)
+			stylePairs = append(stylePairs, strings.Split(attr.Value, ";")...)
 		default:
 			pairs = append(pairs, attr.Name.Local+":"+attr.Value)
 		}
 	}
+	// The style attribute takes precedence over the presentation attributes
+	pairs = append(pairs, stylePairs...)
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
 	for _, pair := range pairs {
-- 
2.43.0


From b300284df09f33f00d5e7b4735f0f9ce11897030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:48 +0000
Subject: [PATCH 11/45] fix: stroke-dasharray none and dashes without length
 draw a solid line

"none" did not reset an inherited dash array, an array of zeros makes the
gg and draw2d renderers loop forever and negative lengths are invalid.
---
 parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse.go b/parse.go
index b9817e6..b6ca784 100644
--- a/parse.go
+++ b/parse.go
@@ -266,16 +266,25 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if v != "none" {
 			dashes := splitOnCommaOrSpace(v)
 			dList := make([]float64, len(dashes))
+			sum := 0.0
 			for i, dstr := range dashes {
 				d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)
 				if err != nil {
 					return err
 				}
+				if d < 0 {
+					return errParamMismatch
+				}
 				dList[i] = d
+				sum += d
 			}
 			curStyle.Dash.Dash = dList
+			if sum <= 0 {
+				curStyle.Dash.Dash = nil // same as none
+			}
 			break
 		}
+		curStyle.Dash.Dash = nil
 	case "opacity", "stroke-opacity", "fill-opacity":
 		op, err := parseBasicFloat(v)
 		if err != nil {
-- 
2.43.0


From edb4d228fc3ae245b9d3af6d6d198362028c6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:49 +0000
Subject: [PATCH 12/45] fix: separate dash lengths by any white space

---
 parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index b6ca784..a6a3011 100644
--- a/parse.go
+++ b/parse.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"math"
 	"strings"
+	"unicode"
 
 	"golang.org/x/image/math/fixed"
 )
@@ -349,7 +350,7 @@ func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 func splitOnCommaOrSpace(s string) []string {
 	return strings.FieldsFunc(s,
 		func(r rune) bool {
-			return r == ',' || r == ' '
+			return r == ',' || unicode.IsSpace(r)
 		})
 }
 
-- 
2.43.0


From 661ddbd474226ea72901f21c5c02c3d4c12a7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:50 +0000
Subject: [PATCH 13/45] fix: read opacity percentages and keep opacity between
 0 and 1

---
 parse.go        | 2 +-
 svg_elements.go | 2 +-
 units.go        | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index a6a3011..d4a4819 100644
--- a/parse.go
+++ b/parse.go
@@ -287,7 +287,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Dash.Dash = nil
 	case "opacity", "stroke-opacity", "fill-opacity":
-		op, err := parseBasicFloat(v)
+		op, err := readOpacity(v)
 		if err != nil {
 			return err
 		}
diff --git a/svg_elements.go b/svg_elements.go
index b01e127..0eb99d5 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -429,7 +429,7 @@ func stopF(c *svgCursor, attrs []xml.Attr) error {
 				optColor, err = parseSVGColor(attr.Value)
 				stop.StopColor = optColor.asColor()
 			case "stop-opacity":
-				stop.Opacity, err = parseBasicFloat(attr.Value)
+				stop.Opacity, err = readOpacity(attr.Value)
 			}
 			if err != nil {
 				return err
diff --git a/units.go b/units.go
index a3d1cbd..e26f68a 100644
--- a/units.go
+++ b/units.go
@@ -105,3 +105,9 @@ func readFraction(v string) (f float64, err error) {
 	// }
 	return
 }
+
+// readOpacity reads a number or percentage, limited to the range [0,1]
+func readOpacity(v string) (float64, error) {
+	f, err := readFraction(v)
+	return math.Max(0, math.Min(1, f)), err
+}
-- 
2.43.0


From dd7fac6f2a17f28ddfc97b1862fb325776b8482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:51 +0000
Subject: [PATCH 14/45] fix: do not share the mask list between sibling
 elements

Appending to the inherited slice could overwrite the mask of an element
that was already parsed.
---
 parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index d4a4819..e947868 100644
--- a/parse.go
+++ b/parse.go
@@ -308,7 +308,8 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
-		curStyle.Masks = append(curStyle.Masks, id)
+		// copy, as the parent style and its other children share the slice
+		curStyle.Masks = append(append([]string{}, curStyle.Masks...), id)
 	}
 	return nil
 }
-- 
2.43.0


From 10bf5d8cc33b9ab126545a15a5382e0601b02678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:52 +0000
Subject: [PATCH 15/45] fix: line width scale of rotated, skewed and mirrored
 matrices

Only the diagonal members were used: lines vanished under a rotation by a
right angle and got a negative width under a reflection.
---
 matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index bc0ccd2..6047bb3 100644
--- a/matrix.go
+++ b/matrix.go
@@ -219,5 +219,5 @@ func (t Matrix2D) CubicTo(m OpCubicTo) (fixed.Point26_6, fixed.Point26_6, fixed.
 // It may be used when scaling line widths with a rasterizer that does not support
 // scaling a line's horizontal and vertical aspects independently.
 func (t Matrix2D) LineWidthScale() float64 {
-	return (t.A + t.D) / 2
+	return (math.Hypot(t.A, t.B) + math.Hypot(t.C, t.D)) / 2
 }
-- 
2.43.0


From 1078935799c8c6a02ad405b744d376e368c141cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 16/45] fix: a nested svg element does not replace the view box

ViewBox, Width and Height describe the top level element.
---
 parse.go        | 1 +
 svg_elements.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/parse.go b/parse.go
index e947868..4043fb8 100644
--- a/parse.go
+++ b/parse.go
@@ -22,6 +22,7 @@ type (
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		currentDef                                      []definition
 		mask                                            *SvgMask
+		seenSvg                                         bool
 	}
 
 	// definition is used to store what's given in a def tag
diff --git a/svg_elements.go b/svg_elements.go
index 0eb99d5..db45a7f 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -36,6 +36,10 @@ var drawFuncs = map[string]svgFunc{
 }
 
 func svgF(c *svgCursor, attrs []xml.Attr) error {
+	if c.seenSvg {
+		return nil // a nested svg does not change the view box and size of the image
+	}
+	c.seenSvg = true
 	c.svg.ViewBox.X = 0
 	c.svg.ViewBox.Y = 0
 	c.svg.ViewBox.W = 0
-- 
2.43.0


From 9eaa1e4db0767726b36ad806361aaf4c331a8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:54 +0000
Subject: [PATCH 17/45] fix: the focal radius of radial gradients defaults to
 zero

---
 svg_elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svg_elements.go b/svg_elements.go
index db45a7f..703ddb1 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -340,7 +340,7 @@ func radialGradientF(c *svgCursor, attrs []xml.Attr) error {
 	c.grad = &Gradient{Bounds: c.svg.ViewBox, Matrix: Identity}
 	var setFx, setFy bool
 	var err error
-	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "50%"} // default values
+	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "0%"} // default values
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "id":
-- 
2.43.0


From 7ea63174826040c0c796a62f0bef5d724769527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:55 +0000
Subject: [PATCH 18/45] fix: stroke-width percentages refer to the diagonal of
 the view box

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 4043fb8..91fec32 100644
--- a/parse.go
+++ b/parse.go
@@ -253,7 +253,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Join.MiterLimit = fToFixed(mLimit)
 	case "stroke-width":
-		width, err := c.parseUnit(v, widthPercentage)
+		width, err := c.parseUnit(v, diagPercentage)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 76bffdb0883fecd663dbe0d8b236ab84ae205684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:55 +0000
Subject: [PATCH 19/45] fix: reject lengths that are not finite numbers

---
 units.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/units.go b/units.go
index e26f68a..c55edd0 100644
--- a/units.go
+++ b/units.go
@@ -43,6 +43,9 @@ func findUnit(s string) (u unite, value string) {
 func parseUnit(s string) (float64, bool, error) {
 	unite, value := findUnit(s)
 	out, err := strconv.ParseFloat(value, 64)
+	if err == nil && (math.IsNaN(out) || math.IsInf(out, 0)) {
+		err = errParamMismatch // "nan" and "inf" are not SVG numbers
+	}
 	return out * toPx[unite], unite == Perc, err
 }
 
-- 
2.43.0


From 9d2b827bfd753958308ff24fc2ef52707d0855ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:30 +0000
Subject: [PATCH 20/45] fix: use draws the whole referenced element at its
 place

Definitions keep the structure of the elements in defs: every element with
an ID can be used, with all its content and its own style, and x and y
translate it before its own transform. A use which refers to itself is an
error instead of an endless recursion.
---
 parse.go        | 36 ++++++++++++++++++++++++++++++------
 svg.go          | 13 +++----------
 svg_elements.go | 36 +++++++++++++++++++++++++-----------
 3 files changed, 58 insertions(+), 27 deletions(-)

diff --git a/parse.go b/parse.go
index 91fec32..ca8c4ce 100644
--- a/parse.go
+++ b/parse.go
@@ -21,14 +21,18 @@ type (
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		currentDef                                      []definition
+		defStarts                                       []int           // for each open element, its index in currentDef, or -1
+		usedDefs                                        map[string]bool // the definitions being drawn by use elements
 		mask                                            *SvgMask
 		seenSvg                                         bool
 	}
 
-	// definition is used to store what's given in a def tag
+	// definition is used to store what's given in a def tag:
+	// the start of an element, or its end
 	definition struct {
 		ID, Tag string
 		Attrs   []xml.Attr
+		End     bool
 	}
 )
 
@@ -368,10 +372,7 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 				ID = attr.Value
 			}
 		}
-		if ID != "" && len(c.currentDef) > 0 {
-			c.svg.defs[c.currentDef[0].ID] = c.currentDef
-			c.currentDef = make([]definition, 0)
-		}
+		c.defStarts = append(c.defStarts, len(c.currentDef))
 		c.currentDef = append(c.currentDef, definition{
 			ID:    ID,
 			Tag:   se.Name.Local,
@@ -379,6 +380,7 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		})
 		return nil
 	}
+	c.defStarts = append(c.defStarts, -1)
 	df, ok := drawFuncs[se.Name.Local]
 	if !ok {
 		errStr := "Cannot process svg element " + se.Name.Local
@@ -390,7 +392,30 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		return nil
 	}
 	err = df(c, se.Attr)
+	c.addPath()
+	return
+}
+
+// endDef records the end of an element given in a def tag, and saves the
+// element, with all its content, if it has an ID.
+// It returns false if the element is not part of a definition.
+func (c *svgCursor) endDef() bool {
+	start := c.defStarts[len(c.defStarts)-1]
+	c.defStarts = c.defStarts[:len(c.defStarts)-1]
+	if start < 0 {
+		return false
+	}
+	def := c.currentDef[start]
+	c.currentDef = append(c.currentDef, definition{Tag: def.Tag, End: true})
+	if def.ID != "" {
+		c.svg.defs[def.ID] = c.currentDef[start:]
+	}
+	return true
+}
 
+// addPath moves the current path, if there is one, to the svg or
+// the current mask, with the style on top of the stack
+func (c *svgCursor) addPath() {
 	if len(c.path) > 0 {
 		// The svgCursor parsed a path from the xml element
 		pathCopy := append(Path{}, c.path...)
@@ -403,5 +428,4 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		}
 		c.path = c.path[:0]
 	}
-	return
 }
diff --git a/svg.go b/svg.go
index 81bd73d..5abb1ec 100644
--- a/svg.go
+++ b/svg.go
@@ -97,13 +97,10 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 		case xml.EndElement:
 			// pop style
 			svgCursor.styleStack = svgCursor.styleStack[:len(svgCursor.styleStack)-1]
+			if svgCursor.endDef() {
+				break
+			}
 			switch se.Name.Local {
-			case "g":
-				if svgCursor.inDefs {
-					svgCursor.currentDef = append(svgCursor.currentDef, definition{
-						Tag: "endg",
-					})
-				}
 			case "mask":
 				if svgCursor.mask != nil {
 					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask
@@ -115,10 +112,6 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			case "desc":
 				svgCursor.inDescText = false
 			case "defs":
-				if len(svgCursor.currentDef) > 0 {
-					svgCursor.svg.defs[svgCursor.currentDef[0].ID] = svgCursor.currentDef
-					svgCursor.currentDef = make([]definition, 0)
-				}
 				svgCursor.inDefs = false
 			case "radialGradient", "linearGradient":
 				svgCursor.inGrad = false
diff --git a/svg_elements.go b/svg_elements.go
index 703ddb1..168073a 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -463,10 +463,6 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	c.curX, c.curY = x, y
-	defer func() {
-		c.curX, c.curY = 0, 0
-	}()
 	if href == "" {
 		return errors.New("only use tags with href is supported")
 	}
@@ -477,27 +473,45 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 	if !ok {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
+	if c.usedDefs[href] {
+		return errors.New("use statement refers to itself")
+	}
+	if c.usedDefs == nil {
+		c.usedDefs = make(map[string]bool)
+	}
+	c.usedDefs[href] = true
+	defer delete(c.usedDefs, href)
+	// x and y are an additional translation of the used element
+	top := &c.styleStack[len(c.styleStack)-1]
+	top.Transform = top.Transform.Translate(x, y)
+	hidden := 0 // open elements which are not drawn
 	for _, def := range defs {
-		if def.Tag == "endg" {
+		if def.End {
 			// pop style
 			c.styleStack = c.styleStack[:len(c.styleStack)-1]
+			if hidden > 0 {
+				hidden--
+			}
 			continue
 		}
 		if err = c.pushStyle(def.Attrs); err != nil {
 			return err
 		}
+		if hidden > 0 || def.Tag == "defs" || def.Tag == "title" || def.Tag == "desc" {
+			hidden++
+			continue
+		}
 		df, ok := drawFuncs[def.Tag]
 		if !ok {
-			errStr := "Cannot process svg element " + def.Tag
-			return c.handleError(errStr)
+			if err := c.handleError("Cannot process svg element %s", def.Tag); err != nil {
+				return err
+			}
+			continue
 		}
 		if err := df(c, def.Attrs); err != nil {
 			return err
 		}
-		if def.Tag != "g" {
-			// pop style
-			c.styleStack = c.styleStack[:len(c.styleStack)-1]
-		}
+		c.addPath()
 	}
 	return nil
 }
-- 
2.43.0


From 66b5e1e7da8600af15f73e69209ab89ad35b2b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:16 +0000
Subject: [PATCH 21/45] fix: read masks in defs, and place their content in the
 masked element's coordinates

---
 parse.go        | 3 ++-
 svg.go          | 3 +++
 svg_elements.go | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index ca8c4ce..2a4c816 100644
--- a/parse.go
+++ b/parse.go
@@ -24,6 +24,7 @@ type (
 		defStarts                                       []int           // for each open element, its index in currentDef, or -1
 		usedDefs                                        map[string]bool // the definitions being drawn by use elements
 		mask                                            *SvgMask
+		maskInDefs                                      bool // the current mask is in a def tag
 		seenSvg                                         bool
 	}
 
@@ -362,7 +363,7 @@ func splitOnCommaOrSpace(s string) []string {
 
 func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	var skipDef bool
-	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad {
+	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || se.Name.Local == "mask" || c.inGrad {
 		skipDef = true
 	}
 	if c.inDefs && !skipDef {
diff --git a/svg.go b/svg.go
index 5abb1ec..09e0220 100644
--- a/svg.go
+++ b/svg.go
@@ -106,6 +106,9 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask
 					svgCursor.mask = nil
 				}
+				if svgCursor.inMask {
+					svgCursor.inDefs = svgCursor.maskInDefs
+				}
 				svgCursor.inMask = false
 			case "title":
 				svgCursor.inTitleText = false
diff --git a/svg_elements.go b/svg_elements.go
index 168073a..3428be6 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -138,7 +138,13 @@ func maskF(c *svgCursor, attrs []xml.Attr) error {
 		}
 	}
 
+	// The content of the mask is drawn, even in a def tag, and in the coordinates
+	// of the masked element
 	c.inMask = true
+	c.maskInDefs, c.inDefs = c.inDefs, false
+	top := &c.styleStack[len(c.styleStack)-1]
+	top.Transform = Identity
+	top.Masks = nil
 	c.mask = &SvgMask{
 		ID:        id,
 		X:         x,
-- 
2.43.0


From 4387b78c18ff97504d9ed6eb20c925d2b08d393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:16 +0000
Subject: [PATCH 22/45] fix: gg masks apply the transforms and the luminance of
 their content

Masks which refer to themselves no longer recurse forever, and the mask of the
last element no longer clips what is drawn after Draw.
---
 renderer/gg/draw.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 0b58a09..70878e6 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity, nil); err != nil {
 			return err
 		}
 	}
@@ -89,10 +89,11 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 }
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
-func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+// inMasks are the masks being drawn.
+func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, inMasks []string) error {
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
-		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
+		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, inMasks)
 		if err != nil {
 			return err
 		}
@@ -103,6 +104,7 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		if err := gc.SetMask(mask); err != nil {
 			return err
 		}
+		defer gc.ResetClip()
 	} else {
 		gc.ResetClip()
 	}
@@ -153,13 +155,21 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	return nil
 }
 
-func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D) (*image.Alpha, error) {
-	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
-	mask, ok := s.SvgMasks[masks[len(masks)-1]]
+func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, inMasks []string) (*image.Alpha, error) {
+	id := masks[len(masks)-1]
+	mask, ok := s.SvgMasks[id]
 	if !ok {
 		// Mask was not found skip it.
 		return nil, nil
 	}
+	for _, in := range inMasks {
+		if in == id {
+			// The mask refers to itself, skip it.
+			return nil, nil
+		}
+	}
+	inMasks = append(inMasks[:len(inMasks):len(inMasks)], id)
+	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
 
 	// TODO: How mask position/size should be applied?
 	// w := mask.W
@@ -178,10 +188,24 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m, 1); err != nil {
+		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1, inMasks); err != nil {
 			return nil, err
 		}
 	}
 
-	return gc.AsMask(), nil
+	return luminance(gc.Image()), nil
+}
+
+// luminance returns the mask given by the luminance and the opacity of the image.
+func luminance(im image.Image) *image.Alpha {
+	b := im.Bounds()
+	mask := image.NewAlpha(b)
+	for y := b.Min.Y; y < b.Max.Y; y++ {
+		for x := b.Min.X; x < b.Max.X; x++ {
+			r, g, b, _ := im.At(x, y).RGBA() // alpha-premultiplied
+			l := 0.2126*float64(r) + 0.7152*float64(g) + 0.0722*float64(b)
+			mask.SetAlpha(x, y, color.Alpha{A: uint8(l/0x101 + 0.5)})
+		}
+	}
+	return mask
 }
-- 
2.43.0


From 7624ca2896dc19ca60f9c6a5ea66f50da59e5b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:06 +0000
Subject: [PATCH 23/45] fix: mask none does not hide the masks of the parents

---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index 2a4c816..8e59954 100644
--- a/parse.go
+++ b/parse.go
@@ -314,6 +314,9 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
+		if id == "" {
+			break // no mask, besides those of the parents
+		}
 		// copy, as the parent style and its other children share the slice
 		curStyle.Masks = append(append([]string{}, curStyle.Masks...), id)
 	}
-- 
2.43.0


From 50ad3ab63e72c2f3bfc376619759593880a68029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:06 +0000
Subject: [PATCH 24/45] fix: gg draws each path with its own fill and stroke

The stroke colour replaced the fill colour, open subpaths were closed when
stroked, and a path without fill and stroke was drawn with the next one.
---
 renderer/gg/draw.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 70878e6..73d4a00 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -25,8 +25,6 @@ func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 func drawTo(gc *gg.Context, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.ClosePath()
-		gc.NewSubPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
 	case svg.OpLineTo:
@@ -127,15 +125,16 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		gc.SetLineJoin(toLineJoin(svgp.Style.Join.LineJoin))
 		switch c := svgp.Style.LinerColor.(type) {
 		case svg.PlainColor:
-			gc.SetColor(toColor(c, svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(c, svgp.Style.LineOpacity*opacity)))
 		case svg.Gradient:
-			gc.SetColor(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
 		gc.SetDash(svgp.Style.Dash.Dash...)
 		gc.SetDashOffset(svgp.Style.Dash.DashOffset)
 	}
 
+	gc.ClearPath()
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From 294530139c0fd1cee65551b3e87152da10f14f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:06 +0000
Subject: [PATCH 25/45] fix: draw2d draws every subpath, and does not close
 open subpaths to stroke them

---
 renderer/draw2d/draw.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index f44d74f..ababed8 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -20,8 +20,6 @@ func Draw(gc draw2d.GraphicContext, s *svg.Svg, opts ...renderer.RenderOption) {
 func drawTo(gc draw2d.GraphicContext, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.Close()
-		gc.BeginPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
 	case svg.OpLineTo:
@@ -38,6 +36,21 @@ func drawTo(gc draw2d.GraphicContext, op svg.Operation, m svg.Matrix2D) {
 	}
 }
 
+// drawPath adds all the subpaths to the graphic context. Open subpaths are closed
+// to fill them, but not to stroke them.
+func drawPath(gc draw2d.GraphicContext, path svg.Path, m svg.Matrix2D, fill bool) {
+	gc.BeginPath()
+	for i, op := range path {
+		if _, ok := op.(svg.OpMoveTo); ok && fill && i > 0 {
+			gc.Close()
+		}
+		drawTo(gc, op, m)
+	}
+	if fill && len(path) > 0 {
+		gc.Close()
+	}
+}
+
 func toLineCap(cap svg.CapMode) draw2d.LineCap {
 	switch cap {
 	case svg.ButtCap, svg.CubicCap, svg.QuadraticCap:
@@ -87,6 +100,8 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		case svg.Gradient:
 			gc.SetFillColor(toGradient(c, svgp.Style.FillOpacity*opt.Opacity))
 		}
+		drawPath(gc, svgp.Path, m, true)
+		gc.Fill()
 	}
 	if svgp.Style.LinerColor != nil {
 		gc.SetLineCap(toLineCap(svgp.Style.Join.TrailLineCap))
@@ -99,19 +114,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
 		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
-	}
-
-	for _, op := range svgp.Path {
-		drawTo(gc, op, m)
-	}
-
-	if svgp.Style.FillerColor != nil {
-		if svgp.Style.LinerColor != nil {
-			gc.FillStroke()
-		} else {
-			gc.Fill()
-		}
-	} else if svgp.Style.LinerColor != nil {
+		drawPath(gc, svgp.Path, m, false)
 		gc.Stroke()
 	}
 }
-- 
2.43.0


From 7cffb12cabf5883488d1584db958f1fbcdd1a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:07 +0000
Subject: [PATCH 26/45] fix: rasterx draws dashes, and strokes do not depend on
 the fill rule

---
 renderer/rasterx/draw.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 97293ca..e560611 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -16,7 +16,7 @@ func Draw(gc *rasterx.Dasher, s *svg.Svg, opts ...renderer.RenderOption) {
 	}
 }
 
-func drawToStroker(gc *rasterx.Stroker, op svg.Operation, m svg.Matrix2D) {
+func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
 		gc.Stop(false)
@@ -152,29 +152,30 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		filler.Draw()
 	}
 	if svgp.Style.LinerColor != nil {
-		stroker := &gc.Stroker
-		stroker.Clear()
-		stroker.SetStroke(
+		gc.Clear()
+		gc.SetWinding(true)
+		gc.SetStroke(
 			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
 			svgp.Style.Join.MiterLimit,
 			toLineCap(svgp.Style.Join.LeadLineCap, toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap)),
 			toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap),
 			toLineGap(svgp.Style.Join.LineGap),
-			toLineJoin(svgp.Style.Join.LineJoin))
+			toLineJoin(svgp.Style.Join.LineJoin),
+			svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
 
 		for _, op := range svgp.Path {
-			drawToStroker(stroker, op, m)
+			drawToStroker(gc, op, m)
 		}
-		stroker.Stop(false)
+		gc.Stop(false)
 
 		switch color := svgp.Style.LinerColor.(type) {
 		case svg.PlainColor:
-			stroker.SetColor(rasterx.ApplyOpacity(color, svgp.Style.LineOpacity*opt.Opacity))
+			gc.SetColor(rasterx.ApplyOpacity(color, svgp.Style.LineOpacity*opt.Opacity))
 		case svg.Gradient:
-			_ = color.ApplyPathExtent(stroker.GetPathExtent())
+			_ = color.ApplyPathExtent(gc.GetPathExtent())
 			g := toRasterxGradient(color)
-			stroker.SetColor(g.GetColorFunction(svgp.Style.LineOpacity * opt.Opacity))
+			gc.SetColor(g.GetColorFunction(svgp.Style.LineOpacity * opt.Opacity))
 		}
-		stroker.Draw()
+		gc.Draw()
 	}
 }
-- 
2.43.0


From 9c1d398488841100b15a315a9a3a5c9fea318835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:07 +0000
Subject: [PATCH 27/45] fix: rasterx gradients in user space follow the
 transforms

---
 renderer/rasterx/draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index e560611..5b4cffb 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -147,7 +147,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(filler.GetPathExtent())
 			g := toRasterxGradient(color)
-			filler.SetColor(g.GetColorFunction(svgp.Style.FillOpacity * opt.Opacity))
+			filler.SetColor(g.GetColorFunctionUS(svgp.Style.FillOpacity*opt.Opacity, rasterx.Matrix2D(m)))
 		}
 		filler.Draw()
 	}
@@ -174,7 +174,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(gc.GetPathExtent())
 			g := toRasterxGradient(color)
-			gc.SetColor(g.GetColorFunction(svgp.Style.LineOpacity * opt.Opacity))
+			gc.SetColor(g.GetColorFunctionUS(svgp.Style.LineOpacity*opt.Opacity, rasterx.Matrix2D(m)))
 		}
 		gc.Draw()
 	}
-- 
2.43.0


From c0e995410fa62c3d8a1f55f5399e4e9210153cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:08 +0000
Subject: [PATCH 28/45] fix: scale dashes with the image, repeat odd dash lists
 and wrap the offset

---
 renderer/draw2d/draw.go  |  2 +-
 renderer/gg/draw.go      |  5 +++--
 renderer/options.go      | 27 +++++++++++++++++++++++++++
 renderer/rasterx/draw.go |  3 ++-
 4 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index ababed8..f1cab95 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -113,7 +113,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 			gc.SetStrokeColor(toGradient(c, svgp.Style.LineOpacity*opt.Opacity))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
+		gc.SetLineDash(renderer.Dashes(svgp.Style, m.LineWidthScale()))
 		drawPath(gc, svgp.Path, m, false)
 		gc.Stroke()
 	}
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 73d4a00..22c5f79 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -130,8 +130,9 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetDash(svgp.Style.Dash.Dash...)
-		gc.SetDashOffset(svgp.Style.Dash.DashOffset)
+		dashes, dashOffset := renderer.Dashes(svgp.Style, m.LineWidthScale())
+		gc.SetDash(dashes...)
+		gc.SetDashOffset(dashOffset)
 	}
 
 	gc.ClearPath()
diff --git a/renderer/options.go b/renderer/options.go
index 1e1f711..7b04334 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -1,6 +1,8 @@
 package renderer
 
 import (
+	"math"
+
 	"github.com/lafriks/go-svg"
 )
 
@@ -54,3 +56,28 @@ func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	}
 	return r
 }
+
+// Dashes returns the dash lengths and the dash offset of the style, scaled like the
+// line width. The list has an even number of lengths, and the offset is in
+// the first repetition of the list. No lengths mean a solid line.
+func Dashes(style svg.PathStyle, scale float64) ([]float64, float64) {
+	var dashes []float64
+	var sum float64
+	for _, d := range style.Dash.Dash {
+		dashes = append(dashes, d*scale)
+		sum += d * scale
+	}
+	if !(sum >= 1.0/64) { // too short to be drawn
+		return nil, 0
+	}
+	if len(dashes)%2 != 0 {
+		// an odd list is repeated
+		dashes = append(dashes, dashes...)
+		sum *= 2
+	}
+	offset := math.Mod(style.Dash.DashOffset*scale, sum)
+	if offset < 0 {
+		offset += sum
+	}
+	return dashes, offset
+}
diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 5b4cffb..be7ba0e 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -152,6 +152,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		filler.Draw()
 	}
 	if svgp.Style.LinerColor != nil {
+		dashes, dashOffset := renderer.Dashes(svgp.Style, m.LineWidthScale())
 		gc.Clear()
 		gc.SetWinding(true)
 		gc.SetStroke(
@@ -161,7 +162,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap),
 			toLineGap(svgp.Style.Join.LineGap),
 			toLineJoin(svgp.Style.Join.LineJoin),
-			svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
+			dashes, dashOffset)
 
 		for _, op := range svgp.Path {
 			drawToStroker(gc, op, m)
-- 
2.43.0


From 8357b25dd13f9cab8ae39f742bdb9336ae9af521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:37 +0000
Subject: [PATCH 29/45] fix: a rect with an explicit zero radius has square
 corners

---
 svg_elements.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index 3428be6..825b5fa 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -79,6 +79,7 @@ func svgF(c *svgCursor, attrs []xml.Attr) error {
 func gF(*svgCursor, []xml.Attr) error { return nil } // g does nothing but push the style
 func rectF(c *svgCursor, attrs []xml.Attr) error {
 	var x, y, w, h, rx, ry float64
+	var setRx, setRy bool
 	var err error
 	for _, attr := range attrs {
 		switch attr.Name.Local {
@@ -91,8 +92,10 @@ func rectF(c *svgCursor, attrs []xml.Attr) error {
 		case "height":
 			h, err = c.parseUnit(attr.Value, heightPercentage)
 		case "rx":
+			setRx = true
 			rx, err = c.parseUnit(attr.Value, widthPercentage)
 		case "ry":
+			setRy = true
 			ry, err = c.parseUnit(attr.Value, heightPercentage)
 		}
 		if err != nil {
@@ -103,10 +106,10 @@ func rectF(c *svgCursor, attrs []xml.Attr) error {
 		return nil
 	}
 	// If only one of rx or ry is specified, the other should be same
-	if rx != 0 && ry == 0 {
+	if setRx && !setRy {
 		ry = rx
 	}
-	if ry != 0 && rx == 0 {
+	if setRy && !setRx {
 		rx = ry
 	}
 	c.path.addRoundRect(x+c.curX, y+c.curY, w+x+c.curX, h+y+c.curY, rx, ry, 0)
-- 
2.43.0


From d505a824471bc1dc379843ff7bc3e80b066e77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:04 +0000
Subject: [PATCH 30/45] fix: percentages in the style of the svg element refer
 to its view box

---
 svg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svg.go b/svg.go
index 09e0220..b3119ad 100644
--- a/svg.go
+++ b/svg.go
@@ -84,6 +84,12 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 		switch se := t.(type) {
 		case xml.StartElement:
 			seenTag = true
+			if se.Name.Local == "svg" && !svgCursor.inDefs {
+				// The percentages in the style refer to the view box
+				if err = svgF(svgCursor, se.Attr); err != nil {
+					return svg, err
+				}
+			}
 			// Reads all recognized style attributes from the start element
 			// and places it on top of the styleStack
 			err = svgCursor.pushStyle(se.Attr)
-- 
2.43.0


From 1f9f3aaf1e33e4bf8a52b42614dd103e070eae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:17 +0000
Subject: [PATCH 31/45] fix: draw round line joins with rasterx

---
 renderer/rasterx/draw.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index be7ba0e..34c58f1 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -58,6 +58,8 @@ func toLineGap(gap svg.GapMode) rasterx.GapFunc {
 		return rasterx.CubicGap
 	case svg.QuadraticGap:
 		return rasterx.QuadraticGap
+	case svg.NilGap:
+		return nil // given by the line join
 	}
 	return rasterx.FlatGap
 }
-- 
2.43.0


From 6b8c19e1c738e40be2c7e5e485ea585b99057271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:36 +0000
Subject: [PATCH 32/45] fix: stroke quadratic curves whose control point is one
 of their ends

Without a direction at that end rasterx divides by zero with arc joins, and
narrows the line with other joins.
---
 renderer/rasterx/draw.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 34c58f1..065746e 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -16,20 +16,35 @@ func Draw(gc *rasterx.Dasher, s *svg.Svg, opts ...renderer.RenderOption) {
 	}
 }
 
-func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D) {
+// drawToStroker adds the operation, which starts at the last point, and returns its end point.
+func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D, last fixed.Point26_6) fixed.Point26_6 {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
+		a := m.MoveTo(op)
 		gc.Stop(false)
-		gc.Start(m.MoveTo(op))
+		gc.Start(a)
+		return a
 	case svg.OpLineTo:
-		gc.Line(m.LineTo(op))
+		b := m.LineTo(op)
+		gc.Line(b)
+		return b
 	case svg.OpQuadTo:
-		gc.QuadBezier(m.QuadTo(op))
+		b, c := m.QuadTo(op)
+		if b == last || b == c {
+			// The curve is a line, without a direction at one of its ends.
+			gc.Line(c)
+		} else {
+			gc.QuadBezier(b, c)
+		}
+		return c
 	case svg.OpCubicTo:
-		gc.CubeBezier(m.CubicTo(op))
+		b, c, d := m.CubicTo(op)
+		gc.CubeBezier(b, c, d)
+		return d
 	case svg.OpClose:
 		gc.Stop(true)
 	}
+	return last
 }
 
 func drawToFiller(gc *rasterx.Filler, op svg.Operation, m svg.Matrix2D) {
@@ -166,8 +181,9 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			toLineJoin(svgp.Style.Join.LineJoin),
 			dashes, dashOffset)
 
+		var last fixed.Point26_6
 		for _, op := range svgp.Path {
-			drawToStroker(gc, op, m)
+			last = drawToStroker(gc, op, m, last)
 		}
 		gc.Stop(false)
 
-- 
2.43.0


From be455e3763ee888e819b5ecb6121bd87dedf776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:46 +0000
Subject: [PATCH 33/45] fix: draw2d does not hang on dashed lines without
 length

With a dash offset at the end of a dash, or with a dash without length, draw2d
divided zero by zero and rasterized a line to NaN.
---
 renderer/draw2d/draw.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index f1cab95..69ad9d1 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -84,6 +84,22 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 	return toColor(svg.GetColor(g), opacity)
 }
 
+// startInDash moves an offset at the end of a dash to just before it: draw2d divides by
+// zero when a path starts there with a line without length.
+func startInDash(dashes []float64, offset float64) float64 {
+	rest := offset
+	for _, d := range dashes {
+		if rest == d {
+			return offset - 1e-6
+		}
+		if rest < d {
+			break
+		}
+		rest -= d
+	}
+	return offset
+}
+
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
 	m := opt.Target.Mult(svgp.Style.Transform)
@@ -113,7 +129,8 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 			gc.SetStrokeColor(toGradient(c, svgp.Style.LineOpacity*opt.Opacity))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetLineDash(renderer.Dashes(svgp.Style, m.LineWidthScale()))
+		dashes, dashOffset := renderer.Dashes(svgp.Style, m.LineWidthScale())
+		gc.SetLineDash(dashes, startInDash(dashes, dashOffset))
 		drawPath(gc, svgp.Path, m, false)
 		gc.Stroke()
 	}
-- 
2.43.0


From 0f262eddd17806df69c293425fca582dc364c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:46 +0000
Subject: [PATCH 34/45] fix: draw2d draws curves that end where they start

---
 renderer/draw2d/draw.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 69ad9d1..096436f 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -7,6 +7,8 @@ import (
 	"github.com/lafriks/go-svg/renderer"
 
 	"github.com/llgcode/draw2d"
+	"github.com/llgcode/draw2d/draw2dbase"
+	"golang.org/x/image/math/fixed"
 )
 
 // Draw the parsed SVG into the graphic context with the specified options.
@@ -17,34 +19,49 @@ func Draw(gc draw2d.GraphicContext, s *svg.Svg, opts ...renderer.RenderOption) {
 	}
 }
 
-func drawTo(gc draw2d.GraphicContext, op svg.Operation, m svg.Matrix2D) {
+// drawTo adds the operation, which starts at the last point, and returns its end point.
+func drawTo(gc draw2d.GraphicContext, op svg.Operation, m svg.Matrix2D, last fixed.Point26_6) fixed.Point26_6 {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
+		return t
 	case svg.OpLineTo:
 		t := m.LineTo(op)
 		gc.LineTo(float64(t.X)/64, float64(t.Y)/64)
+		return t
 	case svg.OpQuadTo:
 		t1, t2 := m.QuadTo(op)
 		gc.QuadCurveTo(float64(t1.X)/64, float64(t1.Y)/64, float64(t2.X)/64, float64(t2.Y)/64)
+		return t2
 	case svg.OpCubicTo:
 		t1, t2, t3 := m.CubicTo(op)
-		gc.CubicCurveTo(float64(t1.X)/64, float64(t1.Y)/64, float64(t2.X)/64, float64(t2.Y)/64, float64(t3.X)/64, float64(t3.Y)/64)
+		c := [8]float64{float64(last.X) / 64, float64(last.Y) / 64, float64(t1.X) / 64, float64(t1.Y) / 64,
+			float64(t2.X) / 64, float64(t2.Y) / 64, float64(t3.X) / 64, float64(t3.Y) / 64}
+		if t3 == last {
+			// draw2d takes a curve that ends where it starts for a point.
+			var c1 [8]float64
+			draw2dbase.SubdivideCubic(c[:], c1[:], c[:])
+			gc.CubicCurveTo(c1[2], c1[3], c1[4], c1[5], c1[6], c1[7])
+		}
+		gc.CubicCurveTo(c[2], c[3], c[4], c[5], c[6], c[7])
+		return t3
 	case svg.OpClose:
 		gc.Close()
 	}
+	return last
 }
 
 // drawPath adds all the subpaths to the graphic context. Open subpaths are closed
 // to fill them, but not to stroke them.
 func drawPath(gc draw2d.GraphicContext, path svg.Path, m svg.Matrix2D, fill bool) {
 	gc.BeginPath()
+	var last fixed.Point26_6
 	for i, op := range path {
 		if _, ok := op.(svg.OpMoveTo); ok && fill && i > 0 {
 			gc.Close()
 		}
-		drawTo(gc, op, m)
+		last = drawTo(gc, op, m, last)
 	}
 	if fill && len(path) > 0 {
 		gc.Close()
-- 
2.43.0


From 6ab5f24de86033e754eda076e7c3d45494fb232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:42 +0000
Subject: [PATCH 35/45] fix: rasterx draws lines without length independently
 of earlier paths

---
 renderer/rasterx/draw.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 065746e..0c524f8 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -170,7 +170,6 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 	}
 	if svgp.Style.LinerColor != nil {
 		dashes, dashOffset := renderer.Dashes(svgp.Style, m.LineWidthScale())
-		gc.Clear()
 		gc.SetWinding(true)
 		gc.SetStroke(
 			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
@@ -181,6 +180,13 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			toLineJoin(svgp.Style.Join.LineJoin),
 			dashes, dashOffset)
 
+		// A line without length gets the direction of the last line that was stroked:
+		// it must not depend on the paths that were drawn before.
+		gc.Start(fixed.P(0, 0))
+		gc.Line(fixed.P(1, 0))
+		gc.Stop(false)
+		gc.Clear()
+
 		var last fixed.Point26_6
 		for _, op := range svgp.Path {
 			last = drawToStroker(gc, op, m, last)
-- 
2.43.0


From 4f894844f17f0169e534af4351225f4df4fdd93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:07 +0000
Subject: [PATCH 36/45] fix: read arc flags written without separators

---
 parse_path.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index 2da15a8..feea473 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -6,6 +6,8 @@ import (
 	"errors"
 	"log"
 	"math"
+	"regexp"
+	"strings"
 	"unicode"
 
 	"golang.org/x/image/math/fixed"
@@ -169,6 +171,33 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 	return nil
 }
 
+// pathNumber is a number of the SVG path grammar.
+var pathNumber = regexp.MustCompile(`[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?`)
+
+// splitFlags separates the flags in the arguments of an arc command from what follows:
+// they are a single digit, which may be written directly before the next argument.
+func splitFlags(args string) string {
+	var b strings.Builder
+	for i := 0; ; i++ {
+		loc := pathNumber.FindStringIndex(args)
+		if loc == nil {
+			break
+		}
+		end := loc[1]
+		b.WriteString(args[:loc[0]])
+		if first := args[loc[0]]; (i%7 == 3 || i%7 == 4) && (first == '0' || first == '1') {
+			end = loc[0] + 1
+			b.WriteByte(first)
+			b.WriteByte(' ')
+		} else {
+			b.WriteString(args[loc[0]:end])
+		}
+		args = args[end:]
+	}
+	b.WriteString(args)
+	return b.String()
+}
+
 func (c *pathCursor) reflectControlQuad() {
 	switch c.lastKey {
 	case 'q', 'Q', 'T', 't':
@@ -203,11 +232,15 @@ func (c *pathCursor) restartAfterClose() {
 // in the svgCursor's Path
 func (c *pathCursor) addSeg(segString string) error {
 	// Parse the string describing the numeric points in SVG format
-	if err := c.getPoints(segString[1:]); err != nil {
+	args := segString[1:]
+	k := segString[0]
+	if k == 'a' || k == 'A' {
+		args = splitFlags(args)
+	}
+	if err := c.getPoints(args); err != nil {
 		return err
 	}
 	l := len(c.points)
-	k := segString[0]
 	rel := false
 	switch k {
 	case 'z', 'Z', 'm', 'M':
-- 
2.43.0


From a6ff23f83137a6497a5f59b7562f79ae39385402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:17 +0000
Subject: [PATCH 37/45] fix: read colours with white space around them and in
 upper case

---
 patterns.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/patterns.go b/patterns.go
index 00e2756..f96a8dd 100644
--- a/patterns.go
+++ b/patterns.go
@@ -56,7 +56,7 @@ func (o optionnalColor) asPattern() Pattern {
 // parseSVGColor parses an SVG color string in all forms
 // including all SVG1.1 names, obtained from the colornames package
 func parseSVGColor(colorStr string) (optionnalColor, error) {
-	v := strings.ToLower(colorStr)
+	v := strings.ToLower(strings.TrimSpace(colorStr))
 	if strings.HasPrefix(v, "url") { // We are not handling urls
 		// and gradients and stuff at this point
 		return toOptColor(NewPlainColor(0, 0, 0, 255)), nil
@@ -73,8 +73,8 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 			return toOptColor(NewPlainColor(uint8(r), uint8(g), uint8(b), uint8(a))), nil
 		}
 	}
-	cStr := strings.TrimPrefix(colorStr, "rgb(")
-	if cStr != colorStr {
+	cStr := strings.TrimPrefix(v, "rgb(")
+	if cStr != v {
 		cStr := strings.TrimSuffix(cStr, ")")
 		vals := strings.Split(cStr, ",")
 		if len(vals) != 3 {
@@ -90,8 +90,8 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 		}
 		return toOptColor(NewPlainColor(cvals[0], cvals[1], cvals[2], 0xFF)), nil
 	}
-	if strings.HasPrefix(colorStr, "#") {
-		r, g, b, err := parseSVGColorNum(colorStr)
+	if strings.HasPrefix(v, "#") {
+		r, g, b, err := parseSVGColorNum(v)
 		if err != nil {
 			return optionnalColor{}, err
 		}
-- 
2.43.0


From ffc2210300fb99c7ccde5977e374eaa633703b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:41 +0000
Subject: [PATCH 38/45] fix: report stray characters in lists of numbers and
 values with a colon

---
 parse.go      |  2 +-
 parse_path.go | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 8e59954..af42b90 100644
--- a/parse.go
+++ b/parse.go
@@ -341,7 +341,7 @@ func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
 	for _, pair := range pairs {
-		kv := strings.Split(pair, ":")
+		kv := strings.SplitN(pair, ":", 2)
 		if len(kv) >= 2 {
 			k := strings.ToLower(kv[0])
 			k = strings.TrimSpace(k)
diff --git a/parse_path.go b/parse_path.go
index feea473..770c204 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/image/math/fixed"
 )
@@ -64,10 +65,15 @@ func (c *pathCursor) compilePath(svgPath string) error {
 				if err := c.addSeg(svgPath[lastIndex:i]); err != nil {
 					return err
 				}
+			} else if strings.TrimSpace(svgPath[:i]) != "" {
+				return errParamMismatch // arguments without a command
 			}
 			lastIndex = i
 		}
 	}
+	if lastIndex == -1 && strings.TrimSpace(svgPath) != "" {
+		return errParamMismatch
+	}
 	if lastIndex != -1 {
 		if err := c.addSeg(svgPath[lastIndex:]); err != nil {
 			return err
@@ -153,10 +159,13 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 					return err
 				}
 			}
-			if r == '-' {
+			switch {
+			case r == '-' || r == '+':
 				lastIndex = i
-			} else {
+			case r == ',' || unicode.IsSpace(r):
 				lastIndex = -1
+			default:
+				return errParamMismatch
 			}
 		} else if lastIndex == -1 {
 			lastIndex = i
@@ -232,7 +241,8 @@ func (c *pathCursor) restartAfterClose() {
 // in the svgCursor's Path
 func (c *pathCursor) addSeg(segString string) error {
 	// Parse the string describing the numeric points in SVG format
-	args := segString[1:]
+	_, size := utf8.DecodeRuneInString(segString)
+	args := segString[size:]
 	k := segString[0]
 	if k == 'a' || k == 'A' {
 		args = splitFlags(args)
-- 
2.43.0


From 600f2cc0527e3adc004e36c5f4c4546fc13cd378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 39/45] fix: report path data which does not begin with a move

---
 parse_path.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index 770c204..f63a8f5 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -252,6 +252,9 @@ func (c *pathCursor) addSeg(segString string) error {
 	}
 	l := len(c.points)
 	rel := false
+	if len(c.path) == 0 && strings.IndexByte("zZlLvVhHqQtTcCsSaA", k) >= 0 {
+		return errParamMismatch // a path begins with a move
+	}
 	switch k {
 	case 'z', 'Z', 'm', 'M':
 	default:
-- 
2.43.0


From 54eb20a10521b60141bee7ce42d82208a004e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:04 +0000
Subject: [PATCH 40/45] fix: report opacities and offsets with units, and
 numbers only Go knows

---
 units.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/units.go b/units.go
index c55edd0..bf1cd32 100644
--- a/units.go
+++ b/units.go
@@ -43,8 +43,8 @@ func findUnit(s string) (u unite, value string) {
 func parseUnit(s string) (float64, bool, error) {
 	unite, value := findUnit(s)
 	out, err := strconv.ParseFloat(value, 64)
-	if err == nil && (math.IsNaN(out) || math.IsInf(out, 0)) {
-		err = errParamMismatch // "nan" and "inf" are not SVG numbers
+	if err == nil && (math.IsNaN(out) || math.IsInf(out, 0) || strings.ContainsAny(value, "xX_")) {
+		err = errParamMismatch // "nan", "inf", "0x1p2" and "1_0" are not SVG numbers
 	}
 	return out * toPx[unite], unite == Perc, err
 }
@@ -96,7 +96,10 @@ func readFraction(v string) (f float64, err error) {
 	d := 1.0
 	if strings.HasSuffix(v, "%") {
 		d = 100
-		v = strings.TrimSuffix(v, "%")
+		v = strings.TrimSpace(strings.TrimSuffix(v, "%"))
+	}
+	if _, number := findUnit(v); number != v {
+		return 0, errParamMismatch // a fraction has no unit
 	}
 	f, err = parseBasicFloat(v)
 	f /= d
-- 
2.43.0


From 9af0fa2a3002721245bb34c9e96937fb66a8584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:58 +0000
Subject: [PATCH 41/45] fix: draw lines with dashes without length with draw2d

Where a line ended at a dash or gap of length zero, draw2d divided by zero
and never finished.
---
 renderer/draw2d/draw.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 096436f..7f5e446 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -147,6 +147,11 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
 		dashes, dashOffset := renderer.Dashes(svgp.Style, m.LineWidthScale())
+		for i, d := range dashes {
+			if d < 1e-6 { // draw2d divides by zero where a line ends at a dash or gap without length
+				dashes[i] = 1e-6
+			}
+		}
 		gc.SetLineDash(dashes, startInDash(dashes, dashOffset))
 		drawPath(gc, svgp.Path, m, false)
 		gc.Stroke()
-- 
2.43.0


From 561f678168bf53578a8a99263de2b28a8c46fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:15 +0000
Subject: [PATCH 42/45] fix: draw rounded corners with very different radii
 where they belong

The corners were computed as circles on a stretched grid, which displaced
the whole rectangle when rx was small, and overflowed when ry was.
---
 shapes.go | 110 +++++++++++-------------------------------------------
 1 file changed, 21 insertions(+), 89 deletions(-)

diff --git a/shapes.go b/shapes.go
index f8a600c..0ec91aa 100644
--- a/shapes.go
+++ b/shapes.go
@@ -10,12 +10,6 @@ import (
 // high level shapes to their path equivalent
 
 const (
-	cubicsPerHalfCircle = 8 // Number of cubic beziers to approx half a circle
-
-	// fixed point t paramaterization shift factor;
-	// (2^this)/64 is the max length of t for fixed.Int26_6
-	tStrokeShift = 14
-
 	// maxDx is the maximum radians a cubic splice is allowed to span
 	// in ellipse parametric when approximating an off-axis ellipse.
 	maxDx float64 = math.Pi / 8
@@ -42,72 +36,6 @@ func (p *Path) addRect(minX, minY, maxX, maxY, rot float64) {
 	q.path.Stop(true)
 }
 
-// length is the distance from the origin of the point
-func length(v fixed.Point26_6) fixed.Int26_6 {
-	vx, vy := float64(v.X), float64(v.Y)
-	return fixed.Int26_6(math.Sqrt(vx*vx + vy*vy))
-}
-
-// addArc strokes a circular arc by approximation with bezier curves
-func addArc(p *matrixAdder, a, s1, s2 fixed.Point26_6, clockwise bool, trimStart,
-	trimEnd fixed.Int26_6, firstPoint func(p fixed.Point26_6),
-) (ps1, ds1, ps2, ds2 fixed.Point26_6) {
-	// Approximate the circular arc using a set of cubic bezier curves by the method of
-	// L. Maisonobe, "Drawing an elliptical arc using polylines, quadratic
-	// or cubic Bezier curves", 2003
-	// https://www.spaceroots.org/documents/elllipse/elliptical-arc.pdf
-	// The method was simplified for circles.
-	theta1 := math.Atan2(float64(s1.Y-a.Y), float64(s1.X-a.X))
-	theta2 := math.Atan2(float64(s2.Y-a.Y), float64(s2.X-a.X))
-	if !clockwise {
-		for theta1 < theta2 {
-			theta1 += math.Pi * 2
-		}
-	} else {
-		for theta2 < theta1 {
-			theta2 += math.Pi * 2
-		}
-	}
-	deltaTheta := theta2 - theta1
-	if trimStart > 0 {
-		ds := (deltaTheta * float64(trimStart)) / float64(1<<tStrokeShift)
-		deltaTheta -= ds
-		theta1 += ds
-	}
-	if trimEnd > 0 {
-		ds := (deltaTheta * float64(trimEnd)) / float64(1<<tStrokeShift)
-		deltaTheta -= ds
-	}
-
-	segs := int(math.Abs(deltaTheta)/(math.Pi/cubicsPerHalfCircle)) + 1
-	dTheta := deltaTheta / float64(segs)
-	tde := math.Tan(dTheta / 2)
-	alpha := fixed.Int26_6(math.Sin(dTheta) * (math.Sqrt(4+3*tde*tde) - 1) * (64.0 / 3.0)) // Math is fun!
-	r := float64(length(s1.Sub(a)))                                                        // Note r is *64
-	ldp := fixed.Point26_6{X: -fixed.Int26_6(r * math.Sin(theta1)), Y: fixed.Int26_6(r * math.Cos(theta1))}
-	ds1 = ldp
-	ps1 = fixed.Point26_6{X: a.X + ldp.Y, Y: a.Y - ldp.X}
-	firstPoint(ps1)
-	s1 = ps1
-	for i := 1; i <= segs; i++ {
-		eta := theta1 + dTheta*float64(i)
-		ds2 = fixed.Point26_6{X: -fixed.Int26_6(r * math.Sin(eta)), Y: fixed.Int26_6(r * math.Cos(eta))}
-		ps2 = fixed.Point26_6{X: a.X + ds2.Y, Y: a.Y - ds2.X} // Using deriviative to calc new pt, because circle
-		p1 := s1.Add(ldp.Mul(alpha))
-		p2 := ps2.Sub(ds2.Mul(alpha))
-		p.CubeBezier(p1, p2, ps2)
-		s1, ldp = ps2, ds2
-	}
-	return
-}
-
-// roundGap bridges miter-limit gaps with a circular arc
-func roundGap(p *matrixAdder, a, tNorm, lNorm fixed.Point26_6) {
-	addArc(p, a, a.Add(tNorm), a.Add(lNorm), true, 0, 0, p.Line)
-	p.Line(a.Add(lNorm)) // just to be sure line joins cleanly,
-	// last pt in stoke arc may not be precisely s2
-}
-
 // addRoundRect adds a rectangle of the indicated size, rotated
 // around the center by rot degrees with rounded corners of radius
 // rx in the x axis and ry in the y axis. gf specifes the shape of the
@@ -127,24 +55,28 @@ func (p *Path) addRoundRect(minX, minY, maxX, maxY, rx, ry, rot float64) {
 	if h < ry*2 {
 		ry = h / 2
 	}
-	stretch := rx / ry
-	midY := minY + h/2
-	m := Identity.Translate(minX+w/2, midY).Rotate(rot).Scale(1, 1/stretch).Translate(-minX-w/2, -minY-h/2)
-	maxY = midY + h/2*stretch
-	minY = midY - h/2*stretch
-
-	q := &matrixAdder{M: m, path: p}
+	m := Identity.Translate(minX+w/2, minY+h/2).Rotate(rot).Translate(-minX-w/2, -minY-h/2)
+	line := func(x, y float64) {
+		p.Line(toFixedP(m.Transform(x, y)))
+	}
+	// corner adds the quarter of an ellipse around cx, cy
+	corner := func(cx, cy, fromX, fromY, toX, toY float64) {
+		cx, cy = m.Transform(cx, cy)
+		fromX, fromY = m.Transform(fromX, fromY)
+		toX, toY = m.Transform(toX, toY)
+		p.addArc([]float64{rx, ry, rot * 180 / math.Pi, 0, 1, toX, toY}, cx, cy, fromX, fromY)
+	}
 
-	q.Start(toFixedP(minX+rx, minY))
-	q.Line(toFixedP(maxX-rx, minY))
-	roundGap(q, toFixedP(maxX-rx, minY+rx), toFixedP(0, -rx), toFixedP(rx, 0))
-	q.Line(toFixedP(maxX, maxY-rx))
-	roundGap(q, toFixedP(maxX-rx, maxY-rx), toFixedP(rx, 0), toFixedP(0, rx))
-	q.Line(toFixedP(minX+rx, maxY))
-	roundGap(q, toFixedP(minX+rx, maxY-rx), toFixedP(0, rx), toFixedP(-rx, 0))
-	q.Line(toFixedP(minX, minY+rx))
-	roundGap(q, toFixedP(minX+rx, minY+rx), toFixedP(-rx, 0), toFixedP(0, -rx))
-	q.path.Stop(true)
+	p.Start(toFixedP(m.Transform(minX+rx, minY)))
+	line(maxX-rx, minY)
+	corner(maxX-rx, minY+ry, maxX-rx, minY, maxX, minY+ry)
+	line(maxX, maxY-ry)
+	corner(maxX-rx, maxY-ry, maxX, maxY-ry, maxX-rx, maxY)
+	line(minX+rx, maxY)
+	corner(minX+rx, maxY-ry, minX+rx, maxY, minX, maxY-ry)
+	line(minX, minY+ry)
+	corner(minX+rx, minY+ry, minX, minY+ry, minX+rx, minY)
+	p.Stop(true)
 }
 
 // addArc adds an arc to the adder p
-- 
2.43.0


From 1df697c54dad778441202a888553cf129a491afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 43/45] fix: gg left the path of an element that is not painted
 in the context

---
 renderer/gg/draw.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 22c5f79..d57b194 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -151,6 +151,7 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	if svgp.Style.LinerColor != nil {
 		gc.Stroke()
 	}
+	gc.ClearPath() // of a path that is not painted
 
 	return nil
 }
-- 
2.43.0


From 7ee2160f36ae48b669fc572dbd97bb0389acfa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 44/45] fix: the text of titles and descriptions was collected
 in quadratic time

---
 parse.go        | 19 +++++++++++++++++++
 svg.go          |  8 ++++----
 svg_elements.go |  2 ++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index af42b90..a219b99 100644
--- a/parse.go
+++ b/parse.go
@@ -20,6 +20,7 @@ type (
 		styleStack                                      []PathStyle
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
+		titleText, descText                             strings.Builder // the text of the current title and desc
 		currentDef                                      []definition
 		defStarts                                       []int           // for each open element, its index in currentDef, or -1
 		usedDefs                                        map[string]bool // the definitions being drawn by use elements
@@ -433,3 +434,21 @@ func (c *svgCursor) addPath() {
 		c.path = c.path[:0]
 	}
 }
+
+// endTitle saves the text of the current title, if there is one
+func (c *svgCursor) endTitle() {
+	if c.inTitleText {
+		c.svg.Titles[len(c.svg.Titles)-1] = c.titleText.String()
+		c.titleText.Reset()
+		c.inTitleText = false
+	}
+}
+
+// endDesc saves the text of the current description, if there is one
+func (c *svgCursor) endDesc() {
+	if c.inDescText {
+		c.svg.Descriptions[len(c.svg.Descriptions)-1] = c.descText.String()
+		c.descText.Reset()
+		c.inDescText = false
+	}
+}
diff --git a/svg.go b/svg.go
index b3119ad..2e4cd39 100644
--- a/svg.go
+++ b/svg.go
@@ -117,9 +117,9 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 				}
 				svgCursor.inMask = false
 			case "title":
-				svgCursor.inTitleText = false
+				svgCursor.endTitle()
 			case "desc":
-				svgCursor.inDescText = false
+				svgCursor.endDesc()
 			case "defs":
 				svgCursor.inDefs = false
 			case "radialGradient", "linearGradient":
@@ -127,10 +127,10 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			}
 		case xml.CharData:
 			if svgCursor.inTitleText {
-				svg.Titles[len(svg.Titles)-1] += string(se)
+				svgCursor.titleText.Write(se)
 			}
 			if svgCursor.inDescText {
-				svg.Descriptions[len(svg.Descriptions)-1] += string(se)
+				svgCursor.descText.Write(se)
 			}
 		}
 	}
diff --git a/svg_elements.go b/svg_elements.go
index 825b5fa..a2554cc 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -270,12 +270,14 @@ func pathF(c *svgCursor, attrs []xml.Attr) error {
 }
 
 func descF(c *svgCursor, attrs []xml.Attr) error {
+	c.endDesc()
 	c.inDescText = true
 	c.svg.Descriptions = append(c.svg.Descriptions, "")
 	return nil
 }
 
 func titleF(c *svgCursor, attrs []xml.Attr) error {
+	c.endTitle()
 	c.inTitleText = true
 	c.svg.Titles = append(c.svg.Titles, "")
 	return nil
-- 
2.43.0


From a0d56cb20b1b83adf35c2c577b59a636dbad59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:13 +0000
Subject: [PATCH 45/45] fix: arc flags other than 0 and 1 were accepted

---
 parse_path.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index f63a8f5..4ef1fda 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -185,7 +185,7 @@ var pathNumber = regexp.MustCompile(`[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0
 
 // splitFlags separates the flags in the arguments of an arc command from what follows:
 // they are a single digit, which may be written directly before the next argument.
-func splitFlags(args string) string {
+func splitFlags(args string) (string, error) {
 	var b strings.Builder
 	for i := 0; ; i++ {
 		loc := pathNumber.FindStringIndex(args)
@@ -194,7 +194,11 @@ func splitFlags(args string) string {
 		}
 		end := loc[1]
 		b.WriteString(args[:loc[0]])
-		if first := args[loc[0]]; (i%7 == 3 || i%7 == 4) && (first == '0' || first == '1') {
+		if i%7 == 3 || i%7 == 4 {
+			first := args[loc[0]]
+			if first != '0' && first != '1' {
+				return "", errParamMismatch
+			}
 			end = loc[0] + 1
 			b.WriteByte(first)
 			b.WriteByte(' ')
@@ -204,7 +208,7 @@ func splitFlags(args string) string {
 		args = args[end:]
 	}
 	b.WriteString(args)
-	return b.String()
+	return b.String(), nil
 }
 
 func (c *pathCursor) reflectControlQuad() {
@@ -245,7 +249,10 @@ func (c *pathCursor) addSeg(segString string) error {
 	args := segString[size:]
 	k := segString[0]
 	if k == 'a' || k == 'A' {
-		args = splitFlags(args)
+		var err error
+		if args, err = splitFlags(args); err != nil {
+			return err
+		}
 	}
 	if err := c.getPoints(args); err != nil {
 		return err
-- 
2.43.0

