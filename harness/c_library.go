package main

// The picture of a renderer against the drawing library itself: every element is drawn by
// calling the library directly, on a context of its own, with the settings the style names.
// This decides what the analytic model of pix.go leaves open: the caps, joins and gaps of
// rasterx that SVG does not have, sharp joins, overlapping and curved lines, the ends of
// dashes, and gradients under any transform.

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"

	"github.com/fogleman/gg"
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"github.com/llgcode/draw2d"
	"github.com/llgcode/draw2d/draw2dbase"
	"github.com/llgcode/draw2d/draw2dimg"
	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"
	"pgregory.net/rapid"
)

// libDashes is the dash pattern in device units: an even list, the offset in its first period.
func libDashes(st *RStyle, scale float64) ([]float64, float64) {
	var out []float64
	sum := 0.0
	for n := 0; n < 1 || n < 2 && len(st.Dash)%2 == 1; n++ {
		for _, d := range st.Dash {
			out = append(out, d*scale)
			sum += d * scale
		}
	}
	if len(out) == 0 {
		return nil, 0
	}
	off := math.Mod(st.DashOff*scale, sum)
	if off < 0 {
		off += sum
	}
	return out, off
}

func libFixed(p fixed.Point26_6) (float64, float64) { return float64(p.X) / 64, float64(p.Y) / 64 }

// libPath walks the mapped operations of the path.
func libPath(path svg.Path, m svg.Matrix2D, do func(k byte, p []fixed.Point26_6)) {
	for _, op := range path {
		switch op := op.(type) {
		case svg.OpMoveTo:
			do('M', []fixed.Point26_6{m.TFixed(fixed.Point26_6(op))})
		case svg.OpLineTo:
			do('L', []fixed.Point26_6{m.TFixed(fixed.Point26_6(op))})
		case svg.OpQuadTo:
			do('Q', []fixed.Point26_6{m.TFixed(op[0]), m.TFixed(op[1])})
		case svg.OpCubicTo:
			do('C', []fixed.Point26_6{m.TFixed(op[0]), m.TFixed(op[1]), m.TFixed(op[2])})
		case svg.OpClose:
			do('Z', nil)
		}
	}
}

func libRGBA(c [3]int, op float64) color.NRGBA {
	return color.NRGBA{uint8(c[0]), uint8(c[1]), uint8(c[2]), uint8(math.Round(255 * op))}
}

// ---- rasterx ----

var (
	libCaps = map[svg.CapMode]rasterx.CapFunc{svg.ButtCap: rasterx.ButtCap, svg.SquareCap: rasterx.SquareCap, svg.RoundCap: rasterx.RoundCap,
		svg.CubicCap: rasterx.CubicCap, svg.QuadraticCap: rasterx.QuadraticCap, svg.NilCap: rasterx.ButtCap}
	libJoins = map[svg.JoinMode]rasterx.JoinMode{svg.Arc: rasterx.Arc, svg.ArcClip: rasterx.ArcClip, svg.Miter: rasterx.Miter,
		svg.MiterClip: rasterx.MiterClip, svg.Round: rasterx.Round, svg.Bevel: rasterx.Bevel}
	libGaps = map[svg.GapMode]rasterx.GapFunc{svg.FlatGap: rasterx.FlatGap, svg.RoundGap: rasterx.RoundGap, svg.CubicGap: rasterx.CubicGap,
		svg.QuadraticGap: rasterx.QuadraticGap}
)

func libRasterxPaint(p RPaint, op float64, ext fixed.Rectangle26_6, m svg.Matrix2D) interface{} {
	if p.Grad == nil {
		return rasterx.ApplyOpacity(color.NRGBA{uint8(p.RGB[0]), uint8(p.RGB[1]), uint8(p.RGB[2]), 255}, op)
	}
	g := rasterx.Gradient{Matrix: rasterx.Matrix2D(toSvgMat(p.Grad.M)), IsRadial: p.Grad.Radial,
		Spread: []rasterx.SpreadMethod{rasterx.PadSpread, rasterx.ReflectSpread, rasterx.RepeatSpread}[p.Grad.Spread]}
	copy(g.Points[:], p.Grad.Dir)
	if p.Grad.User {
		g.Units = rasterx.UserSpaceOnUse
	}
	for _, s := range p.Grad.Stops {
		g.Stops = append(g.Stops, rasterx.GradStop{StopColor: color.NRGBA{uint8(s.RGB[0]), uint8(s.RGB[1]), uint8(s.RGB[2]), 255}, Offset: s.Off, Opacity: s.Opa})
	}
	g.Bounds.X, g.Bounds.Y = libFixed(ext.Min)
	x, y := libFixed(ext.Max)
	g.Bounds.W, g.Bounds.H = x-g.Bounds.X, y-g.Bounds.Y
	return g.GetColorFunctionUS(op, rasterx.Matrix2D(m))
}

func libRasterx(im *image.RGBA, s *Scene, e *PElem, m svg.Matrix2D) {
	w, h := im.Bounds().Dx(), im.Bounds().Dy()
	path := opsPath(e.Ops)
	st := &e.St
	feed := func(a rasterx.Adder) {
		open := false
		var last fixed.Point26_6
		libPath(path, m, func(k byte, p []fixed.Point26_6) {
			switch k {
			case 'M':
				if open {
					a.Stop(false)
				}
				a.Start(p[0])
				open = true
			case 'L':
				a.Line(p[0])
			case 'Q':
				if p[0] == last || p[0] == p[1] {
					a.Line(p[1])
				} else {
					a.QuadBezier(p[0], p[1])
				}
			case 'C':
				a.CubeBezier(p[0], p[1], p[2])
			case 'Z':
				a.Stop(true)
				open = false
			}
			if len(p) > 0 {
				last = p[len(p)-1]
			}
		})
		if open {
			a.Stop(false)
		}
	}
	if !st.Fill.None {
		f := rasterx.NewFiller(w, h, newFT(w, h, im))
		f.SetWinding(st.NonZero)
		feed(f)
		f.SetColor(libRasterxPaint(st.Fill, st.FillOp*s.Opacity, f.GetPathExtent(), m))
		f.Draw()
	}
	if !st.Stroke.None {
		d := rasterx.NewDasher(w, h, newFT(w, h, im))
		sc := m.LineWidthScale()
		dashes, off := libDashes(st, sc)
		lead := st.Lead
		if lead == svg.NilCap {
			lead = st.Cap
		}
		d.SetWinding(true)
		d.SetStroke(fixed.Int26_6(st.Width*64*sc), fixed.Int26_6(st.Miter*64), libCaps[lead], libCaps[st.Cap], libGaps[st.Gap], libJoins[st.Join], dashes, off)
		feed(d)
		d.SetColor(libRasterxPaint(st.Stroke, st.StrokeOp*s.Opacity, d.GetPathExtent(), m))
		d.Draw()
	}
}

// ---- draw2d ----

func libDraw2d(im *image.RGBA, s *Scene, e *PElem, m svg.Matrix2D) {
	path := opsPath(e.Ops)
	st := &e.St
	feed := func(gc draw2d.GraphicContext, fill bool) {
		first := true
		var last fixed.Point26_6
		gc.BeginPath()
		libPath(path, m, func(k byte, p []fixed.Point26_6) {
			var c [6]float64
			for i := range p {
				c[2*i], c[2*i+1] = libFixed(p[i])
			}
			switch k {
			case 'M':
				if fill && !first {
					gc.Close()
				}
				first = false
				gc.MoveTo(c[0], c[1])
			case 'L':
				gc.LineTo(c[0], c[1])
			case 'Q':
				gc.QuadCurveTo(c[0], c[1], c[2], c[3])
			case 'C':
				x, y := libFixed(last)
				all := [8]float64{x, y, c[0], c[1], c[2], c[3], c[4], c[5]}
				if p[2] == last { // draw2d takes a curve that ends where it starts for a point
					var c1, c2 [8]float64
					draw2dbase.SubdivideCubic(all[:], c1[:], c2[:])
					gc.CubicCurveTo(c1[2], c1[3], c1[4], c1[5], c1[6], c1[7])
					all = c2
				}
				gc.CubicCurveTo(all[2], all[3], all[4], all[5], all[6], all[7])
			case 'Z':
				gc.Close()
			}
			if len(p) > 0 {
				last = p[len(p)-1]
			}
		})
		if fill {
			gc.Close()
		}
	}
	if !st.Fill.None {
		gc := draw2dimg.NewGraphicContext(im)
		gc.SetFillRule(draw2d.FillRuleEvenOdd)
		if st.NonZero {
			gc.SetFillRule(draw2d.FillRuleWinding)
		}
		gc.SetFillColor(libRGBA(st.Fill.RGB, st.FillOp*s.Opacity))
		feed(gc, true)
		gc.Fill()
	}
	if !st.Stroke.None {
		gc := draw2dimg.NewGraphicContext(im)
		sc := m.LineWidthScale()
		gc.SetStrokeColor(libRGBA(st.Stroke.RGB, st.StrokeOp*s.Opacity))
		gc.SetLineWidth(st.Width * sc)
		dashes, off := libDashes(st, sc)
		gc.SetLineDash(dashes, off)
		gc.SetLineCap(map[svg.CapMode]draw2d.LineCap{svg.RoundCap: draw2d.RoundCap, svg.SquareCap: draw2d.SquareCap, svg.ButtCap: draw2d.ButtCap}[st.Cap])
		gc.SetLineJoin(map[svg.JoinMode]draw2d.LineJoin{svg.Round: draw2d.RoundJoin, svg.Bevel: draw2d.BevelJoin, svg.Miter: draw2d.MiterJoin}[st.Join])
		feed(gc, false)
		gc.Stroke()
	}
}

// ---- gg ----

// libGG draws the element; masks that are being drawn are left out.
func libGG(im *image.RGBA, s *Scene, e *PElem, m svg.Matrix2D, opacity float64, in map[string]bool) error {
	st := &e.St
	setup := func() (*gg.Context, error) {
		gc := gg.NewContextForRGBA(im)
		if n := len(st.Masks); n > 0 {
			id := st.Masks[n-1]
			if es, ok := s.Masks[id]; ok && !in[id] {
				mi := image.NewRGBA(im.Bounds())
				sub := map[string]bool{id: true}
				for k := range in {
					sub[k] = true
				}
				for i := range es {
					if err := libGG(mi, s, &es[i], m.Mult(toSvgMat(es[i].St.M)), 1, sub); err != nil {
						return nil, err
					}
				}
				al := image.NewAlpha(im.Bounds())
				for i := range al.Pix {
					p := mi.Pix[i*4:]
					al.Pix[i] = uint8(0.2126*float64(p[0]) + 0.7152*float64(p[1]) + 0.0722*float64(p[2]) + 0.5)
				}
				if err := gc.SetMask(al); err != nil {
					return nil, err
				}
			}
		}
		libPath(opsPath(e.Ops), m, func(k byte, p []fixed.Point26_6) {
			var c [6]float64
			for i := range p {
				c[2*i], c[2*i+1] = libFixed(p[i])
			}
			switch k {
			case 'M':
				gc.MoveTo(c[0], c[1])
			case 'L':
				gc.LineTo(c[0], c[1])
			case 'Q':
				gc.QuadraticTo(c[0], c[1], c[2], c[3])
			case 'C':
				gc.CubicTo(c[0], c[1], c[2], c[3], c[4], c[5])
			case 'Z':
				gc.ClosePath()
			}
		})
		return gc, nil
	}
	if !st.Fill.None {
		gc, err := setup()
		if err != nil {
			return err
		}
		gc.SetFillRule(gg.FillRuleEvenOdd)
		if st.NonZero {
			gc.SetFillRule(gg.FillRuleWinding)
		}
		gc.SetFillStyle(gg.NewSolidPattern(libRGBA(st.Fill.RGB, st.FillOp*opacity)))
		if g := st.Fill.Grad; g != nil {
			var gr gg.Gradient
			if d := g.Dir; g.Radial {
				gr = gg.NewRadialGradient(d[0], d[1], d[4], d[2], d[3], d[5])
			} else {
				gr = gg.NewLinearGradient(d[0], d[1], d[2], d[3])
			}
			for _, x := range g.Stops {
				gr.AddColorStop(x.Off, libRGBA(x.RGB, x.Opa*st.FillOp*opacity))
			}
			gc.SetFillStyle(gr)
		}
		gc.Fill()
	}
	if !st.Stroke.None {
		gc, err := setup()
		if err != nil {
			return err
		}
		sc := m.LineWidthScale()
		gc.SetStrokeStyle(gg.NewSolidPattern(libRGBA(st.Stroke.RGB, st.StrokeOp*opacity)))
		gc.SetLineWidth(st.Width * sc)
		dashes, off := libDashes(st, sc)
		gc.SetDash(dashes...)
		gc.SetDashOffset(off)
		gc.SetLineCap(map[svg.CapMode]gg.LineCap{svg.RoundCap: gg.LineCapRound, svg.SquareCap: gg.LineCapSquare, svg.ButtCap: gg.LineCapButt}[st.Cap])
		gc.SetLineJoin(map[svg.JoinMode]gg.LineJoin{svg.Round: gg.LineJoinRound, svg.Bevel: gg.LineJoinBevel}[st.Join])
		gc.Stroke()
	}
	return nil
}

// ---- generator and comparison ----

func genLibrary(kind string) func(t *rapid.T) *Scene {
	return func(t *rapid.T) *Scene {
		o := sceneOpt{elems: 3, fill: 6, stroke: 8, dash: 4, curves: true, shear: true, tidy: true, grad: kind == kRasterx, masks: kind == kGG && chance(t, 1, 3, "masks")}
		s := genScene(o)(t)
		fix := func(e *PElem) {
			st := &e.St
			dev := s.target().mul(st.M)
			switch kind {
			case kRasterx:
				st.Cap = oneOf(t, "cap", svg.ButtCap, svg.SquareCap, svg.RoundCap, svg.CubicCap, svg.QuadraticCap, svg.NilCap)
				st.Lead = oneOf(t, "lead", svg.NilCap, svg.NilCap, svg.ButtCap, svg.SquareCap, svg.RoundCap, svg.CubicCap, svg.QuadraticCap)
				st.Gap = oneOf(t, "gap", svg.NilGap, svg.FlatGap, svg.RoundGap, svg.CubicGap, svg.QuadraticGap)
				axis := math.Abs(dev.B)+math.Abs(dev.C) < 1e-9
				for _, p := range []*RPaint{&st.Fill, &st.Stroke} {
					// the bounding box is that of the drawn path, before it is drawn: it is
					// that of SVG only along the axes, and not for lines
					if p.Grad != nil && !p.Grad.User && (!axis || p == &st.Stroke) {
						p.Grad = nil
					}
				}
				if g := st.Fill.Grad; g != nil && chance(t, 1, 3, "matrix") {
					g.M = genPlace(t, true)
					if !g.User {
						g.M.E, g.M.F = g.M.E/60, g.M.F/60
					}
				}
			case kDraw2d:
				// the other words have no counterpart
				st.Cap = oneOf(t, "cap", svg.ButtCap, svg.SquareCap, svg.RoundCap)
				st.Join = oneOf(t, "join", svg.Bevel, svg.Miter, svg.Round)
			case kGG:
				st.Cap = oneOf(t, "cap", svg.ButtCap, svg.SquareCap, svg.RoundCap)
				st.Join = oneOf(t, "join", svg.Bevel, svg.Round)
				// gradients are placed in device space, whatever the transform
				if dev == idMat && !st.Fill.None && st.FillOp*s.Opacity == 1 && chance(t, 1, 2, "gradient") {
					g := genRGrad(t, s, st.M)
					if g.User {
						g.M, g.Spread = idMat, 0
						for i := range g.Stops { // gg overflows between stops that are not opaque
							g.Stops[i].Opa = 1
						}
						st.Fill.Grad = g
					}
				}
			}
			if len(st.Dash) > 0 && chance(t, 1, 8, "fine") { // dashes of less than a pixel, but not of less than 1/64
				k := float64(intn(t, 10, 60, "fineness")) / 1000
				for i := range st.Dash {
					st.Dash[i] *= k
				}
			}
			// not where a dash ends
			if len(st.Dash) > 0 {
				st.DashOff += 0.00137
			}
		}
		for i := range s.Elems {
			fix(&s.Elems[i])
		}
		for k := 0; k < len(s.Masks); k++ {
			es := s.Masks[fmt.Sprintf("m%d", k)]
			for i := range es {
				fix(&es[i])
				if chance(t, 1, 4, "mask-in-mask") {
					es[i].St.Masks = []string{fmt.Sprintf("m%d", intn(t, 0, len(s.Masks)-1, "inner"))}
				}
			}
		}
		return s
	}
}

// farPix counts the pixels of a whose colour is not near to any colour between those of
// the neighbours in b.
func farPix(a, b *image.RGBA, tol int) (int, string) {
	w, h := a.Bounds().Dx(), a.Bounds().Dy()
	n, first := 0, ""
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			p := a.Pix[a.PixOffset(x, y):]
			for c := 0; c < 4; c++ {
				if d := int(p[c]) - int(b.Pix[b.PixOffset(x, y)+c]); d <= tol && -d <= tol {
					continue
				}
				lo, hi := 255, 0
				for dy := -1; dy <= 1; dy++ {
					for dx := -1; dx <= 1; dx++ {
						if (image.Point{X: x + dx, Y: y + dy}).In(b.Bounds()) {
							v := int(b.Pix[b.PixOffset(x+dx, y+dy)+c])
							lo, hi = min(lo, v), max(hi, v)
						}
					}
				}
				if int(p[c]) < lo-tol || int(p[c]) > hi+tol {
					if n == 0 {
						first = fmt.Sprintf("pixel %d,%d: %v", x, y, p[:4])
					}
					n++
					break
				}
			}
		}
	}
	return n, first
}

func checkLibrary(kind string) func(s *Scene, r *Rec) error {
	return func(s *Scene, r *Rec) error {
		doc := s.svg()
		im, err := render(kind, doc, s.W, s.H, s.bg(), s.opts()...)
		if err != nil {
			return fmt.Errorf("Draw: %v\n%s", err, s.describe())
		}
		ref := image.NewRGBA(image.Rect(0, 0, s.W, s.H))
		draw.Draw(ref, ref.Bounds(), image.NewUniform(s.bg()), image.Point{}, draw.Src)
		blank := append([]uint8(nil), ref.Pix...)
		target := renderer.Options(doc, s.opts()...).Target
		for i := range s.Elems {
			e := &s.Elems[i]
			m := target.Mult(toSvgMat(e.St.M))
			switch kind {
			case kRasterx:
				libRasterx(ref, s, e, m)
			case kDraw2d:
				libDraw2d(ref, s, e, m)
			case kGG:
				if err := libGG(ref, s, e, m, s.Opacity, nil); err != nil {
					return fmt.Errorf("harness: %v", err)
				}
			}
		}
		painted := 0
		for i := 0; i < len(blank); i += 4 {
			if [4]uint8(blank[i:i+4]) != [4]uint8(ref.Pix[i:i+4]) {
				painted++
			}
		}
		r.NonTrivial(painted >= 5)
		r.Sample(s.describe())
		s.label(r)
		for _, x := range [][2]*image.RGBA{{im, ref}, {ref, im}} {
			if n, first := farPix(x[0], x[1], 12); n >= 2 {
				return fmt.Errorf("%s: %d pixels are not as the library draws them; %s\n%s", kind, n, first, s.describe())
			}
		}
		return nil
	}
}

func init() {
	for id, kind := range map[string]string{"C19": kDraw2d, "C20": kRasterx, "C21": kGG} {
		register(id, NewSub("library", 15000, 200000, "at least 5 painted pixels", genLibrary(kind), checkLibrary(kind)))
	}
}
