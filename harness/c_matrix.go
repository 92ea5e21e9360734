package main

import (
	"fmt"
	"math"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"golang.org/x/image/math/fixed"
	"pgregory.net/rapid"
)

// ---- C10: transforms form the affine group, and points are moved by them ----

type MatCase struct {
	A, B, C Mat
	P       []Pt
	Theta   float64
	X, Y    float64
}

func genMat(t *rapid.T, label string) Mat {
	e := func(n string) float64 {
		switch intn(t, 0, 9, label+n+".k") {
		case 0:
			return 0
		case 1:
			return oneOf(t, label+n, 1.0, -1.0)
		case 2:
			return dec(t, -1000, 1000, label+n)
		}
		return dec(t, -5, 5, label+n)
	}
	switch intn(t, 0, 5, label+".kind") {
	case 0: // a product of the SVG functions
		return xfMat(genXfs(t, 3))
	case 1:
		s, th := dec(t, -5, 5, label+".s"), dec(t, -7, 7, label+".th")
		return Mat{s * math.Cos(th), s * math.Sin(th), -s * math.Sin(th), s * math.Cos(th), e("e"), e("f")}
	}
	return Mat{e("a"), e("b"), e("c"), e("d"), e("e"), e("f")}
}

func genMatCase(t *rapid.T) MatCase {
	c := MatCase{A: genMat(t, "a"), B: genMat(t, "b"), C: genMat(t, "c")}
	for i := intn(t, 1, 4, "points"); i > 0; i-- {
		c.P = append(c.P, Pt{coord(t, "x"), coord(t, "y")})
	}
	c.Theta = oneOf(t, "theta.k", 0.0, math.Pi/2, math.Pi, -math.Pi/2, math.Pi/4)
	if chance(t, 3, 4, "theta.any") {
		c.Theta = dec(t, -7, 7, "theta")
	}
	c.X, c.Y = dec(t, -100, 100, "tx"), dec(t, -100, 100, "ty")
	return c
}

// absMat bounds the magnitude of every term of a product of the matrices.
func absMat(m Mat) Mat {
	return Mat{math.Abs(m.A), math.Abs(m.B), math.Abs(m.C), math.Abs(m.D), math.Abs(m.E), math.Abs(m.F)}
}

// matClose compares with a tolerance relative to a bound on the terms.
func matClose(a, b, bound Mat) bool {
	av := [6]float64{a.A, a.B, a.C, a.D, a.E, a.F}
	bv := [6]float64{b.A, b.B, b.C, b.D, b.E, b.F}
	mv := [6]float64{bound.A, bound.B, bound.C, bound.D, bound.E, bound.F}
	for i := range av {
		if !(math.Abs(av[i]-bv[i]) <= 1e-12+1e-12*mv[i]) {
			return false
		}
	}
	return true
}

func checkMat(c MatCase, r *Rec) error {
	a, b, d := toSvgMat(c.A), toSvgMat(c.B), toSvgMat(c.C)
	a0, b0 := a, b
	r.NonTrivial(c.A != Mat{} && c.B != Mat{})
	bound := absMat(c.A).mul(absMat(c.B))
	ab := a.Mult(b)
	if !matClose(toMat(ab), c.A.mul(c.B), bound) {
		return fmt.Errorf("Mult(%v, %v) = %v, want %v", a, b, ab, c.A.mul(c.B))
	}
	if l, q := ab.Mult(d), a.Mult(b.Mult(d)); !matClose(toMat(l), toMat(q), bound.mul(absMat(c.C))) {
		return fmt.Errorf("(ab)c = %v, a(bc) = %v", l, q)
	}
	if svg.Identity != (svg.Matrix2D{A: 1, D: 1}) {
		return fmt.Errorf("Identity is %v", svg.Identity)
	}
	if svg.Identity.Mult(a) != a || a.Mult(svg.Identity) != a {
		return fmt.Errorf("multiplying %v with the identity changes it", a)
	}
	// the elementary transforms are applied before the matrix, as in an SVG transform list
	sin, cos := math.Sincos(c.Theta)
	type el struct {
		name string
		got  svg.Matrix2D
		e    Mat
	}
	els := []el{
		{"Translate", a.Translate(c.X, c.Y), Mat{1, 0, 0, 1, c.X, c.Y}},
		{"Scale", a.Scale(c.X, c.Y), Mat{c.X, 0, 0, c.Y, 0, 0}},
		{"Rotate", a.Rotate(c.Theta), Mat{cos, sin, -sin, cos, 0, 0}},
	}
	if math.Abs(cos) > 0.05 {
		els = append(els, el{"SkewX", a.SkewX(c.Theta), Mat{1, 0, sin / cos, 1, 0, 0}},
			el{"SkewY", a.SkewY(c.Theta), Mat{1, sin / cos, 0, 1, 0, 0}})
	}
	for _, e := range els {
		if want := c.A.mul(e.e); !matClose(toMat(e.got), want, absMat(c.A).mul(absMat(e.e))) {
			return fmt.Errorf("%v.%s: got %v, want %v (x=%v y=%v theta=%v)", a, e.name, e.got, want, c.X, c.Y, c.Theta)
		}
	}
	for _, p := range c.P {
		x, y := a.Transform(p.X, p.Y)
		q := c.A.pt(p)
		bq := absMat(c.A).pt(Pt{math.Abs(p.X), math.Abs(p.Y)})
		if !(math.Abs(x-q.X) <= 1e-12*(1+bq.X) && math.Abs(y-q.Y) <= 1e-12*(1+bq.Y)) {
			return fmt.Errorf("%v.Transform(%v) = %v,%v, want %v", a, p, x, y, q)
		}
		vx, vy := a.TransformVector(p.X, p.Y)
		if !(math.Abs(vx+c.A.E-q.X) <= 1e-12*(1+bq.X) && math.Abs(vy+c.A.F-q.Y) <= 1e-12*(1+bq.Y)) {
			return fmt.Errorf("%v.TransformVector(%v) = %v,%v, want %v without the translation", a, p, vx, vy, q)
		}
		// composition: (ab)p = a(bp)
		x1, y1 := ab.Transform(p.X, p.Y)
		x2, y2 := a.Transform(b.Transform(p.X, p.Y))
		bb := bound.pt(Pt{math.Abs(p.X), math.Abs(p.Y)})
		if !(math.Abs(x1-x2) <= 1e-11*(1+bb.X) && math.Abs(y1-y2) <= 1e-11*(1+bb.Y)) {
			return fmt.Errorf("(ab)p = %v,%v, a(bp) = %v,%v for a=%v b=%v p=%v", x1, y1, x2, y2, a, b, p)
		}
	}
	if a != a0 || b != b0 {
		return fmt.Errorf("operand changed")
	}
	return nil
}

func checkInvert(c MatCase, r *Rec) error {
	det := c.A.det()
	n := math.Hypot(math.Hypot(c.A.A, c.A.B), math.Hypot(c.A.C, c.A.D))
	if math.Abs(det) < 1e-6*n*n || n == 0 {
		return errSkip // (nearly) singular
	}
	r.NonTrivial(c.A.B != 0 || c.A.C != 0 || c.A.E != 0)
	a := toSvgMat(c.A)
	inv := a.Invert()
	cond := n * n / math.Abs(det)
	im := toMat(inv)
	id := Mat{1, 0, 0, 1, 0, 0}
	for i, p := range []Mat{c.A.mul(im), im.mul(c.A)} {
		bound := absMat(c.A).mul(absMat(im))
		if i == 1 {
			bound = absMat(im).mul(absMat(c.A))
		}
		tol := 1e-11 * cond * (2 + bound.A + bound.B + bound.C + bound.D + bound.E + bound.F)
		if !matNearAbs(p, id, tol) {
			return fmt.Errorf("inverse of %v is %v: the product is %v", a, inv, p)
		}
	}
	for _, p := range c.P {
		x, y := inv.Transform(a.Transform(p.X, p.Y))
		if !(math.Abs(x-p.X) <= 1e-9*cond*(1+n+1/n)*(1000+math.Abs(p.X)+math.Abs(p.Y)+math.Abs(c.A.E)+math.Abs(c.A.F)) &&
			math.Abs(y-p.Y) <= 1e-9*cond*(1+n+1/n)*(1000+math.Abs(p.X)+math.Abs(p.Y)+math.Abs(c.A.E)+math.Abs(c.A.F))) {
			return fmt.Errorf("inverse of %v moves %v back to %v,%v", a, p, x, y)
		}
	}
	return nil
}

func matNearAbs(a, b Mat, tol float64) bool {
	return math.Abs(a.A-b.A) <= tol && math.Abs(a.B-b.B) <= tol && math.Abs(a.C-b.C) <= tol &&
		math.Abs(a.D-b.D) <= tol && math.Abs(a.E-b.E) <= tol && math.Abs(a.F-b.F) <= tol
}

func toFix(p Pt) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(p.X * 64), Y: fixed.Int26_6(p.Y * 64)}
}

// checkFixed: the fixed-point operations agree with Transform within 1/64.
func checkFixed(c MatCase, r *Rec) error {
	a := toSvgMat(c.A)
	var ps [6]fixed.Point26_6
	for i := range ps {
		p := c.P[i%len(c.P)]
		ps[i] = toFix(Pt{p.X + float64(i)*1.25, p.Y - float64(i)*0.75})
	}
	want := func(p fixed.Point26_6) Pt { return c.A.pt(fpt(p)) }
	for _, p := range ps {
		if w := want(p); math.Abs(w.X) > 1e6 || math.Abs(w.Y) > 1e6 {
			return errSkip // outside the range of the fixed point numbers
		}
	}
	r.NonTrivial(c.A.B != 0 || c.A.C != 0)
	type pair struct {
		name string
		got  fixed.Point26_6
		in   fixed.Point26_6
	}
	q0, q1 := a.QuadTo(svg.OpQuadTo{ps[2], ps[3]})
	c0, c1, c2 := a.CubicTo(svg.OpCubicTo{ps[3], ps[4], ps[5]})
	for _, p := range []pair{
		{"TFixed", a.TFixed(ps[0]), ps[0]},
		{"MoveTo", a.MoveTo(svg.OpMoveTo(ps[0])), ps[0]},
		{"LineTo", a.LineTo(svg.OpLineTo(ps[1])), ps[1]},
		{"QuadTo control", q0, ps[2]}, {"QuadTo end", q1, ps[3]},
		{"CubicTo control 1", c0, ps[3]}, {"CubicTo control 2", c1, ps[4]}, {"CubicTo end", c2, ps[5]},
	} {
		w, g := want(p.in), fpt(p.got)
		if !(math.Abs(w.X-g.X) <= 1.02/64 && math.Abs(w.Y-g.Y) <= 1.02/64) {
			return fmt.Errorf("%v.%s(%v) = %v, want %v", a, p.name, fpt(p.in), g, w)
		}
	}
	return nil
}

// checkWidth: line widths scale by the mean of the scales along the axes.
func checkWidth(c MatCase, r *Rec) error {
	sin, cos := math.Sincos(c.Theta)
	sx, sy := c.X, c.Y
	rot := svg.Matrix2D{A: cos, B: sin, C: -sin, D: cos, E: c.A.E, F: c.A.F}
	r.NonTrivial(sx != sy && c.Theta != 0)
	if got, want := rot.Scale(sx, sy).LineWidthScale(), (math.Abs(sx)+math.Abs(sy))/2; !relEq(got, want, 1e-9) {
		return fmt.Errorf("LineWidthScale of rotate(%v) scale(%v,%v) = %v, want %v", c.Theta, sx, sy, got, want)
	}
	if got := rot.Scale(sx, sx).Rotate(c.B.A).Translate(c.B.E, c.B.F).LineWidthScale(); !relEq(got, math.Abs(sx), 1e-9) {
		return fmt.Errorf("LineWidthScale of a similarity of factor %v = %v", sx, got)
	}
	// reflections and translations do not change it, scaling multiplies it
	a := toSvgMat(c.A)
	l := a.LineWidthScale()
	if got := a.Scale(sx, sx).LineWidthScale(); !relEq(got, l*math.Abs(sx), 1e-9) {
		return fmt.Errorf("scaling by %v changes the LineWidthScale of %v from %v to %v", sx, a, l, got)
	}
	if got := a.Translate(sx, sy).LineWidthScale(); got != l {
		return fmt.Errorf("a translation changes the LineWidthScale of %v from %v to %v", a, l, got)
	}
	if got := a.Scale(-1, 1).LineWidthScale(); !relEq(got, l, 1e-9) {
		return fmt.Errorf("a reflection changes the LineWidthScale of %v from %v to %v", a, l, got)
	}
	if got := rot.Mult(a).LineWidthScale(); !relEq(got, l, 1e-9) {
		return fmt.Errorf("a rotation changes the LineWidthScale of %v from %v to %v", a, l, got)
	}
	return nil
}

// ---- C18: options map the view box onto the target ----

type OptCase struct {
	VB      [4]float64
	Opts    []Opt
	W, H    string
	Fxs, Ys []float64 // points of the view box, as fractions
}

type Opt struct {
	Opacity bool
	V       [4]float64
}

func genOpt(t *rapid.T) OptCase {
	var c OptCase
	c.VB = [4]float64{coord(t, "vx"), coord(t, "vy"), posDec(t, 500, "vw"), posDec(t, 500, "vh")}
	switch intn(t, 0, 9, "vb.kind") {
	case 0:
		c.VB[2] = 0
	case 1:
		c.VB[3] = 0
	case 2:
		c.VB = [4]float64{}
	}
	for i := intn(t, 0, 5, "opts"); i > 0; i-- {
		if chance(t, 1, 3, "opacity") {
			c.Opts = append(c.Opts, Opt{Opacity: true, V: [4]float64{float64(intn(t, 0, 100, "o")) / 100}})
			continue
		}
		o := Opt{V: [4]float64{coord(t, "x"), coord(t, "y"), posDec(t, 1000, "w"), posDec(t, 1000, "h")}}
		if chance(t, 1, 6, "same") {
			o.V = c.VB
		}
		switch intn(t, 0, 11, "flat") {
		case 0:
			o.V[2] = 0
		case 1:
			o.V[3] = 0
		}
		c.Opts = append(c.Opts, o)
	}
	c.W, c.H = oneOf(t, "w", "", "100", "50%", "3in"), oneOf(t, "h", "", "100", "50%", "3in")
	for i := 0; i < 3; i++ {
		c.Fxs = append(c.Fxs, dec(t, -1, 2, "fx"))
		c.Ys = append(c.Ys, dec(t, -1, 2, "fy"))
	}
	return c
}

func checkOpt(c OptCase, r *Rec) error {
	s := &svg.Svg{ViewBox: svg.Bounds{X: c.VB[0], Y: c.VB[1], W: c.VB[2], H: c.VB[3]}, Transform: svg.Identity, Width: c.W, Height: c.H}
	var opts []renderer.RenderOption
	opacity, target := 1.0, (*Opt)(nil)
	for i, o := range c.Opts {
		if o.Opacity {
			opts = append(opts, renderer.Opacity(o.V[0]))
			opacity = o.V[0]
		} else {
			opts = append(opts, renderer.Target(o.V[0], o.V[1], o.V[2], o.V[3]))
			target = &c.Opts[i]
		}
	}
	r.NonTrivial(target != nil)
	r.Sample(fmt.Sprintf("viewBox %v options %v", c.VB, c.Opts))
	o := renderer.Options(s, opts...)
	if s.ViewBox != (svg.Bounds{X: c.VB[0], Y: c.VB[1], W: c.VB[2], H: c.VB[3]}) || s.Transform != svg.Identity {
		return fmt.Errorf("Options changed the image")
	}
	if o.Opacity != opacity {
		return fmt.Errorf("opacity is %v, want %v (options %v)", o.Opacity, opacity, c.Opts)
	}
	if target == nil {
		r.Label("no-target")
		if !matNearAbs(toMat(o.Target), Mat{1, 0, 0, 1, 0, 0}, 1e-12) {
			return fmt.Errorf("without a target the transform is %v, want the identity", o.Target)
		}
		return nil
	}
	tv := target.V
	sx, sy := 1.0, 1.0
	if c.VB[2] != 0 {
		sx = tv[2] / c.VB[2]
	} else {
		r.Label("no-width")
	}
	if c.VB[3] != 0 {
		sy = tv[3] / c.VB[3]
	} else {
		r.Label("no-height")
	}
	for i := range c.Fxs {
		for _, f := range []Pt{{0, 0}, {1, 1}, {1, 0}, {0, 1}, {c.Fxs[i], c.Ys[i]}} {
			w, h := c.VB[2], c.VB[3]
			if w == 0 {
				w = 10 // any distance is kept
			}
			if h == 0 {
				h = 10
			}
			px, py := c.VB[0]+f.X*w, c.VB[1]+f.Y*h
			wx, wy := tv[0]+f.X*w*sx, tv[1]+f.Y*h*sy
			x, y := o.Target.Transform(px, py)
			if !(math.Abs(x-wx) <= 1e-9*(1+math.Abs(wx)+math.Abs(px*sx)) && math.Abs(y-wy) <= 1e-9*(1+math.Abs(wy)+math.Abs(py*sy))) {
				return fmt.Errorf("view box %v, target %v: point %v,%v is drawn at %v,%v, want %v,%v", c.VB, tv, px, py, x, y, wx, wy)
			}
		}
	}
	return nil
}

func init() {
	register("C10",
		NewSub("algebra", 300000, 6000000, "both operands are not zero", genMatCase, checkMat),
		NewSub("inverse", 150000, 3000000, "regular matrices that are not a pure scale", genMatCase, checkInvert),
		NewSub("fixed-point", 150000, 3000000, "matrices that rotate or skew", genMatCase, checkFixed),
		NewSub("line-width", 150000, 3000000, "rotation with different scales along the axes", genMatCase, checkWidth),
	)
	register("C18", NewSub("options", 400000, 8000000, "a target is given", genOpt, checkOpt))
}
