package main

import (
	"fmt"
	"image/color"
	"math"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"golang.org/x/image/math/fixed"
	"pgregory.net/rapid"
)

// ---- scenes built through the public types ----

// PElem is one path with its style; the coordinates are multiples of 1/64.
type PElem struct {
	Ops []Op
	St  RStyle
}

// Scene is a list of elements with the options of the renderer.
type Scene struct {
	W, H    int
	Bg      [4]uint8
	VB      [4]float64
	Target  []float64 // nil: default
	Opacity float64
	Elems   []PElem
	Masks   map[string][]PElem
	Phase   int
}

func (s *Scene) bg() color.NRGBA { return color.NRGBA{s.Bg[0], s.Bg[1], s.Bg[2], s.Bg[3]} }

func (s *Scene) target() Mat {
	if s.Target == nil {
		return idMat
	}
	sx, sy := 1.0, 1.0
	if s.VB[2] != 0 {
		sx = s.Target[2] / s.VB[2]
	}
	if s.VB[3] != 0 {
		sy = s.Target[3] / s.VB[3]
	}
	return Mat{sx, 0, 0, sy, s.Target[0] - s.VB[0]*sx, s.Target[1] - s.VB[1]*sy}
}

func (s *Scene) opts() []renderer.RenderOption {
	var o []renderer.RenderOption
	if s.Target != nil {
		o = append(o, renderer.Target(s.Target[0], s.Target[1], s.Target[2], s.Target[3]))
	}
	if s.Opacity != 1 {
		o = append(o, renderer.Opacity(s.Opacity))
	}
	return o
}

func fixPt(p Pt) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(math.Round(p.X * 64)), Y: fixed.Int26_6(math.Round(p.Y * 64))}
}

func opsPath(ops []Op) svg.Path {
	var p svg.Path
	for _, o := range ops {
		switch o.K {
		case 'M':
			p.Start(fixPt(o.P[0]))
		case 'L':
			p.Line(fixPt(o.P[0]))
		case 'Q':
			p.QuadBezier(fixPt(o.P[0]), fixPt(o.P[1]))
		case 'C':
			p.CubeBezier(fixPt(o.P[0]), fixPt(o.P[1]), fixPt(o.P[2]))
		case 'Z':
			p.Stop(true)
		}
	}
	return p
}

func opsSegs(ops []Op) []Seg {
	var out []Seg
	var start Pt
	for _, o := range ops {
		switch o.K {
		case 'M':
			start = o.P[0]
			out = append(out, Seg{K: 'M', P: o.P})
		case 'Z':
			out = append(out, Seg{K: 'Z', P: []Pt{start}})
		default:
			out = append(out, Seg{K: o.K, P: o.P})
		}
	}
	return out
}

func paintPattern(p RPaint) svg.Pattern {
	switch {
	case p.None:
		return nil
	case p.Grad != nil:
		return p.Grad.pattern()
	}
	return svg.NewPlainColor(uint8(p.RGB[0]), uint8(p.RGB[1]), uint8(p.RGB[2]), 0xff)
}

func (g *RGrad) pattern() svg.Gradient {
	out := svg.Gradient{Matrix: toSvgMat(g.M), Spread: svg.SpreadMethod(g.Spread)}
	if g.User {
		out.Units = svg.UserSpaceOnUse
	}
	if g.Radial {
		var r svg.Radial
		copy(r[:], g.Dir)
		out.Direction = r
	} else {
		var l svg.Linear
		copy(l[:], g.Dir)
		out.Direction = l
	}
	for _, s := range g.Stops {
		out.Stops = append(out.Stops, svg.GradStop{StopColor: color.NRGBA{uint8(s.RGB[0]), uint8(s.RGB[1]), uint8(s.RGB[2]), 0xff}, Offset: s.Off, Opacity: s.Opa})
	}
	return out
}

func (e *PElem) svgPath() svg.SvgPath {
	st := e.St
	return svg.SvgPath{Path: opsPath(e.Ops), Style: svg.PathStyle{
		FillOpacity: st.FillOp, LineOpacity: st.StrokeOp, LineWidth: st.Width, UseNonZeroWinding: st.NonZero,
		Join:        svg.JoinOptions{MiterLimit: fixed.Int26_6(st.Miter * 64), LineJoin: st.Join, TrailLineCap: st.Cap, LeadLineCap: st.Lead, LineGap: st.Gap},
		Dash:        svg.DashOptions{Dash: append([]float64(nil), st.Dash...), DashOffset: st.DashOff},
		FillerColor: paintPattern(st.Fill), LinerColor: paintPattern(st.Stroke),
		Masks: append([]string(nil), st.Masks...), Transform: toSvgMat(st.M),
	}}
}

func (s *Scene) svg() *svg.Svg {
	out := &svg.Svg{ViewBox: svg.Bounds{X: s.VB[0], Y: s.VB[1], W: s.VB[2], H: s.VB[3]}, Transform: svg.Identity, SvgMasks: map[string]*svg.SvgMask{}}
	for i := range s.Elems {
		out.SvgPaths = append(out.SvgPaths, s.Elems[i].svgPath())
	}
	for id, es := range s.Masks {
		m := &svg.SvgMask{ID: id, Transform: svg.Identity}
		for i := range es {
			m.SvgPaths = append(m.SvgPaths, es[i].svgPath())
		}
		out.SvgMasks[id] = m
	}
	return out
}

func (s *Scene) layers(kind string) []layer {
	var out []layer
	for i := range s.Elems {
		out = append(out, s.elemLayers(kind, &s.Elems[i])...)
	}
	return out
}

func (s *Scene) elemLayers(kind string, e *PElem) []layer {
	t := s.target()
	ls := modelElem(kind, opsSegs(e.Ops), &e.St, t, s.Opacity)
	if n := len(e.St.Masks); n > 0 && kind == kGG {
		if es, ok := s.Masks[e.St.Masks[n-1]]; ok {
			var ms []layer
			for i := range es {
				ms = append(ms, modelElem(kind, opsSegs(es[i].Ops), &es[i].St, t.mul(e.St.M), 1)...)
			}
			for i := range ls {
				ls[i].mask, ls[i].masked = ms, true
			}
		}
	}
	return ls
}

// ---- generators ----

type sceneOpt struct {
	elems        int
	fill, stroke int // chances out of 10
	dash         int
	curves       bool
	masks        bool
	grad         bool
	shear        bool
	tidy         bool
}

func q64(p Pt) Pt { return Pt{math.Round(p.X*64) / 64, math.Round(p.Y*64) / 64} }

func (m Mat) inv() Mat {
	d := m.det()
	return Mat{m.D / d, -m.B / d, -m.C / d, m.A / d, (m.C*m.F - m.D*m.E) / d, (m.B*m.E - m.A*m.F) / d}
}

func genPlace(t *rapid.T, shear bool) Mat {
	switch intn(t, 0, 7, "xf") {
	case 0, 1:
		return idMat
	case 2:
		return Mat{1, 0, 0, 1, dec(t, -60, 60, "tx"), dec(t, -60, 60, "ty")}
	case 3:
		k := oneOf(t, "k", 0.5, 2, 3, 0.25, 1.5, -1, 4)
		return Mat{k, 0, 0, k, dec(t, -60, 60, "tx"), dec(t, -60, 60, "ty")}
	case 4:
		return Mat{oneOf(t, "kx", 0.5, 2, 3, -1.5), 0, 0, oneOf(t, "ky", 0.5, 2, 1, -1), dec(t, -20, 20, "tx"), dec(t, -20, 20, "ty")}
	case 5, 6:
		th := float64(intn(t, -180, 180, "deg")) * math.Pi / 180
		k := oneOf(t, "k", 1.0, 1, 0.5, 2)
		return Mat{k * math.Cos(th), k * math.Sin(th), -k * math.Sin(th), k * math.Cos(th), dec(t, -20, 20, "tx"), dec(t, -20, 20, "ty")}
	default:
		if !shear {
			return idMat
		}
		a, b := float64(intn(t, -45, 45, "skx"))*math.Pi/180, oneOf(t, "sky", 0.0, 0, 0.3)
		return Mat{1, b, math.Tan(a), 1, 0, 0}
	}
}

func genDevPt(t *rapid.T, w, h int) Pt {
	return Pt{dec(t, -8, w+8, "x"), dec(t, -8, h+8, "y")}
}

// genTidy draws a subpath of long edges without sharp turns, in device space.
func genTidy(t *rapid.T, w, h int, curves bool) []Op {
	at := Pt{float64(intn(t, 0, w, "x")), float64(intn(t, 0, h, "y"))}
	if chance(t, 1, 3, "regular") { // a regular polygon
		n, r, th := intn(t, 3, 7, "corners"), dec(t, 14, 36, "r"), dec(t, 0, 6, "th")
		var out []Op
		for i := 0; i < n; i++ {
			a := th + 2*math.Pi*float64(i)/float64(n)
			k := byte('L')
			if i == 0 {
				k = 'M'
			}
			out = append(out, Op{k, []Pt{{at.X + r*math.Cos(a), at.Y + r*math.Sin(a)}}})
		}
		if chance(t, 2, 3, "close") {
			out = append(out, Op{'Z', nil})
		}
		return out
	}
	// a walk that starts towards the middle
	th := math.Atan2(float64(h)/2-at.Y, float64(w)/2-at.X)
	out := []Op{{'M', []Pt{at}}}
	for n := oneOf(t, "edges", 1, 2, 2, 3, 3, 4, 5); n > 0; n-- {
		l := float64(intn(t, 14, 50, "len"))
		to := func(a Pt, th, l float64) Pt { return a.add(Pt{math.Cos(th) * l, math.Sin(th) * l}) }
		turn := float64(intn(t, -110, 110, "turn")) * math.Pi / 180
		if curves && chance(t, 1, 3, "curve") {
			a, b := to(at, th, l/3), to(to(at, th, l/3), th+turn/4, l/3)
			at = to(b, th+turn/2, l/3)
			out = append(out, Op{'C', []Pt{a, b, at}})
			th += turn / 2
			continue
		}
		at = to(at, th, l)
		out = append(out, Op{'L', []Pt{at}})
		th += turn
	}
	return out
}

// genOps draws subpaths in device space.
func genOps(t *rapid.T, w, h int, curves, tidy bool) []Op {
	var out []Op
	pt := func() Pt { return genDevPt(t, w, h) }
	for n := oneOf(t, "subpaths", 1, 1, 1, 2, 2, 3); n > 0; n-- {
		kind := intn(t, 0, 9, "form")
		switch {
		case tidy && chance(t, 2, 3, "tidy"):
			out = append(out, genTidy(t, w, h, curves)...)
		case kind <= 1: // rectangle, either direction
			a, b := pt(), pt()
			ps := []Pt{a, {b.X, a.Y}, b, {a.X, b.Y}}
			out = append(out, Op{'M', ps[:1]}, Op{'L', ps[1:2]}, Op{'L', ps[2:3]}, Op{'L', ps[3:4]}, Op{'Z', nil})
		case kind == 2: // star
			c, r, th := pt(), dec(t, 10, 36, "r"), dec(t, 0, 6, "th")
			for i := 0; i < 5; i++ {
				a := th + float64(i)*4*math.Pi/5
				k := byte('L')
				if i == 0 {
					k = 'M'
				}
				out = append(out, Op{k, []Pt{{c.X + r*math.Cos(a), c.Y + r*math.Sin(a)}}})
			}
			if chance(t, 3, 4, "close") {
				out = append(out, Op{'Z', nil})
			}
		case kind == 4 && curves: // a loop that ends where it starts
			a := q64(pt())
			switch intn(t, 0, 3, "lead-in") {
			case 0:
				out = append(out, Op{'M', []Pt{pt()}}, Op{'L', []Pt{a}})
			case 1:
				out = append(out, Op{'M', []Pt{pt()}}, Op{'Q', []Pt{pt(), a}})
			default:
				out = append(out, Op{'M', []Pt{a}})
			}
			out = append(out, Op{'C', []Pt{pt(), pt(), a}})
			if chance(t, 1, 3, "on") {
				out = append(out, Op{'C', []Pt{pt(), pt(), a}})
			}
		case kind == 3 && curves: // circle
			c, r := pt(), dec(t, 6, 34, "r")
			k := r * 0.5522847498
			out = append(out, Op{'M', []Pt{{c.X + r, c.Y}}},
				Op{'C', []Pt{{c.X + r, c.Y + k}, {c.X + k, c.Y + r}, {c.X, c.Y + r}}},
				Op{'C', []Pt{{c.X - k, c.Y + r}, {c.X - r, c.Y + k}, {c.X - r, c.Y}}},
				Op{'C', []Pt{{c.X - r, c.Y - k}, {c.X - k, c.Y - r}, {c.X, c.Y - r}}},
				Op{'C', []Pt{{c.X + k, c.Y - r}, {c.X + r, c.Y - k}, {c.X + r, c.Y}}}, Op{'Z', nil})
		default:
			out = append(out, Op{'M', []Pt{pt()}})
			for k := oneOf(t, "segments", 1, 2, 2, 3, 4, 6); k > 0; k-- {
				switch {
				case curves && chance(t, 1, 5, "cubic"):
					out = append(out, Op{'C', []Pt{pt(), pt(), pt()}})
				case curves && chance(t, 1, 5, "quad"):
					out = append(out, Op{'Q', []Pt{pt(), pt()}})
				default:
					out = append(out, Op{'L', []Pt{pt()}})
				}
			}
			if chance(t, 1, 2, "close") {
				out = append(out, Op{'Z', nil})
			}
		}
	}
	return out
}

func mapOps(ops []Op, m Mat) []Op {
	out := make([]Op, len(ops))
	for i, o := range ops {
		out[i].K = o.K
		for _, p := range o.P {
			out[i].P = append(out[i].P, q64(m.pt(p)))
		}
	}
	return out
}

func genRGB(t *rapid.T, label string) [3]int {
	if chance(t, 1, 2, label+".pure") {
		return oneOf(t, label, [3]int{255, 0, 0}, [3]int{0, 255, 0}, [3]int{0, 0, 255}, [3]int{0, 0, 0}, [3]int{255, 255, 255}, [3]int{255, 128, 0})
	}
	return [3]int{intn(t, 0, 255, label+".r"), intn(t, 0, 255, label+".g"), intn(t, 0, 255, label+".b")}
}

func genAlpha(t *rapid.T, label string) float64 {
	return oneOf(t, label, 1.0, 1, 1, 0.5, 0.25, 0.8, 0)
}

func genElem(t *rapid.T, s *Scene, o sceneOpt) PElem {
	e := PElem{St: defaultRStyle()}
	st := &e.St
	st.M = genPlace(t, o.shear)
	dev := s.target().mul(st.M)
	e.Ops = mapOps(genOps(t, s.W, s.H, o.curves, o.tidy), dev.inv())
	st.NonZero = !chance(t, 1, 2, "evenodd")
	st.Fill = RPaint{None: !chance(t, o.fill, 10, "fill"), RGB: genRGB(t, "fill")}
	st.FillOp = genAlpha(t, "fill-opacity")
	st.Stroke = RPaint{None: true}
	if o.grad && !st.Fill.None && chance(t, 8, 10, "gradient") {
		st.Fill.Grad = genRGrad(t, s, st.M)
	}
	if chance(t, o.stroke, 10, "stroke") {
		st.Stroke = RPaint{RGB: genRGB(t, "stroke")}
		if o.grad && chance(t, 1, 2, "stroke-gradient") {
			st.Stroke.Grad = genRGrad(t, s, st.M)
		}
		st.StrokeOp = genAlpha(t, "stroke-opacity")
		sc := lineScale(dev)
		wide := 16
		if o.tidy && chance(t, 1, 2, "thin") {
			wide = 7
		}
		st.Width = math.Round(dec(t, 1, wide, "width")/sc*1000) / 1000
		st.Cap = oneOf(t, "cap", svg.ButtCap, svg.ButtCap, svg.RoundCap, svg.SquareCap, svg.NilCap)
		st.Join = oneOf(t, "join", svg.Bevel, svg.Bevel, svg.Miter, svg.Round, svg.Miter, svg.Round, svg.Arc, svg.MiterClip, svg.ArcClip)
		st.Miter = oneOf(t, "miter", 4.0, 4, 1, 2, 1.5, 10)
		st.Lead = oneOf(t, "lead", svg.NilCap, svg.NilCap, svg.NilCap, svg.ButtCap, svg.RoundCap, svg.SquareCap)
		if chance(t, o.dash, 10, "dash") {
			for n := intn(t, 1, 4, "dashes"); n > 0; n-- {
				st.Dash = append(st.Dash, math.Round(dec(t, 5, 25, "len")/sc*1000)/1000)
			}
			st.DashOff = math.Round(dec(t, -30, 60, "off")/sc*1000) / 1000
			if chance(t, 1, 2, "no-offset") {
				st.DashOff = 0
			}
		}
	}
	return e
}

// genRGrad draws a gradient whose vector lies near the image.
func genRGrad(t *rapid.T, s *Scene, m Mat) *RGrad {
	g := &RGrad{Radial: chance(t, 2, 5, "radial"), User: chance(t, 1, 2, "user"), M: idMat, Spread: intn(t, 0, 2, "spread")}
	if chance(t, 1, 3, "matrix") {
		k := oneOf(t, "gk", 1.0, 2, 0.5)
		g.M = Mat{k, 0, 0, k, dec(t, -1, 1, "gx"), dec(t, -1, 1, "gy")}
		if g.User {
			g.M.E, g.M.F = g.M.E*20, g.M.F*20
		}
		if !g.Radial && chance(t, 1, 2, "grot") {
			th := float64(intn(t, -180, 180, "gdeg")) * math.Pi / 180
			g.M = g.M.mul(Mat{math.Cos(th), math.Sin(th), -math.Sin(th), math.Cos(th), 0, 0})
		}
	}
	var a, b, f Pt
	r := 0.0
	if g.User {
		inv := s.target().mul(m).inv()
		pt := func(label string) Pt { return inv.pt(Pt{dec(t, 0, s.W, label+"x"), dec(t, 0, s.H, label+"y")}) }
		a, b = pt("a"), pt("b")
		r = dec(t, 5, 50, "r") / math.Sqrt(math.Abs(s.target().mul(m).det()))
	} else {
		a = Pt{dec(t, 0, 1, "ax"), dec(t, 0, 1, "ay")}
		b = Pt{dec(t, 0, 1, "bx"), dec(t, 0, 1, "by")}
		switch intn(t, 0, 2, "axis") {
		case 1:
			b.Y = a.Y
		case 2:
			b.X = a.X
		}
		r = float64(intn(t, 20, 120, "r")) / 100
	}
	if g.Radial {
		f = a
		if chance(t, 1, 2, "focal") {
			th, k := dec(t, 0, 6, "fth"), float64(intn(t, 0, 80, "fk"))/100
			f = a.add(Pt{math.Cos(th) * r * k, math.Sin(th) * r * k})
		}
		g.Dir = []float64{a.X, a.Y, f.X, f.Y, r, 0}
	} else {
		g.Dir = []float64{a.X, a.Y, b.X, b.Y}
	}
	n := intn(t, 2, 5, "stops")
	off := 0.0
	for i := 0; i < n; i++ {
		off = math.Min(1, off+float64(intn(t, 0, 60, "off"))/100)
		if i == 0 && (g.Spread == int(svg.RepeatSpread) || chance(t, 1, 2, "from0")) {
			off = 0
		}
		if i == n-1 && (g.Spread == int(svg.RepeatSpread) || chance(t, 1, 2, "to1")) {
			off = 1
		}
		g.Stops = append(g.Stops, RStop{Off: off, Opa: oneOf(t, "stop-opacity", 1.0, 1, 1, 0.5, 0.2, 0), RGB: genRGB(t, "stop")})
	}
	return g
}

// genMask gives the element a mask: its own, one of an earlier element, or one that does not exist.
func genMask(t *rapid.T, s *Scene, e *PElem, o sceneOpt) {
	switch k := intn(t, 0, 9, "mask"); {
	case k == 0:
		return
	case k == 1:
		e.St.Masks = []string{"missing"}
		return
	case k == 2 && len(s.Masks) > 0:
		e.St.Masks = []string{"m0"}
		return
	}
	if s.Masks == nil {
		s.Masks = map[string][]PElem{}
	}
	id := fmt.Sprintf("m%d", len(s.Masks))
	o.masks, o.stroke, o.dash, o.fill = false, 2, 0, 9
	base := s.target().mul(e.St.M)
	var es []PElem
	for n := oneOf(t, "mask-elems", 1, 1, 2, 3, 0); n > 0; n-- {
		m := genElem(t, s, o)
		m.Ops = mapOps(genOps(t, s.W, s.H, o.curves, false), base.mul(m.St.M).inv())
		if chance(t, 1, 2, "white") {
			m.St.Fill.RGB = [3]int{255, 255, 255}
		}
		es = append(es, m)
	}
	s.Masks[id] = es
	e.St.Masks = []string{id}
	if chance(t, 1, 4, "outer") {
		e.St.Masks = []string{"outer", id}
	}
}

func genScene(o sceneOpt) func(t *rapid.T) *Scene {
	return func(t *rapid.T) *Scene {
		s := &Scene{W: 64, H: 64, Opacity: 1, VB: [4]float64{0, 0, 64, 64}, Bg: [4]uint8{255, 255, 255, 255}}
		if chance(t, 1, 2, "size") {
			s.W, s.H = intn(t, 20, 90, "w"), intn(t, 20, 90, "h")
		}
		switch intn(t, 0, 4, "bg") {
		case 0:
			s.Bg = [4]uint8{}
		case 1:
			c := genRGB(t, "bg")
			s.Bg = [4]uint8{uint8(c[0]), uint8(c[1]), uint8(c[2]), 255}
		}
		if chance(t, 2, 5, "target") {
			s.VB = [4]float64{dec(t, -50, 50, "vx"), dec(t, -50, 50, "vy"), dec(t, 10, 150, "vw"), dec(t, 10, 150, "vh")}
			k := oneOf(t, "tk", 1.0, 2, 0.5, 0.75)
			s.Target = []float64{dec(t, -20, 20, "x"), dec(t, -20, 20, "y"), s.VB[2] * k, s.VB[3] * k}
			if chance(t, 1, 2, "fit") {
				s.Target = []float64{0, 0, float64(s.W), float64(s.H)}
			}
		} else if chance(t, 1, 3, "vb") {
			s.VB = [4]float64{dec(t, -50, 50, "vx"), dec(t, -50, 50, "vy"), dec(t, 0, 150, "vw"), dec(t, 0, 150, "vh")}
		}
		if chance(t, 1, 4, "opacity") {
			s.Opacity = float64(intn(t, 0, 100, "o")) / 100
		}
		for n := intn(t, 1, o.elems, "elems"); n > 0; n-- {
			e := genElem(t, s, o)
			if o.masks {
				genMask(t, s, &e, o)
			}
			s.Elems = append(s.Elems, e)
		}
		s.Phase = intn(t, 0, 30, "phase")
		return s
	}
}

// genMany draws many small shapes: as the subpaths of one element, as one long subpath, as
// many elements, or as the elements of a mask.
func genMany(kind string) func(t *rapid.T) *Scene {
	return func(t *rapid.T) *Scene {
		s := &Scene{W: intn(t, 50, 100, "w"), H: intn(t, 50, 100, "h"), Opacity: 1, VB: [4]float64{0, 0, 64, 64}, Bg: [4]uint8{255, 255, 255, 255}}
		modes := []string{"subpaths", "comb", "elements"}
		if kind == kGG {
			modes = append(modes, "mask")
		}
		mode := oneOf(t, "mode", modes...)
		n := intn(t, 1, 120, "n")
		if mode == "mask" {
			n = intn(t, 1, 20, "n")
		}
		rnd := uint64(intn(t, 0, 1<<30, "seed"))
		next := func(k int) int {
			rnd += 0x9e3779b97f4a7c15
			z := (rnd ^ rnd>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			return int((z ^ z>>31) % uint64(k))
		}
		cols := (s.W - 4) / 8
		rows := (s.H - 4) / 8
		cell := func(i int) []Op {
			x, y := float64(2+i%cols*8), float64(2+i/cols%rows*8)
			if next(3) == 0 {
				return []Op{{'M', []Pt{{x, y}}}, {'L', []Pt{{x + 7, y}}}, {'L', []Pt{{x, y + 7}}}, {'Z', nil}}
			}
			ops := []Op{{'M', []Pt{{x, y}}}, {'L', []Pt{{x + 6, y}}}, {'L', []Pt{{x + 6, y + 6}}}, {'L', []Pt{{x, y + 6}}}}
			if next(2) == 0 {
				ops = append(ops, Op{'Z', nil})
			}
			return ops
		}
		elem := func(ops []Op, m Mat) PElem {
			e := PElem{St: defaultRStyle(), Ops: mapOps(ops, m.inv())}
			e.St.M = m
			e.St.NonZero = next(2) == 0
			e.St.Fill = RPaint{RGB: [3]int{next(256), next(256), next(256)}}
			e.St.FillOp = 1
			e.St.Stroke = RPaint{None: true}
			return e
		}
		m := genPlace(t, false)
		var ops []Op
		first := next(cols * rows)
		switch mode {
		case "subpaths":
			for i := 0; i < n; i++ {
				ops = append(ops, cell(first+i)...)
			}
			s.Elems = []PElem{elem(ops, m)}
		case "comb":
			ops = []Op{{'M', []Pt{{2, float64(s.H) - 2}}}}
			w := 5 + float64(next(4))
			x := 2.0
			for i := 0; i < n; i++ {
				if x+2*w > float64(s.W) {
					w, x = w+1, x-w // back again, over it
					if x < 10 {
						break
					}
					x = 2
				}
				y := 3 + float64(next(s.H/2))
				ops = append(ops, Op{'L', []Pt{{x, y}}}, Op{'L', []Pt{{x + w, y}}}, Op{'L', []Pt{{x + w, float64(s.H) * 0.7}}}, Op{'L', []Pt{{x + 2*w - 1, float64(s.H) * 0.7}}})
				x += 2 * w
			}
			ops = append(ops, Op{'L', []Pt{{x, float64(s.H) - 2}}})
			s.Elems = []PElem{elem(ops, m)}
		case "elements":
			for i := 0; i < n; i++ {
				s.Elems = append(s.Elems, elem(cell(first+i), m))
			}
		case "mask":
			e := elem([]Op{{'M', []Pt{{0, 0}}}, {'L', []Pt{{float64(s.W), 0}}}, {'L', []Pt{{float64(s.W), float64(s.H)}}}, {'L', []Pt{{0, float64(s.H)}}}, {'Z', nil}}, m)
			var es []PElem
			for i := 0; i < n; i++ {
				c := elem(mapOps(cell(first+i), m.inv()), idMat)
				if next(2) == 0 {
					c.St.Fill.RGB = [3]int{255, 255, 255}
				}
				es = append(es, c)
			}
			s.Masks = map[string][]PElem{"m0": es}
			e.St.Masks = []string{"m0"}
			s.Elems = []PElem{e}
		}
		if mode != "mask" && mode != "comb" && chance(t, 1, 3, "outlines") {
			for i := range s.Elems {
				st := &s.Elems[i].St
				st.Stroke, st.StrokeOp, st.Width = RPaint{RGB: genRGB(t, "stroke")}, 1, 1.5/lineScale(st.M)
				st.Fill.None = next(2) == 0
				st.Join, st.Cap = svg.Bevel, svg.ButtCap
			}
		}
		s.Phase = intn(t, 0, 30, "phase")
		return s
	}
}

func (s *Scene) describe() string {
	out := fmt.Sprintf("%dx%d bg %v viewBox %v target %v opacity %v", s.W, s.H, s.Bg, s.VB, s.Target, s.Opacity)
	for _, e := range s.Elems {
		st := e.St
		out += fmt.Sprintf("\n  %s\n   fill %v/%v nonzero %v", opsString(e.Ops), st.Fill, st.FillOp, st.NonZero)
		for _, p := range []RPaint{st.Fill, st.Stroke} {
			if p.Grad != nil {
				out += fmt.Sprintf(" gradient %+v", *p.Grad)
			}
		}
		if !st.Stroke.None {
			out += fmt.Sprintf(" stroke %v/%v width %v cap %v/%v join %v miter %v dash %v/%v", st.Stroke, st.StrokeOp, st.Width, st.Cap, st.Lead, st.Join, st.Miter, st.Dash, st.DashOff)
		}
		out += fmt.Sprintf(" transform %v", st.M)
		if len(st.Masks) > 0 {
			out += fmt.Sprintf(" masks %v", st.Masks)
		}
	}
	for id, es := range s.Masks {
		for _, e := range es {
			out += fmt.Sprintf("\n  mask %s: %s fill %v/%v stroke %v/%v width %v transform %v", id, opsString(e.Ops), e.St.Fill, e.St.FillOp, e.St.Stroke, e.St.StrokeOp, e.St.Width, e.St.M)
		}
	}
	return out
}

func (s *Scene) label(r *Rec) {
	for _, e := range s.Elems {
		if !e.St.Fill.None && !e.St.NonZero {
			r.Label("even-odd")
		}
		if !e.St.Stroke.None {
			r.Label("stroke")
			if len(e.St.Dash) > 0 {
				r.Label("dashed")
			}
		}
		if e.St.M != idMat {
			r.Label("transformed")
		}
		if len(e.St.Masks) > 0 {
			r.Label("masked")
		}
	}
	if s.Target != nil {
		r.Label("target")
	}
}

func checkScene(kind string) func(s *Scene, r *Rec) error {
	return func(s *Scene, r *Rec) error {
		im, err := render(kind, s.svg(), s.W, s.H, s.bg(), s.opts()...)
		if err != nil {
			return fmt.Errorf("Draw: %v\n%s", err, s.describe())
		}
		st, err := comparePix(im, s.layers(kind), s.bg(), 3, s.Phase, 3)
		r.NonTrivial(st.painted >= 5 && st.known-st.painted >= 5)
		r.Sample(s.describe())
		s.label(r)
		if err != nil {
			return fmt.Errorf("%s: %v\n%s", kind, err, s.describe())
		}
		return nil
	}
}

// ---- ink: the area and the centre of what is painted ----

// genInk draws one simple shape or one straight line, entirely inside of the image, down to a
// fraction of a pixel in size.
func genInk(t *rapid.T) *Scene {
	s := &Scene{W: 64, H: 64, Opacity: 1, VB: [4]float64{0, 0, 64, 64}, Bg: [4]uint8{255, 255, 255, 255}}
	if chance(t, 1, 3, "target") {
		k := oneOf(t, "tk", 2.0, 0.5, 0.25, 8)
		s.VB = [4]float64{dec(t, -50, 50, "vx"), dec(t, -50, 50, "vy"), 64 / k, 64 / k}
		s.Target = []float64{0, 0, 64, 64}
		if chance(t, 1, 2, "stretch") {
			s.VB[2] *= oneOf(t, "sx", 2.0, 0.5)
		}
	}
	e := PElem{St: defaultRStyle()}
	st := &e.St
	st.Stroke, st.Fill = RPaint{None: true}, RPaint{None: true}
	st.M = genPlace(t, true)
	st.NonZero = !chance(t, 1, 2, "evenodd")
	dev := s.target().mul(st.M)
	r := float64(intn(t, 1, 28*16, "r")) / 16
	if chance(t, 1, 2, "small") {
		r = float64(intn(t, 8, 64, "r.small")) / 16
	}
	at := func(label string) Pt {
		k := 31 - r
		return Pt{32 + k*float64(intn(t, -100, 100, label+"x"))/100, 32 + k*float64(intn(t, -100, 100, label+"y"))/100}
	}
	var ops []Op
	if chance(t, 1, 2, "line") {
		r = math.Min(r+2, 27)
		c, th := at("c"), dec(t, 0, 6, "th")
		d := Pt{r * math.Cos(th), r * math.Sin(th)}
		ops = []Op{{'M', []Pt{c.sub(d)}}, {'L', []Pt{c.add(d)}}}
		st.Stroke = RPaint{}
		st.StrokeOp = oneOf(t, "stroke-opacity", 1.0, 1, 0.5, 0.75)
		st.Cap, st.Lead = oneOf(t, "cap", svg.ButtCap, svg.NilCap), svg.NilCap
		st.Width = math.Round(float64(intn(t, 6, 128, "width"))/64/lineScale(dev)*10000) / 10000
	} else {
		st.Fill = RPaint{}
		st.FillOp = oneOf(t, "fill-opacity", 1.0, 1, 0.5, 0.75)
		c := at("c")
		switch n := intn(t, 2, 7, "corners"); n {
		case 2:
			k := r * 0.5522847498
			ops = []Op{{'M', []Pt{{c.X + r, c.Y}}},
				{'C', []Pt{{c.X + r, c.Y + k}, {c.X + k, c.Y + r}, {c.X, c.Y + r}}},
				{'C', []Pt{{c.X - k, c.Y + r}, {c.X - r, c.Y + k}, {c.X - r, c.Y}}},
				{'C', []Pt{{c.X - r, c.Y - k}, {c.X - k, c.Y - r}, {c.X, c.Y - r}}},
				{'C', []Pt{{c.X + k, c.Y - r}, {c.X + r, c.Y - k}, {c.X + r, c.Y}}}}
		default:
			th := dec(t, 0, 6, "th")
			p := func(i int) Pt {
				a := th + 2*math.Pi*float64(i)/float64(n)
				return Pt{c.X + r*math.Cos(a), c.Y + r*math.Sin(a)}
			}
			ops = []Op{{'M', []Pt{p(0)}}}
			for i := 1; i < n; i++ {
				a, b := p(i-1), p(i)
				switch intn(t, 0, 7, "edge") { // curves with control points at their ends are straight
				case 0:
					ops = append(ops, Op{'C', []Pt{a, b, b}})
				case 1:
					ops = append(ops, Op{'C', []Pt{b, b, b}})
				case 2:
					ops = append(ops, Op{'C', []Pt{a, a, b}})
				case 3:
					ops = append(ops, Op{'Q', []Pt{{(a.X + b.X) / 2, (a.Y + b.Y) / 2}, b}})
				case 4: // bent inwards, the first or the second control point at an end
					ops = append(ops, Op{'C', []Pt{b, {(b.X + c.X) / 2, (b.Y + c.Y) / 2}, b}})
				case 5:
					ops = append(ops, Op{'C', []Pt{a, {(a.X + b.X + c.X) / 3, (a.Y + b.Y + c.Y) / 3}, b}})
				default:
					ops = append(ops, Op{'L', []Pt{b}})
				}
			}
		}
		if chance(t, 1, 2, "close") {
			ops = append(ops, Op{'Z', nil})
		}
	}
	e.Ops = mapOps(ops, dev.inv())
	s.Elems = []PElem{e}
	return s
}

// outline samples the device outline of the operations of one subpath.
func outline(ops []Op, m Mat) []Pt {
	var out []Pt
	var at Pt
	for _, o := range ops {
		switch o.K {
		case 'M', 'L':
			out = append(out, o.P[0])
		case 'Q':
			for i := 1; i <= 64; i++ {
				t := float64(i) / 64
				a, b, c := (1-t)*(1-t), 2*t*(1-t), t*t
				out = append(out, Pt{a*at.X + b*o.P[0].X + c*o.P[1].X, a*at.Y + b*o.P[0].Y + c*o.P[1].Y})
			}
		case 'C':
			for i := 1; i <= 64; i++ {
				t := float64(i) / 64
				a, b, c, d := (1-t)*(1-t)*(1-t), 3*t*(1-t)*(1-t), 3*t*t*(1-t), t*t*t
				out = append(out, Pt{a*at.X + b*o.P[0].X + c*o.P[1].X + d*o.P[2].X, a*at.Y + b*o.P[0].Y + c*o.P[1].Y + d*o.P[2].Y})
			}
		}
		if len(o.P) > 0 {
			at = o.P[len(o.P)-1]
		}
	}
	for i := range out {
		out[i] = m.pt(out[i])
	}
	return out
}

func checkInk(kind string) func(s *Scene, r *Rec) error {
	return func(s *Scene, r *Rec) error {
		im, err := render(kind, s.svg(), s.W, s.H, s.bg(), s.opts()...)
		if err != nil {
			return fmt.Errorf("Draw: %v\n%s", err, s.describe())
		}
		r.Sample(s.describe())
		e := s.Elems[0]
		dev := s.target().mul(e.St.M)
		ps := outline(e.Ops, dev)
		alpha := e.St.FillOp
		if !e.St.Stroke.None { // the outline of the line
			r.Label("line")
			alpha = e.St.StrokeOp
			a, b := ps[0], ps[1]
			d := b.sub(a)
			l := math.Hypot(d.X, d.Y)
			n := Pt{-d.Y / l, d.X / l}
			w := e.St.Width * lineScale(dev) / 2
			if w < 0.5 {
				r.Label("thin")
			}
			n = Pt{n.X * w, n.Y * w}
			ps = []Pt{a.add(n), b.add(n), b.sub(n), a.sub(n)}
		}
		var area, perim float64
		lo, hi := ps[0], ps[0]
		for i, p := range ps {
			q := ps[(i+1)%len(ps)]
			area += (p.X*q.Y - p.Y*q.X) / 2
			perim += math.Hypot(p.X-q.X, p.Y-q.Y)
			lo = Pt{math.Min(lo.X, p.X), math.Min(lo.Y, p.Y)}
			hi = Pt{math.Max(hi.X, p.X), math.Max(hi.Y, p.Y)}
		}
		if lo.X < 1.5 || lo.Y < 1.5 || hi.X > float64(s.W)-1.5 || hi.Y > float64(s.H)-1.5 {
			r.Label("outside")
			return nil
		}
		area = math.Abs(area)
		// the drawing libraries round coordinates and widths to 1/64 of a pixel, and make
		// polygons of curves
		ptol, ltol := 0.17, 0.06
		for _, o := range e.Ops {
			if o.K == 'C' || o.K == 'Q' {
				ptol, ltol = 0.45, 0.22
			}
		}
		var ink float64
		touched := 0
		for y := 0; y < s.H; y++ {
			row := clipHalf(clipHalf(ps, func(p Pt) float64 { return p.Y - float64(y) }), func(p Pt) float64 { return float64(y+1) - p.Y })
			for x := 0; x < s.W; x++ {
				p := im.Pix[im.PixOffset(x, y):]
				if p[0] != p[1] || p[0] != p[2] || p[3] != 255 {
					return fmt.Errorf("%s: pixel %d,%d is %v on a black and white image\n%s", kind, x, y, p[:4], s.describe())
				}
				v := float64(255-p[0]) / 255 / alpha
				if v > 0 {
					touched++
				}
				ink += v
				cell := clipHalf(clipHalf(row, func(p Pt) float64 { return p.X - float64(x) }), func(p Pt) float64 { return float64(x+1) - p.X })
				want := math.Abs(polyArea(cell))
				if math.Abs(v-want) > ptol {
					return fmt.Errorf("%s: %.3f of pixel %d,%d is painted, want %.3f\n%s", kind, v, x, y, want, s.describe())
				}
			}
		}
		tol := ltol*perim + 0.006/alpha*float64(touched) + 0.02
		r.NonTrivial(area > tol*1.5)
		if math.Abs(ink-area) > tol {
			return fmt.Errorf("%s: %.3f pixels are painted, the area of the shape is %.3f (tolerance %.3f)\n%s", kind, ink, area, tol, s.describe())
		}
		return nil
	}
}

// clipHalf cuts a polygon to where d is not negative.
func clipHalf(ps []Pt, d func(Pt) float64) []Pt {
	var out []Pt
	for i, p := range ps {
		q := ps[(i+1)%len(ps)]
		a, b := d(p), d(q)
		if a >= 0 {
			out = append(out, p)
		}
		if (a < 0) != (b < 0) {
			k := a / (a - b)
			out = append(out, Pt{p.X + (q.X-p.X)*k, p.Y + (q.Y-p.Y)*k})
		}
	}
	return out
}

func polyArea(ps []Pt) float64 {
	var a float64
	for i, p := range ps {
		q := ps[(i+1)%len(ps)]
		a += (p.X*q.Y - p.Y*q.X) / 2
	}
	return a
}

func init() {
	const rule = "at least 5 painted and 5 unpainted pixels whose colour is certain"
	fill := sceneOpt{elems: 2, fill: 10, curves: true, shear: true}
	stroke := sceneOpt{elems: 1, fill: 2, stroke: 10, shear: true, tidy: true}
	curved := sceneOpt{elems: 1, fill: 2, stroke: 10, curves: true, shear: true, tidy: true}
	dash := sceneOpt{elems: 1, fill: 1, stroke: 10, dash: 10, shear: true, tidy: true}
	mixed := sceneOpt{elems: 5, fill: 8, stroke: 5, dash: 3, curves: true, shear: true, tidy: true}
	mask := sceneOpt{elems: 3, fill: 9, stroke: 2, curves: true, masks: true}
	register("C21", NewSub("masks", 30000, 400000, rule, genScene(mask), checkScene(kGG)))
	grad := sceneOpt{elems: 2, fill: 9, stroke: 2, curves: true, grad: true}
	register("C20", NewSub("gradients", 30000, 400000, rule, genScene(grad), checkScene(kRasterx)),
		NewSub("gradients-gv", 10000, 150000, rule, genScene(grad), checkScene(kRasterxGV)))
	for id, kind := range map[string]string{"C19": kDraw2d, "C20": kRasterx, "C21": kGG} {
		register(id,
			NewSub("fill", 30000, 400000, rule, genScene(fill), checkScene(kind)),
			NewSub("stroke", 30000, 400000, rule, genScene(stroke), checkScene(kind)),
			NewSub("curves", 15000, 200000, rule, genScene(curved), checkScene(kind)),
			NewSub("dashes", 20000, 300000, rule, genScene(dash), checkScene(kind)),
			NewSub("ink", 40000, 600000, "an area larger than the tolerance", genInk, checkInk(kind)),
			NewSub("mixed", 15000, 200000, rule, genScene(mixed), checkScene(kind)),
			NewSub("many", 4000, 60000, rule, genMany(kind), checkScene(kind)),
		)
	}
}
