package main

import (
	"fmt"
	"math"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"pgregory.net/rapid"
)

// ---- C22: from the text of a document to pixels ----

// PicCase is a document whose elements lie near its view box, drawn by one renderer.
type PicCase struct {
	Doc     *Doc      `json:"doc"`
	Kind    string    `json:"kind"`
	W, H    int       `json:"-"`
	Size    [2]int    `json:"size"`
	Target  []float64 `json:"target,omitempty"`
	Opacity float64   `json:"o"`
	Bg      [4]uint8  `json:"bg"`
	Phase   int       `json:"ph"`
}

func genPicXf(t *rapid.T) Xf {
	switch intn(t, 0, 6, "pxf") {
	case 0:
		return Xf{"translate", []float64{dec(t, -30, 30, "tx"), dec(t, -30, 30, "ty")}}
	case 1:
		return Xf{"rotate", []float64{float64(intn(t, -180, 180, "deg")), 50, 50}}
	case 2:
		return Xf{"rotate", []float64{float64(intn(t, -30, 30, "deg"))}}
	case 3:
		return Xf{"scale", []float64{oneOf(t, "s", 0.5, 0.75, 1.5, 1.25)}}
	case 4:
		return Xf{"scale", []float64{oneOf(t, "sx", 0.5, 1, 1.5), oneOf(t, "sy", 0.75, 1.25, 1)}}
	case 5:
		return Xf{oneOf(t, "skew", "skewX", "skewY"), []float64{float64(intn(t, -25, 25, "a"))}}
	default:
		return Xf{"matrix", []float64{1, dec(t, 0, 1, "b") / 4, -dec(t, 0, 1, "c") / 4, 1, dec(t, -20, 20, "e"), dec(t, -20, 20, "f")}}
	}
}

func genPicPath(t *rapid.T) []Cmd {
	p := func(lo, hi int) float64 { return dec(t, lo, hi, "v") }
	abs := func(n int) []float64 {
		var a []float64
		for i := 0; i < n; i++ {
			a = append(a, p(-5, 105))
		}
		return a
	}
	rel := func(n int) []float64 {
		var a []float64
		for i := 0; i < n; i++ {
			a = append(a, p(-40, 40))
		}
		return a
	}
	cmds := []Cmd{{K: "M", A: abs(2)}}
	for n := intn(t, 1, 7, "ncmds"); n > 0; n-- {
		k := oneOf(t, "k", "L", "l", "H", "h", "V", "v", "C", "c", "S", "s", "Q", "q", "T", "t", "A", "a", "z", "Z", "M", "m", "L", "l")
		if up(k) == 'Z' {
			cmds = append(cmds, Cmd{K: k})
			continue
		}
		if up(k) == 'A' {
			a := []float64{p(5, 50), p(5, 50), float64(intn(t, -90, 90, "rot")), float64(intn(t, 0, 1, "large")), float64(intn(t, 0, 1, "sweep"))}
			if k == "A" {
				a = append(a, abs(2)...)
			} else {
				a = append(a, rel(2)...)
			}
			cmds = append(cmds, Cmd{K: k, A: a})
			continue
		}
		n := argc[up(k)] * oneOf(t, "sets", 1, 1, 1, 2)
		if k[0] < 'a' {
			cmds = append(cmds, Cmd{K: k, A: abs(n)})
		} else {
			cmds = append(cmds, Cmd{K: k, A: rel(n)})
		}
	}
	if chance(t, 1, 3, "close") {
		cmds = append(cmds, Cmd{K: "z"})
	}
	return cmds
}

// genPicShape draws a shape in the square from 0,0 to 100,100.
func genPicShape(t *rapid.T) *Shape {
	s := &Shape{Kind: oneOf(t, "shape", "rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "path", "path", "rect"), A: map[string]Len{}}
	l := func(k string, lo, hi int) {
		if chance(t, 1, 6, k+".%") {
			s.A[k] = Len{V: float64(intn(t, lo, hi, k)), U: "%"}
			return
		}
		s.A[k] = Len{V: dec(t, lo, hi, k), U: oneOf(t, k+".u", "", "", "", "px")}
	}
	switch s.Kind {
	case "rect":
		l("x", -5, 80)
		l("y", -5, 80)
		l("width", 5, 90)
		l("height", 5, 90)
		switch intn(t, 0, 5, "round") {
		case 1:
			l("rx", 4, 40)
		case 2:
			l("ry", 4, 40)
		case 3:
			l("rx", 4, 40)
			l("ry", 4, 40)
		}
	case "circle":
		l("cx", 0, 100)
		l("cy", 0, 100)
		l("r", 4, 50)
	case "ellipse":
		l("cx", 0, 100)
		l("cy", 0, 100)
		l("rx", 4, 50)
		l("ry", 4, 50)
	case "line":
		l("x1", 0, 100)
		l("y1", 0, 100)
		l("x2", 0, 100)
		l("y2", 0, 100)
	case "polyline", "polygon":
		for i := 2 * intn(t, 2, 6, "npts"); i > 0; i-- {
			s.Pts = append(s.Pts, dec(t, -5, 105, "p"))
		}
	case "path":
		s.D = genPicPath(t)
	}
	if len(s.A) == 0 {
		s.A = nil
	}
	return s
}

func genPicDecl(t *rapid.T, name string, d *Decl) bool {
	switch name {
	case "stroke-width":
		d.Len = &Len{V: dec(t, 1, 14, "sw"), U: oneOf(t, "swu", "", "", "px", "%")}
		if d.Len.U == "%" {
			d.Len.V = float64(intn(t, 1, 12, "swp"))
		}
	case "stroke-linecap":
		d.Word = oneOf(t, "cap", "butt", "round", "square")
	case "stroke-dasharray":
		if chance(t, 1, 4, "dnone") {
			d.Word = "none"
			break
		}
		for i := intn(t, 1, 4, "ndash"); i > 0; i-- {
			d.Lens = append(d.Lens, Len{V: dec(t, 6, 30, "dash")})
		}
	case "stroke-dashoffset":
		d.Len = &Len{V: dec(t, -20, 60, "doff")}
	case "transform":
		for n := oneOf(t, "nxf", 1, 1, 2, 3); n > 0; n-- {
			d.Xfs = append(d.Xfs, genPicXf(t))
		}
	default:
		return false
	}
	return true
}

var picDecls = []string{"fill", "fill", "stroke", "stroke", "stroke", "fill-rule", "stroke-width", "stroke-width", "stroke-linecap", "stroke-linejoin",
	"stroke-miterlimit", "stroke-dasharray", "stroke-dashoffset", "opacity", "fill-opacity", "stroke-opacity", "transform", "transform"}

func genPic(kinds ...string) func(t *rapid.T) PicCase {
	return func(t *rapid.T) PicCase {
		c := PicCase{Kind: oneOf(t, "renderer", kinds...), Opacity: 1, Bg: [4]uint8{255, 255, 255, 255}}
		o := docOpt{pic: true, depth: 2, kids: 3, decls: picDecls, maxDecl: 5, uses: true, text: true, unknown: true}
		if c.Kind == kGG {
			o.picMasks = true
		}
		if c.Kind == kRasterx || c.Kind == kRasterxGV {
			o.grads = true
		}
		c.Doc = genDoc(t, o)
		c.Doc.VB = [4]float64{0, 0, 100, 100}
		c.Doc.HasVB = true
		c.Size = [2]int{100, 100}
		switch intn(t, 0, 4, "fit") {
		case 1:
			c.Size = [2]int{intn(t, 40, 120, "w"), intn(t, 40, 120, "h")}
			c.Target = []float64{0, 0, float64(c.Size[0]), float64(c.Size[1])}
		case 2:
			c.Doc.VB = [4]float64{dec(t, -20, 20, "vx"), dec(t, -20, 20, "vy"), dec(t, 60, 140, "vw"), dec(t, 60, 140, "vh")}
			c.Target = []float64{dec(t, 0, 20, "x"), dec(t, 0, 20, "y"), dec(t, 50, 120, "tw"), dec(t, 50, 120, "th")}
		}
		if chance(t, 1, 5, "novb") { // the size takes the place of the view box
			l := func(name string) *Len {
				u := oneOf(t, name+".u", "", "", "px", "mm", "pt", "in")
				return &Len{V: math.Round(dec(t, 60, 140, name)/unitPx[u]*100) / 100, U: u}
			}
			c.Doc.HasVB, c.Doc.W, c.Doc.H = false, l("dw"), l("dh")
			if c.Target == nil && chance(t, 3, 4, "fit size") {
				c.Target = []float64{0, 0, float64(c.Size[0]), float64(c.Size[1])}
			}
		}
		if chance(t, 1, 4, "transparent") {
			c.Bg = [4]uint8{}
		}
		if chance(t, 1, 5, "opacity") {
			c.Opacity = float64(intn(t, 0, 100, "o")) / 100
		}
		c.Phase = intn(t, 0, 30, "phase")
		return c
	}
}

func (c *PicCase) target(vb [4]float64) Mat {
	if c.Target == nil {
		return idMat
	}
	s := Scene{VB: vb, Target: c.Target}
	return s.target()
}

func (c *PicCase) opts() []renderer.RenderOption {
	s := Scene{Target: c.Target, Opacity: c.Opacity}
	return s.opts()
}

func picLayers(kind string, ps []RPath, t Mat, opacity float64) []layer {
	var out []layer
	for i := range ps {
		p := &ps[i]
		st := p.Style
		k := p.Shape.Kind
		blur := len(st.Dash) > 0 && (k == "rect" || k == "circle" || k == "ellipse")
		if blur { // where the dashes of these outlines start is not compared
			st.Dash = nil
			st.Width *= 1.45
			st.Join = svg.Round // the caps of dashes at the corners
		}
		ls := modelElem(kind, p.Segs, &st, t, opacity)
		for j := range ls {
			if blur && ls[j].stroke != nil {
				ls[j].stroke.maybe = append(ls[j].stroke.maybe, ls[j].stroke.sure...)
				ls[j].stroke.sure = nil
				if kind == kDraw2d { // closes the last dash by itself
					for _, q := range flatten(p.Segs, t.mul(st.M)) {
						ls[j].stroke.hazy = append(ls[j].stroke.hazy, hull(q.pts, 1)...)
					}
				}
			}
		}
		out = append(out, ls...)
	}
	return out
}

func checkPic(c PicCase, r *Rec) error {
	text := c.Doc.text()
	r.Sample(text)
	r.Label("%s", c.Kind)
	s, err := mustParse(text, svg.IgnoreErrorMode)
	if err != nil {
		return err
	}
	sc := Scene{Bg: c.Bg}
	im, err := render(c.Kind, s, c.Size[0], c.Size[1], sc.bg(), c.opts()...)
	if err != nil {
		return fmt.Errorf("%s: %v\n%s", c.Kind, err, text)
	}
	ref := c.Doc.eval()
	t := c.target(ref.VB)
	var ls []layer
	for i := range ref.Paths {
		p := ref.Paths[i : i+1]
		el := picLayers(c.Kind, p, t, c.Opacity)
		if n := len(p[0].Style.Masks); n > 0 && c.Kind == kGG {
			if m := ref.Masks[p[0].Style.Masks[n-1]]; m != nil {
				r.Label("masked")
				ms := picLayers(c.Kind, m.Paths, t.mul(p[0].Style.M), 1)
				for j := range el {
					el[j].mask, el[j].masked = ms, true
				}
			}
		}
		ls = append(ls, el...)
	}
	st, err := comparePix(im, ls, sc.bg(), 3, c.Phase, 3)
	r.NonTrivial(st.painted >= 10 && st.known-st.painted >= 10)
	if len(ref.Paths) > 2 {
		r.Label("3+ paths")
	}
	if err != nil {
		return fmt.Errorf("%s %v target %v opacity %v background %v: %v\n%s", c.Kind, c.Size, c.Target, c.Opacity, c.Bg, err, text)
	}
	return nil
}

// bounded reports whether all that is drawn stays within lim pixels of the origin,
// and dashes are not absurdly many.
func bounded(s *svg.Svg, t Mat, lim float64) bool {
	check := func(ps []svg.SvgPath, t Mat) bool {
		for _, p := range ps {
			m := t.mul(toMat(p.Style.Transform))
			for _, v := range []float64{m.A, m.B, m.C, m.D, m.E, m.F, p.Style.LineWidth} {
				if !(math.Abs(v) < lim) {
					return false
				}
			}
			if !(p.Style.LineWidth*lineScale(m) < lim) {
				return false
			}
			ops, err := plainOps(p.Path)
			if err != nil {
				return false
			}
			l := 0.0
			last := Pt{}
			for _, o := range ops {
				for _, q := range o.P {
					q = m.pt(q)
					if !(math.Abs(q.X) < lim && math.Abs(q.Y) < lim) {
						return false
					}
					l += q.dist(last)
					last = q
				}
			}
			sum := 0.0
			for _, d := range p.Style.Dash.Dash {
				sum += d * lineScale(m)
			}
			if sum > 0 && l/sum*float64(len(p.Style.Dash.Dash)) > 20000 {
				return false
			}
		}
		return true
	}
	if !check(s.SvgPaths, t) {
		return false
	}
	for _, m := range s.SvgMasks {
		for _, p := range s.SvgPaths {
			if len(p.Style.Masks) > 0 && !check(m.SvgPaths, t.mul(toMat(p.Style.Transform))) {
				return false
			}
		}
	}
	return true
}

func init() {
	const rule = "at least 10 painted and 10 unpainted pixels whose colour is certain"
	register("C22",
		NewSub("draw2d", 12000, 200000, rule, genPic(kDraw2d), checkPic),
		NewSub("gg", 12000, 200000, rule, genPic(kGG), checkPic),
		NewSub("rasterx", 12000, 200000, rule, genPic(kRasterx, kRasterx, kRasterxGV), checkPic),
	)
}
