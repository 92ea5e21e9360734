package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	svg "github.com/lafriks/go-svg"
	"pgregory.net/rapid"
)

// ---- document model: the case every document-level check generates ----

type Shape struct {
	Kind string         `json:"kind"` // rect circle ellipse line polyline polygon path
	A    map[string]Len `json:"a,omitempty"`
	Pts  []float64      `json:"pts,omitempty"`
	D    []Cmd          `json:"d,omitempty"`
}

// Paint is a fill or stroke value.
type Paint struct {
	None bool   `json:"none,omitempty"`
	Grad string `json:"grad,omitempty"`
	RGB  [3]int `json:"rgb"`
	Name string `json:"name,omitempty"`
	Form int    `json:"form,omitempty"` // spelling
}

// Decl is one style property.
type Decl struct {
	Name  string    `json:"n"`
	Paint *Paint    `json:"p,omitempty"`
	Num   float64   `json:"v,omitempty"`
	Len   *Len      `json:"l,omitempty"`
	Lens  []Len     `json:"ls,omitempty"`
	Word  string    `json:"w,omitempty"`
	Xfs   []Xf      `json:"x,omitempty"`
	Sty   bool      `json:"s,omitempty"` // written in the style attribute
	_     [0]func() // not comparable
}

type Elem struct {
	Tag   string   `json:"t"`
	ID    string   `json:"id,omitempty"`
	Decls []Decl   `json:"d,omitempty"`
	Shape *Shape   `json:"sh,omitempty"`
	Attrs []string `json:"at,omitempty"` // name, value pairs, written verbatim
	Text  string   `json:"tx,omitempty"`
	Tail  string   `json:"tail,omitempty"` // character data after the children
	Kids  []*Elem  `json:"k,omitempty"`
	// use
	Href string `json:"href,omitempty"`
	X    *Len   `json:"ux,omitempty"`
	Y    *Len   `json:"uy,omitempty"`
	// gradient
	Grad *GradDef `json:"g,omitempty"`
}

type GradDef struct {
	Radial bool           `json:"radial,omitempty"`
	A      map[string]Len `json:"a,omitempty"`
	Units  string         `json:"u,omitempty"`
	Spread string         `json:"sp,omitempty"`
	Xfs    []Xf           `json:"x,omitempty"`
	Stops  []StopDef      `json:"st,omitempty"`
}

type StopDef struct {
	Off      float64 `json:"o"`
	OffPerc  bool    `json:"op,omitempty"`
	Color    *Paint  `json:"c,omitempty"`
	Opacity  float64 `json:"a"`
	OpaPerc  bool    `json:"ap,omitempty"`
	HasOpa   bool    `json:"ha,omitempty"`
	StyColor bool    `json:"sc,omitempty"`
	StyOpa   bool    `json:"so,omitempty"`
}

// Doc is a whole document.
type Doc struct {
	HasVB  bool       `json:"hasvb"`
	VB     [4]float64 `json:"vb"`
	W      *Len       `json:"w,omitempty"`
	H      *Len       `json:"h,omitempty"`
	Decls  []Decl     `json:"d,omitempty"`
	Kids   []*Elem    `json:"k"`
	Noise  Noise      `json:"nz,omitempty"`
	Prolog int        `json:"pro,omitempty"`
}

// vbSize is the viewport the percentages refer to.
func (d *Doc) vb() [4]float64 {
	v := [4]float64{}
	if d.HasVB {
		v = d.VB
	}
	if v[2] == 0 && d.W != nil {
		v[2] = d.W.Px(100) // a percentage has no reference at top level
	}
	if v[3] == 0 && d.H != nil {
		v[3] = d.H.Px(100)
	}
	return v
}

// ---- writing ----

type writer struct {
	b      strings.Builder
	n      *nz
	depth  int
	inText bool
}

func escAttr(s string, q byte) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == rune(q) || r == '\r':
			fmt.Fprintf(&b, "&#%d;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func escText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

type attr struct{ k, v string }

func (w *writer) attrs(as []attr) {
	// order is not significant in XML
	switch w.n.pick(4) {
	case 1:
		for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
			as[i], as[j] = as[j], as[i]
		}
	case 2:
		if len(as) > 1 {
			k := w.n.pick(len(as))
			as = append(append([]attr{}, as[k:]...), as[:k]...)
		}
	}
	for _, a := range as {
		switch w.n.pick(6) {
		case 1:
			w.b.WriteString("\n\t")
		case 2:
			w.b.WriteString("  ")
		default:
			w.b.WriteByte(' ')
		}
		q := byte('"')
		if w.n.pick(3) == 1 {
			q = '\''
		}
		v := escAttr(a.v, q)
		if w.n.pick(12) == 1 && len(v) > 0 && v[0] != '&' && v[0] < 0x80 {
			v = fmt.Sprintf("&#x%x;", v[0]) + v[1:]
		}
		w.b.WriteString(a.k)
		w.b.WriteByte('=')
		w.b.WriteByte(q)
		w.b.WriteString(v)
		w.b.WriteByte(q)
	}
}

func (w *writer) gap() {
	switch w.n.pick(9) {
	case 1:
		w.b.WriteString("\n")
	case 2:
		w.b.WriteString("<!-- <rect width='5' height='5'/> -->")
	case 3:
		w.b.WriteString("  \n\t")
	case 4:
		w.b.WriteString("<?pi x?>")
	}
}

func paintText(p *Paint, n *nz) string {
	if p.None {
		return [...]string{"none", "none", "NONE", "None"}[n.pick(4)]
	}
	if p.Grad != "" {
		switch n.pick(3) {
		case 1:
			return "url( #" + p.Grad + " )"
		}
		return "url(#" + p.Grad + ")"
	}
	if p.Name != "" {
		switch n.pick(3) {
		case 1:
			return strings.ToUpper(p.Name)
		case 2:
			return strings.ToUpper(p.Name[:1]) + p.Name[1:]
		}
		return p.Name
	}
	r, g, b := p.RGB[0], p.RGB[1], p.RGB[2]
	switch p.Form {
	case 1:
		if r%17 == 0 && g%17 == 0 && b%17 == 0 {
			if n.pick(2) == 1 {
				return fmt.Sprintf("#%X%X%X", r/17, g/17, b/17)
			}
			return fmt.Sprintf("#%x%x%x", r/17, g/17, b/17)
		}
	case 2:
		s := [...]string{"", " ", "  "}
		return fmt.Sprintf("%s(%s%d%s,%s%d%s,%s%d%s)", [...]string{"rgb", "rgb", "RGB", "Rgb"}[n.pick(4)], s[n.pick(3)], r, s[n.pick(3)], s[n.pick(3)], g, s[n.pick(3)], s[n.pick(3)], b, s[n.pick(3)])
	case 3: // percentages (only exact for multiples of 51 = 20%)
		if r%51 == 0 && g%51 == 0 && b%51 == 0 {
			s := [...]string{"", " "}
			return fmt.Sprintf("rgb(%s%d%%%s,%s%d%%%s,%d%%)", s[n.pick(2)], r*100/255, s[n.pick(2)], s[n.pick(2)], g*100/255, s[n.pick(2)], b*100/255)
		}
	}
	if n.pick(2) == 1 {
		return fmt.Sprintf("#%02X%02X%02X", r, g, b)
	}
	return fmt.Sprintf("#%02x%02x%02x", r, g, b)
}

func (d *Decl) value(n *nz) string {
	switch {
	case d.Paint != nil:
		return paintText(d.Paint, n)
	case d.Xfs != nil:
		return xfText(d.Xfs, n)
	case d.Len != nil:
		return d.Len.text(n)
	case d.Lens != nil:
		var parts []string
		for _, l := range d.Lens {
			s := spell(l.V, n) + l.U
			parts = append(parts, s)
		}
		sep := [...]string{",", " ", ", ", " , "}[n.pick(4)]
		return strings.Join(parts, sep)
	case d.Word != "":
		return d.Word
	default:
		return spell(d.Num, n)
	}
}

func (w *writer) declAttrs(ds []Decl) []attr {
	var as []attr
	var sty []string
	for i := range ds {
		d := &ds[i]
		v := d.value(w.n)
		if d.Sty {
			k := d.Name
			switch w.n.pick(8) {
			case 1:
				k = " " + k + " "
			case 2:
				v = " " + v + " "
			case 3:
				k = strings.ToUpper(k)
			case 4:
				k, v = "\n\t"+k, "\t"+v
			case 5:
				k, v = k+"\n", v+"\n "
			}
			sty = append(sty, k+":"+v)
		} else {
			switch w.n.pick(10) {
			case 1:
				v = " " + v
			case 2:
				v = v + " "
			case 3:
				v = "\n" + v + "\t"
			}
			as = append(as, attr{d.Name, v})
		}
	}
	if len(sty) > 0 {
		s := strings.Join(sty, ";")
		switch w.n.pick(4) {
		case 1:
			s += ";"
		case 2:
			s = s + " ; "
		}
		// position of the style attribute relative to the others is free
		if w.n.pick(2) == 1 {
			as = append([]attr{{"style", s}}, as...)
		} else {
			as = append(as, attr{"style", s})
		}
	}
	return as
}

func (w *writer) shapeAttrs(s *Shape) []attr {
	var as []attr
	var ks []string
	for k := range s.A {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		as = append(as, attr{k, s.A[k].text(w.n)})
	}
	switch s.Kind {
	case "polyline", "polygon":
		if s.Pts != nil {
			as = append(as, attr{"points", pointsText(s.Pts, w.n)})
		}
	case "path":
		as = append(as, attr{"d", pathText(s.D, w.n)})
	}
	return as
}

func pointsText(p []float64, n *nz) string {
	var b strings.Builder
	prev := ""
	for i, v := range p {
		s := spell(v, n)
		if i > 0 {
			if i%2 == 1 && n.pick(3) == 0 {
				b.WriteString(",")
			} else {
				b.WriteString(numSep(prev, s, false, false, n))
			}
		}
		b.WriteString(s)
		prev = s
	}
	return b.String()
}

func (w *writer) open(tag string, as []attr) {
	w.b.WriteByte('<')
	w.b.WriteString(tag)
	w.attrs(as)
}

func (w *writer) elem(e *Elem) {
	if !w.inText {
		w.gap()
	}
	var as []attr
	if e.ID != "" {
		as = append(as, attr{"id", e.ID})
	}
	for i := 0; i+1 < len(e.Attrs); i += 2 {
		as = append(as, attr{e.Attrs[i], e.Attrs[i+1]})
	}
	if e.Href != "" {
		k := "href"
		if w.n.pick(3) == 1 {
			k = "xlink:href"
		}
		as = append(as, attr{k, "#" + e.Href})
	}
	if e.X != nil {
		as = append(as, attr{"x", e.X.text(w.n)})
	}
	if e.Y != nil {
		as = append(as, attr{"y", e.Y.text(w.n)})
	}
	if e.Shape != nil {
		as = append(as, w.shapeAttrs(e.Shape)...)
	}
	if e.Grad != nil {
		w.grad(e, as)
		return
	}
	as = append(as, w.declAttrs(e.Decls)...)
	w.open(e.Tag, as)
	if len(e.Kids) == 0 && e.Text == "" && e.Tail == "" {
		if w.n.pick(4) == 1 {
			w.b.WriteString("></" + e.Tag + ">")
		} else {
			w.b.WriteString("/>")
		}
		return
	}
	w.b.WriteByte('>')
	if e.Text != "" {
		w.text(e.Text)
	}
	outer := w.inText
	w.inText = outer || e.Tag == "title" || e.Tag == "desc"
	for _, k := range e.Kids {
		w.elem(k)
	}
	if e.Tail != "" {
		w.text(e.Tail)
	}
	if e.Text == "" && !w.inText {
		w.gap()
	}
	w.inText = outer
	w.b.WriteString("</" + e.Tag + ">")
}

// text writes character data, possibly split by comments or as CDATA.
func (w *writer) text(s string) {
	rs := []rune(s)
	half := len(rs) / 2
	switch w.n.pick(5) {
	case 1:
		w.b.WriteString(escText(string(rs[:half])) + "<!-- split -->" + escText(string(rs[half:])))
	case 2:
		if !strings.Contains(s, "]]>") {
			w.b.WriteString("<![CDATA[" + s + "]]>")
			return
		}
		w.b.WriteString(escText(s))
	case 3:
		if !strings.Contains(s, "]]>") {
			w.b.WriteString(escText(string(rs[:half])) + "<![CDATA[" + string(rs[half:]) + "]]>")
			return
		}
		w.b.WriteString(escText(s))
	default:
		w.b.WriteString(escText(s))
	}
}

// pad puts white space around a value, which has no meaning there.
func (w *writer) pad(v string) string {
	switch w.n.pick(8) {
	case 1:
		return " " + v
	case 2:
		return v + " "
	case 3:
		return "\n\t" + v + "\n"
	}
	return v
}

// anyCase spells the name of a style property.
func (w *writer) anyCase(k string) string {
	switch w.n.pick(6) {
	case 1:
		return strings.ToUpper(k)
	case 2:
		return strings.ToUpper(k[:1]) + k[1:]
	}
	return k
}

func (w *writer) grad(e *Elem, as []attr) {
	g := e.Grad
	var ks []string
	for k := range g.A {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		as = append(as, attr{k, g.A[k].text(w.n)})
	}
	if g.Units != "" {
		as = append(as, attr{"gradientUnits", w.pad(g.Units)})
	}
	if g.Spread != "" {
		as = append(as, attr{"spreadMethod", w.pad(g.Spread)})
	}
	if g.Xfs != nil {
		as = append(as, attr{"gradientTransform", xfText(g.Xfs, w.n)})
	}
	tag := "linearGradient"
	if g.Radial {
		tag = "radialGradient"
	}
	w.open(tag, as)
	w.b.WriteByte('>')
	for _, s := range g.Stops {
		w.gap()
		var as []attr
		off := spell(s.Off, w.n)
		if s.OffPerc {
			off = spell(s.Off*100, w.n) + "%"
		}
		as = append(as, attr{"offset", w.pad(off)})
		var sty []string
		if s.Color != nil {
			v := paintText(s.Color, w.n)
			if s.StyColor {
				sty = append(sty, w.pad(w.anyCase("stop-color"))+":"+w.pad(v))
			} else {
				as = append(as, attr{"stop-color", w.pad(v)})
			}
		}
		if s.HasOpa {
			v := spell(s.Opacity, w.n)
			if s.OpaPerc {
				v = spell(s.Opacity*100, w.n) + "%"
			}
			if s.StyOpa {
				sty = append(sty, w.pad(w.anyCase("stop-opacity"))+":"+w.pad(v))
			} else {
				as = append(as, attr{"stop-opacity", w.pad(v)})
			}
		}
		if len(sty) > 0 {
			as = append(as, attr{"style", strings.Join(sty, ";")})
		}
		w.open("stop", as)
		w.b.WriteString("/>")
	}
	w.b.WriteString("</" + tag + ">")
}

func (d *Doc) text() string {
	w := &writer{n: d.Noise.reader()}
	switch d.Prolog {
	case 1:
		w.b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	case 2:
		w.b.WriteString(`<?xml version="1.0" encoding="utf-8" standalone="no"?><!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">` + "\n<!-- generated -->\n")
	case 3:
		w.b.WriteString("\n  <!-- hello -->\n")
	}
	as := []attr{{"xmlns", "http://www.w3.org/2000/svg"}, {"xmlns:xlink", "http://www.w3.org/1999/xlink"}}
	if d.HasVB {
		vb := make([]string, 4)
		for i, v := range d.VB {
			vb[i] = spell(v, w.n)
		}
		sep := [...]string{" ", ",", ", ", "  "}[w.n.pick(4)]
		as = append(as, attr{"viewBox", strings.Join(vb, sep)})
	}
	if d.W != nil {
		as = append(as, attr{"width", d.W.text(nil)})
	}
	if d.H != nil {
		as = append(as, attr{"height", d.H.text(nil)})
	}
	as = append(as, w.declAttrs(d.Decls)...)
	w.open("svg", as)
	w.b.WriteByte('>')
	for _, k := range d.Kids {
		w.elem(k)
	}
	w.gap()
	w.b.WriteString("</svg>")
	switch w.n.pick(5) {
	case 1:
		w.b.WriteString("\n")
	case 2:
		w.b.WriteString("\n<!-- end -->\n")
	}
	return w.b.String()
}

// ---- reference evaluation ----

// RGrad is an evaluated gradient.
type RGrad struct {
	Radial bool
	Dir    []float64
	Stops  []RStop
	M      Mat
	Spread int
	User   bool
}

type RStop struct {
	Off, Opa float64
	RGB      [3]int
	NilColor bool
}

// RPaint is an evaluated paint.
type RPaint struct {
	None bool
	RGB  [3]int
	Grad *RGrad
}

type RStyle struct {
	Fill, Stroke     RPaint
	FillOp, StrokeOp float64
	Width            float64
	NonZero          bool
	Cap, Lead        svg.CapMode
	Join             svg.JoinMode
	Gap              svg.GapMode
	Miter            float64
	Dash             []float64
	DashOff          float64
	Masks            []string
	M                Mat
}

func defaultRStyle() RStyle {
	return RStyle{Fill: RPaint{}, Stroke: RPaint{None: true}, FillOp: 1, StrokeOp: 1, Width: 2, NonZero: true,
		Cap: svg.ButtCap, Join: svg.Bevel, Miter: 4, M: idMat}
}

type RPath struct {
	Shape *Shape
	Style RStyle
	Segs  []Seg // local coordinates; nil for shapes matched geometrically
}

type RMask struct {
	ID    string
	Paths []RPath
	Box   [4]float64
}

type RDoc struct {
	VB            [4]float64
	Titles, Descs []string
	Paths         []RPath
	Masks         map[string]*RMask
	Grads         map[string]*RGrad
}

type evaluator struct {
	d    *RDoc
	defs map[string]*Elem
}

func (d *Doc) eval() *RDoc {
	r := &RDoc{VB: d.vb(), Masks: map[string]*RMask{}, Grads: map[string]*RGrad{}}
	ev := &evaluator{d: r, defs: map[string]*Elem{}}
	st := ev.style(defaultRStyle(), d.Decls)
	for _, k := range d.Kids {
		ev.elem(k, st, &r.Paths)
	}
	return r
}

func (ev *evaluator) ref(kind byte) float64 {
	switch kind {
	case 'w':
		return ev.d.VB[2]
	case 'h':
		return ev.d.VB[3]
	}
	return diag(ev.d.VB[2], ev.d.VB[3])
}

func (ev *evaluator) paint(p *Paint, cur RPaint) RPaint {
	if p.None {
		return RPaint{None: true}
	}
	if p.Grad != "" {
		g := ev.d.Grads[p.Grad]
		if g == nil {
			return RPaint{} // black
		}
		c := *g
		c.Stops = append([]RStop{}, g.Stops...)
		for i := range c.Stops {
			if c.Stops[i].NilColor {
				c.Stops[i].NilColor = false
				c.Stops[i].RGB = cur.colour()
			}
		}
		return RPaint{Grad: &c}
	}
	if p.Name != "" {
		return RPaint{RGB: cssNames[p.Name]}
	}
	return RPaint{RGB: p.RGB}
}

func (p RPaint) colour() [3]int {
	if p.Grad != nil && len(p.Grad.Stops) > 0 {
		return p.Grad.Stops[0].RGB
	}
	return p.RGB
}

var capWords = map[string]svg.CapMode{"butt": svg.ButtCap, "round": svg.RoundCap, "square": svg.SquareCap, "cubic": svg.CubicCap, "quadratic": svg.QuadraticCap}
var joinWords = map[string]svg.JoinMode{"miter": svg.Miter, "miter-clip": svg.MiterClip, "arc-clip": svg.ArcClip, "round": svg.Round, "arc": svg.Arc, "bevel": svg.Bevel}
var gapWords = map[string]svg.GapMode{"flat": svg.FlatGap, "round": svg.RoundGap, "cubic": svg.CubicGap, "quadratic": svg.QuadraticGap}

func clamp01(v float64) float64 { return math.Max(0, math.Min(1, v)) }

func (ev *evaluator) style(s RStyle, ds []Decl) RStyle {
	s.Masks = append([]string{}, s.Masks...)
	s.Dash = append([]float64{}, s.Dash...)
	for pass := 0; pass < 2; pass++ {
		for i := range ds {
			if ds[i].Sty == (pass == 1) {
				ev.decl(&s, &ds[i])
			}
		}
	}
	return s
}

func (ev *evaluator) decl(s *RStyle, d *Decl) {
	switch d.Name {
	case "fill":
		s.Fill = ev.paint(d.Paint, s.Fill)
	case "stroke":
		s.Stroke = ev.paint(d.Paint, s.Stroke)
	case "fill-rule":
		s.NonZero = d.Word == "nonzero"
	case "stroke-width":
		s.Width = d.Len.Px(ev.ref('d'))
	case "stroke-linecap":
		s.Cap = capWords[d.Word]
	case "stroke-leadlinecap":
		s.Lead = capWords[d.Word]
	case "stroke-linejoin":
		s.Join = joinWords[d.Word]
	case "stroke-linegap":
		s.Gap = gapWords[d.Word]
	case "stroke-miterlimit":
		s.Miter = d.Num
	case "stroke-dasharray":
		s.Dash = nil
		if d.Word != "none" {
			for _, l := range d.Lens {
				s.Dash = append(s.Dash, l.Px(ev.ref('d')))
			}
			sum := 0.0
			for _, v := range s.Dash {
				sum += v
			}
			if sum == 0 {
				s.Dash = nil
			}
		}
	case "stroke-dashoffset":
		s.DashOff = d.Len.Px(ev.ref('d'))
	case "opacity", "fill-opacity", "stroke-opacity":
		v := d.Num
		if d.Len != nil {
			v = d.Len.V
			if d.Len.U == "%" {
				v /= 100
			}
		}
		v = clamp01(v)
		if d.Name != "stroke-opacity" {
			s.FillOp *= v
		}
		if d.Name != "fill-opacity" {
			s.StrokeOp *= v
		}
	case "transform":
		s.M = s.M.mul(xfMat(d.Xfs))
	case "mask":
		if d.Word != "none" {
			s.Masks = append(s.Masks, d.Word[len("url(#"):len(d.Word)-1])
		}
	default:
		panic("unknown declaration " + d.Name)
	}
}

// allText is the character data in e.
func (e *Elem) allText() string {
	s := e.Text
	for _, k := range e.Kids {
		s += k.allText()
	}
	return s + e.Tail
}

func (ev *evaluator) elem(e *Elem, parent RStyle, out *[]RPath) {
	switch e.Tag {
	case "title":
		ev.d.Titles = append(ev.d.Titles, e.allText())
		return
	case "desc":
		ev.d.Descs = append(ev.d.Descs, e.allText())
		return
	case "defs":
		for _, k := range e.Kids {
			ev.defElem(k, parent)
		}
		return
	case "linearGradient", "radialGradient":
		ev.d.Grads[e.ID] = ev.gradient(e.Grad)
		return
	case "mask":
		ev.mask(e, parent)
		return
	}
	st := ev.style(parent, e.Decls)
	if e.Tag == "use" {
		var x, y float64
		if e.X != nil {
			x = e.X.Px(ev.ref('w'))
		}
		if e.Y != nil {
			y = e.Y.Px(ev.ref('h'))
		}
		st.M = st.M.mul(Mat{A: 1, D: 1, E: x, F: y})
		if def := ev.defs[e.Href]; def != nil {
			ev.instance(def, st, out)
		}
		return
	}
	if e.Shape != nil {
		segs, drawn := ev.segs(e.Shape)
		if drawn {
			*out = append(*out, RPath{Shape: e.Shape, Style: st, Segs: segs})
		}
	}
	for _, k := range e.Kids {
		ev.elem(k, st, out)
	}
}

// instance draws a referenced definition: titles and nested definitions in it are not drawn.
func (ev *evaluator) instance(e *Elem, st RStyle, out *[]RPath) {
	switch e.Tag {
	case "title", "desc", "defs", "linearGradient", "radialGradient", "mask":
		return
	}
	if e.Tag == "use" {
		ev.elem(e, st, out)
		return
	}
	s := ev.style(st, e.Decls)
	if e.Shape != nil {
		if segs, drawn := ev.segs(e.Shape); drawn {
			*out = append(*out, RPath{Shape: e.Shape, Style: s, Segs: segs})
		}
	}
	for _, k := range e.Kids {
		ev.instance(k, s, out)
	}
}

func (ev *evaluator) defElem(e *Elem, st RStyle) {
	switch e.Tag {
	case "linearGradient", "radialGradient":
		ev.d.Grads[e.ID] = ev.gradient(e.Grad)
		return
	case "mask":
		ev.mask(e, st)
		return
	}
	if e.ID != "" {
		ev.defs[e.ID] = e
	}
	for _, k := range e.Kids {
		ev.defElem(k, st)
	}
}

func (ev *evaluator) mask(e *Elem, st RStyle) {
	m := &RMask{ID: e.ID}
	s := ev.style(st, e.Decls)
	s.M = idMat
	s.Masks = nil
	for _, k := range e.Kids {
		ev.elem(k, s, &m.Paths)
	}
	ev.d.Masks[e.ID] = m
}

func (ev *evaluator) gradient(g *GradDef) *RGrad {
	r := &RGrad{Radial: g.Radial, M: xfMat(g.Xfs), User: g.Units == "userSpaceOnUse"}
	w, h := 1.0, 1.0
	if r.User {
		w, h = ev.d.VB[2], ev.d.VB[3]
	}
	get := func(k string, def Len, ref float64) float64 {
		if l, ok := g.A[k]; ok {
			return l.Px(ref)
		}
		return def.Px(ref)
	}
	p := func(v float64) Len { return Len{V: v, U: "%"} }
	if g.Radial {
		cx, cy := get("cx", p(50), w), get("cy", p(50), h)
		fx, fy := cx, cy
		if _, ok := g.A["fx"]; ok {
			fx = get("fx", p(50), w)
		}
		if _, ok := g.A["fy"]; ok {
			fy = get("fy", p(50), h)
		}
		r.Dir = []float64{cx, cy, fx, fy, get("r", p(50), diag(w, h)), get("fr", p(0), diag(w, h))}
	} else {
		r.Dir = []float64{get("x1", p(0), w), get("y1", p(0), h), get("x2", p(100), w), get("y2", p(0), h)}
	}
	switch g.Spread {
	case "reflect":
		r.Spread = int(svg.ReflectSpread)
	case "repeat":
		r.Spread = int(svg.RepeatSpread)
	}
	for _, s := range g.Stops {
		st := RStop{Off: s.Off, Opa: 1}
		if s.HasOpa {
			st.Opa = clamp01(s.Opacity)
		}
		if s.Color == nil {
			st.NilColor = true
		} else if s.Color.Name != "" {
			st.RGB = cssNames[s.Color.Name]
		} else {
			st.RGB = s.Color.RGB
		}
		r.Stops = append(r.Stops, st)
	}
	return r
}

// segs returns the reference outline of a shape (nil segs with drawn=true
// means the outline is checked geometrically by matchShape).
func (ev *evaluator) segs(s *Shape) (segs []Seg, drawn bool) {
	g := ev.resolve(s)
	return g.segs(), g.drawn()
}

// geom is a shape with its lengths resolved to user units.
type geom struct {
	kind string
	v    map[string]float64
	pts  []float64
	d    []Cmd
}

func (ev *evaluator) resolve(s *Shape) *geom {
	g := &geom{kind: s.Kind, v: map[string]float64{}, pts: s.Pts, d: s.D}
	for k, l := range s.A {
		kind := byte('d')
		switch k {
		case "x", "width", "cx", "x1", "x2", "rx":
			kind = 'w'
		case "y", "height", "cy", "y1", "y2", "ry":
			kind = 'h'
		}
		g.v[k] = l.Px(ev.ref(kind))
	}
	if s.Kind == "rect" {
		_, okx := s.A["rx"]
		_, oky := s.A["ry"]
		if okx && !oky {
			g.v["ry"] = g.v["rx"]
		}
		if oky && !okx {
			g.v["rx"] = g.v["ry"]
		}
		// after resolution each radius is limited to half of the side
		g.v["rx"] = math.Min(g.v["rx"], g.v["width"]/2)
		g.v["ry"] = math.Min(g.v["ry"], g.v["height"]/2)
	}
	if s.Kind == "circle" {
		g.v["rx"], g.v["ry"] = g.v["r"], g.v["r"]
	}
	return g
}

func (g *geom) drawn() bool {
	switch g.kind {
	case "rect":
		return g.v["width"] > 0 && g.v["height"] > 0
	case "circle", "ellipse":
		return g.v["rx"] > 0 && g.v["ry"] > 0
	case "polyline", "polygon":
		return len(g.pts) >= 4
	case "path":
		return len(interpret(g.d)) > 0
	}
	return true
}

// segs returns the outline in the reference segment form.
func (g *geom) segs() []Seg {
	line := func(k byte, x, y float64) Seg { return Seg{K: k, P: []Pt{{x, y}}} }
	switch g.kind {
	case "path":
		return interpret(g.d)
	case "line":
		return []Seg{line('M', g.v["x1"], g.v["y1"]), line('L', g.v["x2"], g.v["y2"])}
	case "polyline", "polygon":
		var out []Seg
		for i := 0; i+1 < len(g.pts); i += 2 {
			k := byte('L')
			if i == 0 {
				k = 'M'
			}
			out = append(out, line(k, g.pts[i], g.pts[i+1]))
		}
		if g.kind == "polygon" && len(out) > 0 {
			out = append(out, line('Z', g.pts[0], g.pts[1]))
		}
		return out
	case "rect":
		x, y, w, h := g.v["x"], g.v["y"], g.v["width"], g.v["height"]
		rx, ry := g.v["rx"], g.v["ry"]
		if rx <= 0 || ry <= 0 {
			return []Seg{line('M', x, y), line('L', x+w, y), line('L', x+w, y+h), line('L', x, y+h), line('Z', x, y)}
		}
		corner := func(cx, cy, th float64, end Pt) Seg {
			return Seg{K: 'A', P: []Pt{end}, RX: rx, RY: ry, Th: th, Dth: math.Pi / 2, Ctr: Pt{cx, cy}}
		}
		return []Seg{
			line('M', x+rx, y), line('L', x+w-rx, y), corner(x+w-rx, y+ry, -math.Pi/2, Pt{x + w, y + ry}),
			line('L', x+w, y+h-ry), corner(x+w-rx, y+h-ry, 0, Pt{x + w - rx, y + h}),
			line('L', x+rx, y+h), corner(x+rx, y+h-ry, math.Pi/2, Pt{x, y + h - ry}),
			line('L', x, y+ry), corner(x+rx, y+ry, math.Pi, Pt{x + rx, y}), line('Z', x+rx, y),
		}
	case "circle", "ellipse":
		c := Pt{g.v["cx"], g.v["cy"]}
		e := Seg{K: 'A', P: []Pt{{c.X + g.v["rx"], c.Y}}, RX: g.v["rx"], RY: g.v["ry"], Dth: 2 * math.Pi, Ctr: c}
		return []Seg{line('M', c.X+g.v["rx"], c.Y), e, line('Z', c.X+g.v["rx"], c.Y)}
	}
	return nil
}

// ---- generation of shapes ----

func genPaint(t *rapid.T, none bool, grads []string) *Paint {
	if none && chance(t, 1, 6, "none") {
		return &Paint{None: true}
	}
	if len(grads) > 0 && chance(t, 1, 3, "usegrad") {
		return &Paint{Grad: oneOf(t, "grad", grads...)}
	}
	switch intn(t, 0, 4, "paintform") {
	case 0:
		return &Paint{RGB: [3]int{intn(t, 0, 255, "r"), intn(t, 0, 255, "g"), intn(t, 0, 255, "b")}}
	case 1:
		return &Paint{RGB: [3]int{17 * intn(t, 0, 15, "r"), 17 * intn(t, 0, 15, "g"), 17 * intn(t, 0, 15, "b")}, Form: 1}
	case 2:
		return &Paint{RGB: [3]int{intn(t, 0, 255, "r"), intn(t, 0, 255, "g"), intn(t, 0, 255, "b")}, Form: 2}
	case 3:
		return &Paint{RGB: [3]int{51 * intn(t, 0, 5, "r"), 51 * intn(t, 0, 5, "g"), 51 * intn(t, 0, 5, "b")}, Form: 3}
	default:
		return &Paint{Name: oneOf(t, "name", cssNameList...)}
	}
}

// genShape draws a basic shape. units allows lengths with units and percentages.
func genShape(t *rapid.T, units bool, kinds ...string) *Shape {
	if len(kinds) == 0 {
		kinds = []string{"rect", "circle", "ellipse", "line", "polyline", "polygon", "path"}
	}
	s := &Shape{Kind: oneOf(t, "shape", kinds...), A: map[string]Len{}}
	opt := func(k string, lo, hi int) {
		if !chance(t, 1, 8, k+".absent") {
			s.A[k] = genLen(t, lo, hi, units, k)
		}
	}
	pos := func(k string, hi int) {
		if chance(t, 1, 14, k+".fine") {
			s.A[k] = px(float64(intn(t, 1, 99, k)) / 100)
			return
		}
		s.A[k] = genPosLen(t, hi, units, k)
	}
	switch s.Kind {
	case "rect":
		opt("x", -150, 200)
		opt("y", -150, 200)
		pos("width", 200)
		pos("height", 200)
		switch intn(t, 0, 5, "round") {
		case 1:
			pos("rx", 60)
		case 2:
			pos("ry", 60)
		case 3:
			pos("rx", 60)
			pos("ry", 60)
		}
	case "circle":
		opt("cx", -150, 200)
		opt("cy", -150, 200)
		pos("r", 120)
	case "ellipse":
		opt("cx", -150, 200)
		opt("cy", -150, 200)
		pos("rx", 120)
		pos("ry", 120)
	case "line":
		opt("x1", -150, 200)
		opt("y1", -150, 200)
		opt("x2", -150, 200)
		opt("y2", -150, 200)
	case "polyline", "polygon":
		n := size(t, 2, 6, 80, "npts")
		for i := 0; i < 2*n; i++ {
			s.Pts = append(s.Pts, coord(t, "p"))
		}
	case "path":
		s.D = genPath(t, 5, false)
	}
	if len(s.A) == 0 {
		s.A = nil
	}
	return s
}

// genPosLen draws a strictly positive length of at least about a pixel.
func genPosLen(t *rapid.T, hi int, units bool, label string) Len {
	l := genLen(t, 1, hi, units, label)
	return l
}

// matchShape compares a library path with a resolved shape, up to the
// direction and subdivision in which closed outlines may be drawn.
func matchShape(path svg.Path, g *geom) error {
	ops, err := plainOps(path)
	if err != nil {
		return err
	}
	ops = normOps(ops)
	switch g.kind {
	case "path", "line", "polyline", "polygon":
		return matchOps(ops, g.segs())
	case "rect":
		if g.v["rx"] <= 0 || g.v["ry"] <= 0 {
			err := matchOps(ops, g.segs())
			if err != nil && matchOps(dropClosingLine(ops, g), g.segs()) == nil {
				return nil
			}
			return err
		}
		return matchRoundRect(ops, g)
	case "circle", "ellipse":
		if tooFine(g) {
			return matchExtent(ops, Pt{g.v["cx"] - g.v["rx"], g.v["cy"] - g.v["ry"]}, Pt{g.v["cx"] + g.v["rx"], g.v["cy"] + g.v["ry"]})
		}
		return matchEllipse(ops, g)
	}
	return fmt.Errorf("unknown shape")
}

// tooFine reports a curve that the 1/64 px grid cannot resolve; only its extent is checked.
func tooFine(g *geom) bool {
	lo, hi := math.Min(g.v["rx"], g.v["ry"]), math.Max(g.v["rx"], g.v["ry"])
	return lo < 0.3 || hi > 40*lo
}

func matchExtent(ops []Op, lo, hi Pt) error {
	pts, err := sampleClosed(ops, 8)
	if err != nil {
		return err
	}
	a, b := pts[0], pts[0]
	for _, p := range pts {
		a = Pt{math.Min(a.X, p.X), math.Min(a.Y, p.Y)}
		b = Pt{math.Max(b.X, p.X), math.Max(b.Y, p.Y)}
	}
	tol := 0.15 + 0.02*math.Max(hi.X-lo.X, hi.Y-lo.Y)
	if !near(a, lo, tol) || !near(b, hi, tol) {
		return fmt.Errorf("extent %v %v, want %v %v: %s", a, b, lo, hi, opsString(ops))
	}
	return nil
}

// dropClosingLine removes a redundant line back to the start before the final close.
func dropClosingLine(ops []Op, g *geom) []Op {
	if g.kind != "rect" {
		return ops
	}
	n := len(ops)
	if n > 2 && ops[n-1].K == 'Z' && ops[n-2].K == 'L' && ops[0].K == 'M' && near(ops[n-2].P[0], ops[0].P[0], fixTol) {
		return append(append([]Op{}, ops[:n-2]...), ops[n-1])
	}
	return ops
}

// sampleClosed returns points along the outline, which must be one closed subpath.
func sampleClosed(ops []Op, steps int) ([]Pt, error) {
	if len(ops) < 3 || ops[0].K != 'M' || ops[len(ops)-1].K != 'Z' {
		return nil, fmt.Errorf("outline is not a single closed subpath: %s", opsString(ops))
	}
	cur := ops[0].P[0]
	pts := []Pt{cur}
	for _, o := range ops[1 : len(ops)-1] {
		if o.K == 'M' || o.K == 'Z' {
			return nil, fmt.Errorf("outline has more than one subpath: %s", opsString(ops))
		}
		for k := 1; k <= steps; k++ {
			pts = append(pts, bez(cur, o, float64(k)/float64(steps)))
		}
		cur = o.P[len(o.P)-1]
	}
	s := ops[0].P[0]
	for k := 1; k <= steps; k++ {
		pts = append(pts, lerp(cur, s, float64(k)/float64(steps)))
	}
	return pts, nil
}

func matchEllipse(ops []Op, g *geom) error {
	pts, err := sampleClosed(ops, 8)
	if err != nil {
		return err
	}
	c := Pt{g.v["cx"], g.v["cy"]}
	rx, ry := g.v["rx"], g.v["ry"]
	rmin := math.Min(rx, ry)
	tol := 0.05 + 0.0006*math.Max(rx, ry)
	turned := 0.0
	prev := Pt{}
	for i, p := range pts {
		u := Pt{(p.X - c.X) / rx, (p.Y - c.Y) / ry}
		if d := math.Abs(math.Hypot(u.X, u.Y)-1) * rmin; d > tol {
			return fmt.Errorf("point %v is %.3f px off the ellipse centre %v radii %.3f,%.3f: %s", p, d, c, rx, ry, opsString(ops))
		}
		if i > 0 {
			turned += math.Atan2(prev.X*u.Y-prev.Y*u.X, prev.X*u.X+prev.Y*u.Y)
		}
		prev = u
	}
	if math.Abs(math.Abs(turned)-2*math.Pi) > 0.02 {
		return fmt.Errorf("outline turns %.4f rad around the centre, want 2π: %s", turned, opsString(ops))
	}
	return nil
}

func matchRoundRect(ops []Op, g *geom) error {
	pts, err := sampleClosed(ops, 8)
	if err != nil {
		return err
	}
	x, y, w, h, rx, ry := g.v["x"], g.v["y"], g.v["width"], g.v["height"], g.v["rx"], g.v["ry"]
	tol := 0.06 + 0.0006*math.Max(rx, ry)
	length := 0.0
	minX, minY, maxX, maxY := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	area := 0.0
	for i, p := range pts {
		if i > 0 {
			length += p.dist(pts[i-1])
			area += pts[i-1].cross(p) / 2
		}
		minX, minY, maxX, maxY = math.Min(minX, p.X), math.Min(minY, p.Y), math.Max(maxX, p.X), math.Max(maxY, p.Y)
		// distance from the boundary of the rounded rectangle
		dx := math.Max(x+rx-p.X, p.X-(x+w-rx))
		dy := math.Max(y+ry-p.Y, p.Y-(y+h-ry))
		d := math.Inf(1)
		if dx > -0.05 && dy > -0.05 { // in a corner, or where it begins
			d = math.Abs(math.Hypot(math.Max(dx, 0)/rx, math.Max(dy, 0)/ry)-1) * math.Min(rx, ry)
		}
		if side := math.Min(math.Min(math.Abs(p.X-x), math.Abs(x+w-p.X)), math.Min(math.Abs(p.Y-y), math.Abs(y+h-p.Y))); (dx <= 0 || dy <= 0) && dx <= rx+tol && dy <= ry+tol {
			d = math.Min(d, side)
		}
		if d > tol {
			return fmt.Errorf("point %v is %.3f px off the rounded rectangle %v: %s", p, d, g.v, opsString(ops))
		}
	}
	wantArea := w*h - (4-math.Pi)*rx*ry
	if math.Abs(math.Abs(area)-wantArea) > 0.001*wantArea+tol*2*(w+h) {
		return fmt.Errorf("outline encloses area %.3f, want %.3f: %s", math.Abs(area), wantArea, opsString(ops))
	}
	if math.Abs(minX-x) > tol || math.Abs(minY-y) > tol || math.Abs(maxX-x-w) > tol || math.Abs(maxY-y-h) > tol {
		return fmt.Errorf("extent [%.3f %.3f %.3f %.3f] want [%.3f %.3f %.3f %.3f]", minX, minY, maxX, maxY, x, y, x+w, y+h)
	}
	// a backtracking outline is longer than the perimeter
	per := 2*(w-2*rx) + 2*(h-2*ry) + ellipsePerimeter(rx, ry)
	if math.Abs(length-per) > 0.01*per+8*tol {
		return fmt.Errorf("outline length %.3f, perimeter %.3f: %s", length, per, opsString(ops))
	}
	return nil
}

func ellipsePerimeter(a, b float64) float64 {
	h := (a - b) * (a - b) / ((a + b) * (a + b))
	return math.Pi * (a + b) * (1 + 3*h/(10+math.Sqrt(4-3*h)))
}
