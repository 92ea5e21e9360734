package main

import (
	"fmt"
	"math"
	"strings"

	svg "github.com/lafriks/go-svg"
	"pgregory.net/rapid"
)

// DocCase is a document parsed in one error mode.
type DocCase struct {
	Doc  *Doc `json:"doc"`
	Mode int  `json:"mode,omitempty"`
}

func genDocCase(o docOpt) func(t *rapid.T) DocCase {
	return func(t *rapid.T) DocCase {
		mode := intn(t, 0, 2, "mode")
		if o.unknown && mode == int(svg.StrictErrorMode) {
			mode = int(svg.WarnErrorMode)
		}
		return DocCase{Doc: genDoc(t, o), Mode: mode}
	}
}

func (s docStat) labels(r *Rec) {
	for _, l := range []struct {
		n string
		v int
	}{{"group", s.groups}, {"use", s.uses}, {"gradient", s.grads}, {"mask", s.masks}, {"text", s.texts}, {"unknown-element", s.unknown}} {
		if l.v > 0 {
			r.Label(l.n)
		}
	}
	if s.shapes > 5 {
		r.Label("many-shapes")
	}
	if s.depth > 3 {
		r.Label("deep")
	}
}

func declLabels(r *Rec, d *Doc) {
	var walk func(e *Elem)
	seen := func(ds []Decl) {
		names := map[string]bool{}
		for _, x := range ds {
			r.Label("set-" + x.Name)
			if names[x.Name] {
				r.Label("attribute-and-style")
			}
			names[x.Name] = true
		}
	}
	walk = func(e *Elem) {
		seen(e.Decls)
		for _, k := range e.Kids {
			walk(k)
		}
	}
	seen(d.Decls)
	for _, k := range d.Kids {
		walk(k)
	}
}

// docCheck compares the parsed document with the reference evaluation.
// genChain draws a deep chain of groups: what one level adds to its inherited lists
// must not show in its siblings.
func genChain(t *rapid.T) DocCase {
	g := &gctx{t: t, o: docOpt{kinds: []string{"path", "rect"}, maxDecl: 2, decls: allDecls}}
	d := &Doc{HasVB: true, VB: [4]float64{0, 0, 100, 100}}
	for i := 0; i < 3; i++ {
		d.Kids = append(d.Kids, g.maskElem())
	}
	one := func() []Decl {
		var ds []Decl
		if chance(t, 3, 5, "cmask") {
			ds = append(ds, Decl{Name: "mask", Word: "url(#" + oneOf(t, "mask", g.masks...) + ")"})
		}
		if chance(t, 1, 2, "cdecl") {
			name := oneOf(t, "cname", "stroke-dasharray", "stroke-dasharray", "fill", "stroke", "transform", "stroke-dashoffset", "stroke-width")
			dc := g.decl(name)
			dc.Sty = name != "transform" && chance(t, 1, 3, "csty")
			ds = append(ds, dc)
		}
		return ds
	}
	leaf := func() *Elem {
		return &Elem{Tag: "path", Shape: &Shape{Kind: "path", D: []Cmd{{K: "M", A: []float64{1, 2}}, {K: "L", A: []float64{3, 4}}}}, Decls: one()}
	}
	depth := intn(t, 3, 10, "chain")
	var rec func(k int) *Elem
	rec = func(k int) *Elem {
		e := &Elem{Tag: "g", Decls: one()}
		for i := intn(t, 0, 2, "before"); i > 0; i-- {
			e.Kids = append(e.Kids, leaf())
		}
		if k > 0 {
			e.Kids = append(e.Kids, rec(k-1))
		}
		for i := intn(t, 0, 2, "after"); i > 0; i-- {
			e.Kids = append(e.Kids, leaf())
		}
		if k > 0 && chance(t, 1, 6, "fork") {
			e.Kids = append(e.Kids, rec(min(k-1, 2)))
		}
		return e
	}
	d.Kids = append(d.Kids, rec(depth), leaf())
	d.Noise = genNoise(t, 30)
	return DocCase{Doc: d, Mode: intn(t, 0, 2, "mode")}
}

func docCheck(fields int, geometry bool, nontrivial func(docStat) bool, extra func(*svg.Svg, *RDoc, *Doc) error) func(DocCase, *Rec) error {
	return func(c DocCase, r *Rec) error {
		text := c.Doc.text()
		st := c.Doc.stat()
		st.labels(r)
		declLabels(r, c.Doc)
		r.NonTrivial(nontrivial(st))
		r.Sample(text)
		s, err := mustParse(text, svg.ErrorMode(c.Mode))
		if err != nil {
			return err
		}
		ref := c.Doc.eval()
		if err := cmpDoc(s, ref, fields, geometry); err != nil {
			return fmt.Errorf("%v\n%s", err, clip(text))
		}
		if extra != nil {
			if err := extra(s, ref, c.Doc); err != nil {
				return fmt.Errorf("%v\n%s", err, clip(text))
			}
		}
		return nil
	}
}

func cmpDoc(s *svg.Svg, ref *RDoc, fields int, geometry bool) error {
	ev := &evaluator{d: ref}
	if err := cmpPaths(s.SvgPaths, ref.Paths, ev, fields, geometry); err != nil {
		return err
	}
	if len(s.SvgMasks) != len(ref.Masks) {
		return fmt.Errorf("%d masks, want %d", len(s.SvgMasks), len(ref.Masks))
	}
	for id, m := range ref.Masks {
		got := s.SvgMasks[id]
		if got == nil {
			return fmt.Errorf("mask %q is missing", id)
		}
		if got.ID != id {
			return fmt.Errorf("mask %q has ID %q", id, got.ID)
		}
		if err := cmpPaths(got.SvgPaths, m.Paths, ev, fields, geometry); err != nil {
			return fmt.Errorf("mask %q: %v", id, err)
		}
	}
	return nil
}

// structure checks what C11 adds: view box, size, titles and descriptions.
func structure(s *svg.Svg, ref *RDoc, d *Doc) error {
	vb := [4]float64{s.ViewBox.X, s.ViewBox.Y, s.ViewBox.W, s.ViewBox.H}
	for i := range vb {
		if !relEq(vb[i], ref.VB[i], 1e-9) {
			return fmt.Errorf("view box %v, want %v", vb, ref.VB)
		}
	}
	txt := func(l *Len) string {
		if l == nil {
			return ""
		}
		return l.text(nil)
	}
	if s.Width != txt(d.W) || s.Height != txt(d.H) {
		return fmt.Errorf("size %q x %q, want %q x %q", s.Width, s.Height, txt(d.W), txt(d.H))
	}
	if !sameStrings(s.Titles, ref.Titles) {
		return fmt.Errorf("titles %q, want %q", s.Titles, ref.Titles)
	}
	if !sameStrings(s.Descriptions, ref.Descs) {
		return fmt.Errorf("descriptions %q, want %q", s.Descriptions, ref.Descs)
	}
	if !matNear(toMat(s.Transform), idMat, 1e-12) {
		return fmt.Errorf("document transform %v, want the identity", s.Transform)
	}
	return nil
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- C05: basic shapes ----

// genShapesDoc draws a few shapes, some of which have missing or zero
// attributes and are therefore not drawn.
func genShapesDoc(t *rapid.T) DocCase {
	n := intn(t, 1, 4, "n")
	d := &Doc{HasVB: true, VB: [4]float64{0, 0, 100, 100}, Noise: genNoise(t, 40)}
	for i := 0; i < n; i++ {
		sh := genShape(t, false, "rect", "circle", "ellipse", "line", "polyline", "polygon")
		if sh.A == nil {
			sh.A = map[string]Len{}
		}
		if chance(t, 1, 5, "degenerate") {
			zero := func(ks ...string) {
				k := oneOf(t, "zero", ks...)
				if chance(t, 1, 2, "drop") {
					delete(sh.A, k)
				} else {
					sh.A[k] = Len{}
				}
			}
			switch sh.Kind {
			case "rect":
				zero("width", "height")
			case "circle":
				zero("r")
			case "ellipse":
				k := oneOf(t, "zr", "rx", "ry")
				sh.A[k] = Len{}
			case "polyline", "polygon":
				if chance(t, 1, 2, "nopts") {
					sh.Pts = nil
				} else {
					sh.Pts = sh.Pts[:2]
				}
			}
		}
		if sh.Kind == "rect" {
			switch intn(t, 0, 13, "rr") {
			case 4: // very flat corners
				sh.A["rx"], sh.A["ry"] = Len{V: posDec(t, 2, "flatrx")}, Len{V: 5 + posDec(t, 300, "flatry")}
			case 5:
				sh.A["rx"], sh.A["ry"] = Len{V: 5 + posDec(t, 300, "flatrx")}, Len{V: posDec(t, 2, "flatry")}
			case 0:
				sh.A["rx"] = Len{}
			case 1:
				sh.A["ry"] = Len{}
			case 2: // larger than half of the side
				sh.A["rx"] = Len{V: 20 + posDec(t, 300, "bigrx")}
			case 3:
				sh.A["ry"] = Len{V: 20 + posDec(t, 300, "bigry")}
			}
		}
		if len(sh.A) == 0 {
			sh.A = nil
		}
		d.Kids = append(d.Kids, &Elem{Tag: sh.Kind, Shape: sh})
	}
	return DocCase{Doc: d, Mode: intn(t, 0, 2, "mode")}
}

func checkShapes(c DocCase, r *Rec) error {
	for _, e := range c.Doc.Kids {
		ev := &evaluator{d: &RDoc{VB: c.Doc.vb()}}
		g := ev.resolve(e.Shape)
		r.Label(e.Shape.Kind)
		if !g.drawn() {
			r.Label("not-drawn")
		}
		if e.Shape.Kind == "rect" && g.v["rx"] > 0 && g.v["ry"] > 0 {
			r.Label("rounded")
		}
	}
	return docCheck(0, true, func(s docStat) bool { return s.shapes >= 1 }, nil)(c, r)
}

// ---- C06: units ----

// LenCase is one length-valued attribute in two spellings of the same length.
type LenCase struct {
	Attr string     `json:"attr"`
	VB   [4]float64 `json:"vb"`
	NoVB bool       `json:"novb,omitempty"`
	L    Len        `json:"l"`
	Nz   Noise      `json:"nz,omitempty"`
}

var lenAttrs = []struct{ name, ref, tmpl string }{
	{"rect.x", "w", `<rect x="%s" y="3" width="20" height="30"/>`},
	{"rect.y", "h", `<rect x="3" y="%s" width="20" height="30"/>`},
	{"rect.width", "w", `<rect x="3" y="5" width="%s" height="30"/>`},
	{"rect.height", "h", `<rect x="3" y="5" width="30" height="%s"/>`},
	{"rect.rx", "w", `<rect x="3" y="5" width="3000" height="2000" rx="%s" ry="7"/>`},
	{"rect.ry", "h", `<rect x="3" y="5" width="3000" height="2000" rx="7" ry="%s"/>`},
	{"circle.cx", "w", `<circle cx="%s" cy="3" r="20"/>`},
	{"circle.cy", "h", `<circle cx="7" cy="%s" r="20"/>`},
	{"circle.r", "d", `<circle cx="7" cy="3" r="%s"/>`},
	{"ellipse.cx", "w", `<ellipse cx="%s" cy="3" rx="20" ry="10"/>`},
	{"ellipse.cy", "h", `<ellipse cx="7" cy="%s" rx="20" ry="10"/>`},
	{"ellipse.rx", "w", `<ellipse cx="7" cy="3" rx="%s" ry="10"/>`},
	{"ellipse.ry", "h", `<ellipse cx="7" cy="3" rx="20" ry="%s"/>`},
	{"line.x1", "w", `<line x1="%s" y1="1" x2="2" y2="3"/>`},
	{"line.y1", "h", `<line x1="1" y1="%s" x2="2" y2="3"/>`},
	{"line.x2", "w", `<line x1="1" y1="2" x2="%s" y2="3"/>`},
	{"line.y2", "h", `<line x1="1" y1="2" x2="3" y2="%s"/>`},
	{"use.x", "w", `<defs><path id="p" d="M1 2L3 4"/></defs><use href="#p" x="%s" y="2"/>`},
	{"use.y", "h", `<defs><path id="p" d="M1 2L3 4"/></defs><use href="#p" x="2" y="%s"/>`},
	{"stroke-width", "d", `<path d="M1 2L3 4" stroke-width="%s"/>`},
	{"stroke-dashoffset", "d", `<path d="M1 2L3 4" style="stroke-dashoffset:%s"/>`},
	{"stroke-dasharray", "d", `<path d="M1 2L3 4" stroke-dasharray="%s,4"/>`},
	{"mask.x", "w", `<mask id="m" x="%s" y="2" width="3" height="4"><path d="M1 2L3 4"/></mask>`},
	{"mask.y", "h", `<mask id="m" x="1" y="%s" width="3" height="4"><path d="M1 2L3 4"/></mask>`},
	{"mask.width", "w", `<mask id="m" x="1" y="2" width="%s" height="4"><path d="M1 2L3 4"/></mask>`},
	{"mask.height", "h", `<mask id="m" x="1" y="2" width="3" height="%s"><path d="M1 2L3 4"/></mask>`},
	{"linear.x1", "w", `<linearGradient id="g" gradientUnits="userSpaceOnUse" x1="%s" y1="3"><stop offset="0" stop-color="red"/></linearGradient><path d="M1 2L3 4" fill="url(#g)"/>`},
	{"linear.y1", "h", `<linearGradient id="g" gradientUnits="userSpaceOnUse" y1="%s" x2="3"><stop offset="0" stop-color="red"/></linearGradient><path d="M1 2L3 4" fill="url(#g)"/>`},
	{"linear.x2", "w", `<linearGradient id="g" x2="%s" gradientUnits="userSpaceOnUse"><stop offset="0" stop-color="red"/></linearGradient><path d="M1 2L3 4" fill="url(#g)"/>`},
	{"linear.y2", "h", `<linearGradient id="g" y2="%s" gradientUnits="userSpaceOnUse"><stop offset="0" stop-color="red"/></linearGradient><path d="M1 2L3 4" fill="url(#g)"/>`},
	{"radial.cx", "w", `<radialGradient id="g" cx="%s" gradientUnits="userSpaceOnUse"><stop offset="0" stop-color="red"/></radialGradient><path d="M1 2L3 4" fill="url(#g)"/>`},
	{"radial.cy", "h", `<radialGradient id="g" cy="%s" gradientUnits="userSpaceOnUse"><stop offset="0" stop-color="red"/></radialGradient><path d="M1 2L3 4" fill="url(#g)"/>`},
	{"radial.fx", "w", `<radialGradient id="g" fx="%s" gradientUnits="userSpaceOnUse"><stop offset="0" stop-color="red"/></radialGradient><path d="M1 2L3 4" fill="url(#g)"/>`},
	{"radial.fy", "h", `<radialGradient id="g" fy="%s" gradientUnits="userSpaceOnUse"><stop offset="0" stop-color="red"/></radialGradient><path d="M1 2L3 4" fill="url(#g)"/>`},
	{"radial.r", "d", `<radialGradient id="g" r="%s" gradientUnits="userSpaceOnUse"><stop offset="0" stop-color="red"/></radialGradient><path d="M1 2L3 4" fill="url(#g)"/>`},
	{"radial.fr", "d", `<radialGradient id="g" fr="%s" gradientUnits="userSpaceOnUse"><stop offset="0" stop-color="red"/></radialGradient><path d="M1 2L3 4" fill="url(#g)"/>`},
}

func genLenCase(t *rapid.T) LenCase {
	a := oneOf(t, "attr", lenAttrs...)
	pos := a.ref == "d" || strings.Contains(a.name, "width") || strings.Contains(a.name, "height") || strings.HasSuffix(a.name, ".rx") || strings.HasSuffix(a.name, ".ry")
	lo := -300
	if pos {
		lo = 1
	}
	c := LenCase{Attr: a.name, L: genLen(t, lo, 300, true, "len"), Nz: genNoise(t, 10),
		VB: [4]float64{dec(t, -50, 50, "vx"), dec(t, -50, 50, "vy"), posDec(t, 900, "vw"), posDec(t, 900, "vh")}}
	c.NoVB = chance(t, 1, 4, "novb")
	return c
}

// checkLen: a length with a unit or percentage means the same as its value in user units.
func checkLen(c LenCase, r *Rec) error {
	var tmpl, ref string
	for _, a := range lenAttrs {
		if a.name == c.Attr {
			tmpl, ref = a.tmpl, a.ref
		}
	}
	w, h := c.VB[2], c.VB[3]
	root := fmt.Sprintf(`<svg viewBox="%s %s %s %s">`, fnum(c.VB[0]), fnum(c.VB[1]), fnum(w), fnum(h))
	if c.NoVB {
		root = fmt.Sprintf(`<svg width="%s" height="%spx">`, fnum(w), fnum(h))
	}
	rv := map[string]float64{"w": w, "h": h, "d": diag(w, h)}[ref]
	v := c.L.Px(rv)
	if strings.HasPrefix(c.Attr, "rect.r") && (v < 0.5 || v > 280 || v > 1000) {
		return errSkip // the radius limits are C05's subject
	}
	if (strings.HasSuffix(c.Attr, "width") || strings.HasSuffix(c.Attr, "height") || strings.Contains(c.Attr, ".r")) && v < 0.2 {
		return errSkip
	}
	nz := c.Nz.reader()
	txt := c.L.text(nz)
	a := root + fmt.Sprintf(tmpl, txt) + "</svg>"
	b := root + fmt.Sprintf(tmpl, fnum(v)) + "</svg>"
	r.Label("unit-%s", c.L.U)
	r.Label(c.Attr)
	r.NonTrivial(c.L.U != "" && c.L.V != 0)
	r.Sample(a)
	sa, err := mustParse(a, svg.StrictErrorMode)
	if err != nil {
		return err
	}
	sb, err := mustParse(b, svg.StrictErrorMode)
	if err != nil {
		return err
	}
	fail := func(format string, x ...any) error {
		return fmt.Errorf("%s=%q should be %v user units: %s\n%s\n%s", c.Attr, txt, v, fmt.Sprintf(format, x...), a, b)
	}
	if err := nearSvg(sa, sb, 1e-7); err != nil {
		return fail("%v", err)
	}
	// and the value itself is where it belongs
	get := func() (float64, float64) { // value, tolerance
		if strings.HasPrefix(c.Attr, "mask") {
			m := sa.SvgMasks["m"]
			if m == nil {
				return math.NaN(), 0
			}
			return map[string]float64{"mask.x": m.X, "mask.y": m.Y, "mask.width": m.W, "mask.height": m.H}[c.Attr], 1e-6
		}
		if len(sa.SvgPaths) != 1 {
			return math.NaN(), 0
		}
		p := sa.SvgPaths[0]
		switch c.Attr {
		case "stroke-width":
			return p.Style.LineWidth, 1e-6
		case "stroke-dashoffset":
			return p.Style.Dash.DashOffset, 1e-6
		case "stroke-dasharray":
			if len(p.Style.Dash.Dash) != 2 {
				return math.NaN(), 0
			}
			return p.Style.Dash.Dash[0], 1e-6
		case "use.x":
			return p.Style.Transform.E, 1e-6
		case "use.y":
			return p.Style.Transform.F, 1e-6
		}
		if g, ok := p.Style.FillerColor.(svg.Gradient); ok {
			var dir []float64
			names := []string{"x1", "y1", "x2", "y2"}
			switch d := g.Direction.(type) {
			case svg.Linear:
				dir = d[:]
			case svg.Radial:
				dir = d[:]
				names = []string{"cx", "cy", "fx", "fy", "r", "fr"}
			}
			for i, n := range names {
				if strings.HasSuffix(c.Attr, "."+n) && i < len(dir) {
					return dir[i], 1e-6
				}
			}
			return math.NaN(), 0
		}
		ops, err := plainOps(p.Path)
		if err != nil || len(ops) < 2 {
			return math.NaN(), 0
		}
		lo, hi := Pt{math.Inf(1), math.Inf(1)}, Pt{math.Inf(-1), math.Inf(-1)}
		cur := Pt{}
		for _, o := range ops {
			for k := 0; k <= 16 && o.K != 'Z'; k++ {
				q := o.P[len(o.P)-1]
				if o.K != 'M' {
					q = bez(cur, o, float64(k)/16)
				}
				lo = Pt{math.Min(lo.X, q.X), math.Min(lo.Y, q.Y)}
				hi = Pt{math.Max(hi.X, q.X), math.Max(hi.Y, q.Y)}
			}
			if len(o.P) > 0 {
				cur = o.P[len(o.P)-1]
			}
		}
		tol := 0.08 + 0.002*math.Abs(v)
		switch c.Attr {
		case "rect.x":
			return lo.X, tol
		case "rect.y":
			return lo.Y, tol
		case "rect.width":
			return hi.X - lo.X, tol
		case "rect.height":
			return hi.Y - lo.Y, tol
		case "circle.cx", "ellipse.cx":
			return (lo.X + hi.X) / 2, tol
		case "circle.cy", "ellipse.cy":
			return (lo.Y + hi.Y) / 2, tol
		case "circle.r", "ellipse.rx":
			return (hi.X - lo.X) / 2, tol
		case "ellipse.ry":
			return (hi.Y - lo.Y) / 2, tol
		case "line.x1":
			return ops[0].P[0].X, tol
		case "line.y1":
			return ops[0].P[0].Y, tol
		case "line.x2":
			return ops[1].P[0].X, tol
		case "line.y2":
			return ops[1].P[0].Y, tol
		}
		return v, 1 // rounded corners: compared with the plain spelling only
	}
	if got, tol := get(); !(math.Abs(got-v) <= tol*math.Max(1, math.Abs(v))) {
		return fail("got %v", got)
	}
	return nil
}

// nearSvg compares two documents up to numerical noise.
func nearSvg(a, b *svg.Svg, tol float64) error {
	if err := nearPaths(a.SvgPaths, b.SvgPaths, tol); err != nil {
		return err
	}
	if len(a.SvgMasks) != len(b.SvgMasks) {
		return fmt.Errorf("%d and %d masks", len(a.SvgMasks), len(b.SvgMasks))
	}
	for id, m := range a.SvgMasks {
		n := b.SvgMasks[id]
		if n == nil {
			return fmt.Errorf("mask %q only in one", id)
		}
		for _, d := range []float64{m.X - n.X, m.Y - n.Y, m.W - n.W, m.H - n.H} {
			if !(math.Abs(d) <= tol*1e4) {
				return fmt.Errorf("mask %q box differs: %v,%v,%v,%v and %v,%v,%v,%v", id, m.X, m.Y, m.W, m.H, n.X, n.Y, n.W, n.H)
			}
		}
		if err := nearPaths(m.SvgPaths, n.SvgPaths, tol); err != nil {
			return fmt.Errorf("mask %q: %v", id, err)
		}
	}
	return nil
}

func nearPaths(a, b []svg.SvgPath, tol float64) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d and %d paths", len(a), len(b))
	}
	for i := range a {
		if err := sameOps(a[i].Path, b[i].Path, 2.5/64); err != nil {
			return fmt.Errorf("path %d: %v", i, err)
		}
		if err := nearStyle(a[i].Style, b[i].Style, tol); err != nil {
			return fmt.Errorf("path %d: %v", i, err)
		}
	}
	return nil
}

func nearStyle(a, b svg.PathStyle, tol float64) error {
	fl := func(what string, x, y float64) error {
		if !relEq(x, y, tol) {
			return fmt.Errorf("%s %v and %v", what, x, y)
		}
		return nil
	}
	for _, e := range []error{
		fl("fill opacity", a.FillOpacity, b.FillOpacity), fl("stroke opacity", a.LineOpacity, b.LineOpacity),
		fl("stroke width", a.LineWidth, b.LineWidth), fl("dash offset", a.Dash.DashOffset, b.Dash.DashOffset),
		nearPattern("fill", a.FillerColor, b.FillerColor, tol), nearPattern("stroke", a.LinerColor, b.LinerColor, tol),
	} {
		if e != nil {
			return e
		}
	}
	if len(a.Dash.Dash) != len(b.Dash.Dash) {
		return fmt.Errorf("dashes %v and %v", a.Dash.Dash, b.Dash.Dash)
	}
	for i := range a.Dash.Dash {
		if err := fl("dash", a.Dash.Dash[i], b.Dash.Dash[i]); err != nil {
			return err
		}
	}
	if a.UseNonZeroWinding != b.UseNonZeroWinding || a.Join != b.Join {
		return fmt.Errorf("line style %v %v and %v %v", a.UseNonZeroWinding, a.Join, b.UseNonZeroWinding, b.Join)
	}
	if !sameStrings(a.Masks, b.Masks) {
		return fmt.Errorf("masks %q and %q", a.Masks, b.Masks)
	}
	if !matNear(toMat(a.Transform), toMat(b.Transform), tol) {
		return fmt.Errorf("transform %v and %v", a.Transform, b.Transform)
	}
	return nil
}

func nearPattern(what string, a, b svg.Pattern, tol float64) error {
	ga, oka := a.(svg.Gradient)
	gb, okb := b.(svg.Gradient)
	if !oka && !okb {
		if !deepSame(a, b) {
			return fmt.Errorf("%s %v and %v", what, a, b)
		}
		return nil
	}
	if oka != okb {
		return fmt.Errorf("%s %T and %T", what, a, b)
	}
	dir := func(g svg.Gradient) []float64 {
		switch d := g.Direction.(type) {
		case svg.Linear:
			return d[:]
		case svg.Radial:
			return d[:]
		}
		return nil
	}
	da, db := dir(ga), dir(gb)
	if len(da) != len(db) {
		return fmt.Errorf("%s gradients of different kinds", what)
	}
	for i := range da {
		if !relEq(da[i], db[i], tol) {
			return fmt.Errorf("%s gradient vector %v and %v", what, da, db)
		}
	}
	if ga.Spread != gb.Spread || ga.Units != gb.Units || !deepSame(ga.Stops, gb.Stops) || !matNear(toMat(ga.Matrix), toMat(gb.Matrix), tol) {
		return fmt.Errorf("%s gradient %v and %v", what, ga, gb)
	}
	return nil
}

// ---- C07: colours ----

type ColourCase struct {
	Slot string `json:"slot"` // fill stroke style-fill stop inherited
	P    Paint  `json:"p"`
	Raw  string `json:"raw,omitempty"` // rgb() with out of range components
	Nz   Noise  `json:"nz,omitempty"`
}

func genColourCase(t *rapid.T) ColourCase {
	c := ColourCase{Slot: oneOf(t, "slot", "fill", "stroke", "style-fill", "style-stroke", "stop", "style-stop", "inherited"), Nz: genNoise(t, 12)}
	if chance(t, 1, 4, "range") {
		perc := chance(t, 1, 2, "perc")
		var parts []string
		for i := 0; i < 3; i++ {
			if perc {
				v := intn(t, -40, 160, "p")
				c.P.RGB[i] = int(math.Round(255 * clamp01(float64(v)/100)))
				parts = append(parts, fmt.Sprintf("%d%%", v))
			} else {
				v := intn(t, -300, 600, "c")
				c.P.RGB[i] = max(0, min(255, v))
				parts = append(parts, fmt.Sprint(v))
			}
		}
		c.Raw = "rgb(" + strings.Join(parts, oneOf(t, "sep", ",", ", ", " , ")) + ")"
		return c
	}
	c.P = *genPaint(t, c.Slot != "stop" && c.Slot != "style-stop", nil)
	return c
}

func checkColour(c ColourCase, r *Rec) error {
	txt := c.Raw
	if txt == "" {
		txt = paintText(&c.P, c.Nz.reader())
	}
	want := RPaint{None: c.P.None, RGB: c.P.RGB}
	if c.P.Name != "" {
		want.RGB = cssNames[c.P.Name]
		r.Label("name")
	}
	r.Label("slot-%s", c.Slot)
	if c.Raw != "" {
		r.Label("out-of-range")
	}
	r.NonTrivial(true)
	const path = `d="M1 2L3 4L5 9z"`
	body := map[string]string{
		"fill":         `<path ` + path + ` fill="%s"/>`,
		"stroke":       `<path ` + path + ` stroke="%s"/>`,
		"style-fill":   `<path ` + path + ` style="fill:%s"/>`,
		"style-stroke": `<path ` + path + ` style="stroke: %s ;"/>`,
		"stop":         `<linearGradient id="g"><stop offset="0.5" stop-color="%s"/></linearGradient><path ` + path + ` fill="url(#g)"/>`,
		"style-stop":   `<linearGradient id="g"><stop offset="0.5" style="stop-color:%s;stop-opacity:1"/></linearGradient><path ` + path + ` fill="url(#g)"/>`,
		"inherited":    `<g fill="%s"><g><path ` + path + `/></g></g>`,
	}[c.Slot]
	doc := `<svg viewBox="0 0 10 10">` + fmt.Sprintf(body, txt) + `</svg>`
	r.Sample(doc)
	s, err := mustParse(doc, svg.StrictErrorMode)
	if err != nil {
		return err
	}
	if len(s.SvgPaths) != 1 {
		return fmt.Errorf("%d paths\n%s", len(s.SvgPaths), doc)
	}
	st := s.SvgPaths[0].Style
	got := st.FillerColor
	if strings.HasSuffix(c.Slot, "stroke") {
		got = st.LinerColor
	}
	if strings.HasSuffix(c.Slot, "stop") {
		g, ok := got.(svg.Gradient)
		if !ok || len(g.Stops) != 1 || g.Stops[0].StopColor == nil {
			return fmt.Errorf("fill is %v, want a gradient with one stop\n%s", got, doc)
		}
		rgb, a := rgbOf(g.Stops[0].StopColor)
		got = svg.NewPlainColor(uint8(rgb[0]), uint8(rgb[1]), uint8(rgb[2]), uint8(a))
	}
	if err := cmpPaint(c.Slot, got, want); err != nil {
		return fmt.Errorf("%v\n%s", err, doc)
	}
	// exact for everything but percentages
	if !want.None && c.P.Form != 3 && !strings.Contains(txt, "%") {
		rgb, _ := rgbOf(got.(svg.PlainColor))
		if rgb != want.RGB {
			return fmt.Errorf("colour %q is %v, want %v", txt, rgb, want.RGB)
		}
	}
	return nil
}

func init() {
	var names []ColourCase
	for _, n := range cssNameList {
		names = append(names, ColourCase{Slot: "fill", P: Paint{Name: n}}, ColourCase{Slot: "style-stop", P: Paint{Name: n}, Nz: Noise{1}})
	}
	register("C05", NewSub("shapes", 150000, 3000000, "one to four basic shapes, some degenerate", genShapesDoc, checkShapes))
	register("C06",
		NewSub("one-length", 200000, 3000000, "one attribute with a length in a unit other than user units", genLenCase, checkLen),
		NewSub("documents", 40000, 800000, "documents with at least two shapes whose lengths use all units",
			genDocCase(docOpt{units: true, depth: 1, kids: 3, noVB: true, decls: []string{"stroke-width", "stroke-dasharray", "stroke-dashoffset"}, uses: true}),
			docCheck(fWidth|fDash|fXf, true, func(s docStat) bool { return s.shapes >= 2 }, nil)),
	)
	register("C07", NewSub("colours", 200000, 3000000, "every case: one colour in one slot; all 147 names are always tried", genColourCase, checkColour, names...))
	register("C08",
		NewSub("cascade", 80000, 1500000, "nested documents with at least three declarations and two shapes",
			genDocCase(docOpt{depth: 3, kids: 3, decls: allDecls, kinds: []string{"path", "rect", "line", "polygon"}, text: true, maxDecl: 5}),
			docCheck(fAll&^fXf, false, func(s docStat) bool { return s.shapes >= 2 && s.decls >= 3 }, nil)),
		NewSub("cascade-refs", 40000, 800000, "the same with gradients, masks and used definitions",
			genDocCase(docOpt{depth: 2, kids: 3, decls: append([]string{"mask", "mask"}, allDecls...), kinds: []string{"path", "rect"}, grads: true, masks: true, uses: true, units: true}),
			docCheck(fAll&^fXf, false, func(s docStat) bool { return s.shapes >= 2 && s.decls >= 3 }, nil)),
	)
	register("C08", NewSub("chains", 30000, 600000, "chains of three to ten groups that each declare something, with shapes on both sides",
		genChain, docCheck(fAll, false, func(s docStat) bool { return s.depth >= 4 && s.shapes >= 2 }, nil)))
	register("C09",
		NewSub("lists", 100000, 2000000, "nested transform lists on groups, shapes and uses",
			genDocCase(docOpt{depth: 3, kids: 3, decls: []string{"transform"}, kinds: []string{"path", "line"}, uses: true, maxDecl: 2}),
			docCheck(fXf, false, func(s docStat) bool { return s.decls >= 2 && s.shapes >= 1 }, nil)),
	)
	register("C11",
		NewSub("structure", 80000, 1500000, "documents with groups, text, definitions, masks, nested svg and unknown elements; at least three elements",
			genDocCase(docOpt{depth: 3, kids: 4, decls: []string{"fill", "transform", "mask", "stroke-width"}, grads: true, masks: true, uses: true, text: true, unknown: true, nested: true, noVB: true, maxDecl: 2}),
			docCheck(fAll, true, func(s docStat) bool { return s.shapes+s.groups+s.texts+s.masks+s.unknown >= 3 }, structure)),
	)
	register("C13",
		NewSub("gradients", 80000, 1500000, "documents with at least one gradient that is referenced",
			genDocCase(docOpt{depth: 1, kids: 3, decls: []string{"fill", "stroke", "fill", "transform"}, kinds: []string{"path", "rect"}, grads: true, uses: true, noVB: true}),
			docCheck(fFill|fStroke, false, func(s docStat) bool { return s.grads >= 1 && s.decls >= 1 }, nil)),
	)
}
