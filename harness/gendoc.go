package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// docOpt selects what a generated document may contain.
type docOpt struct {
	decls   []string // style properties that may be set
	kinds   []string // shapes
	units   bool     // lengths with units
	depth   int      // nesting of groups
	kids    int      // usual number of children
	grads   bool
	masks   bool
	uses    bool
	useBias bool // mostly uses
	text    bool // titles and descriptions
	unknown bool // elements the parser does not know
	nested  bool // nested svg elements
	noVB    bool // the view box may be missing
	maxDecl int

	pic      bool // elements near the square from 0,0 to 100,100, see c_e2e.go
	picMasks bool // masks on shapes
}

var allDecls = []string{"fill", "stroke", "fill-rule", "stroke-width", "stroke-linecap", "stroke-linejoin",
	"stroke-miterlimit", "stroke-dasharray", "stroke-dashoffset", "opacity", "fill-opacity", "stroke-opacity",
	"transform", "stroke-leadlinecap", "stroke-linegap"}

// gctx is the state of document generation.
type gctx struct {
	t      *rapid.T
	o      docOpt
	grads  []string
	masks  []string
	defs   []string // identifiers of defined elements, in order
	nid    int
	count  int
	fo, so bool // fill-opacity, stroke-opacity already set in this chain
	inMask bool
}

func (g *gctx) far() int {
	if g.o.pic {
		return 30
	}
	return 100
}

func (g *gctx) id(prefix string) string {
	g.nid++
	return fmt.Sprintf("%s%d", prefix, g.nid)
}

func (g *gctx) decl(name string) Decl {
	t := g.t
	d := Decl{Name: name}
	if g.o.pic && genPicDecl(t, name, &d) {
		return d
	}
	switch name {
	case "fill", "stroke":
		d.Paint = genPaint(t, true, g.grads)
	case "fill-rule":
		d.Word = oneOf(t, "rule", "evenodd", "nonzero")
	case "stroke-width":
		l := genPosLen(t, 20, g.o.units, "sw")
		if chance(t, 1, 12, "sw0") {
			l.V = 0
		}
		d.Len = &l
	case "stroke-linecap":
		d.Word = oneOf(t, "cap", "butt", "round", "square", "cubic", "quadratic")
	case "stroke-leadlinecap":
		d.Word = oneOf(t, "lcap", "butt", "round", "square", "cubic", "quadratic")
	case "stroke-linejoin":
		d.Word = oneOf(t, "join", "miter", "miter-clip", "arc-clip", "round", "arc", "bevel")
	case "stroke-linegap":
		d.Word = oneOf(t, "gap", "flat", "round", "cubic", "quadratic")
	case "stroke-miterlimit":
		d.Num = 1 + dec(t, 0, 12, "miter")
	case "stroke-dasharray":
		if chance(t, 1, 4, "dnone") {
			d.Word = "none"
			break
		}
		n := size(t, 1, 4, 30, "ndash")
		for i := 0; i < n; i++ {
			l := genLen(t, 0, 30, g.o.units, "dash")
			d.Lens = append(d.Lens, l)
		}
	case "stroke-dashoffset":
		l := genLen(t, -40, 40, g.o.units, "doff")
		d.Len = &l
	case "opacity", "fill-opacity", "stroke-opacity":
		switch intn(t, 0, 6, "opform") {
		case 6: // out of range
			l := oneOf(t, "opout", Len{V: -0.5}, Len{V: 1.5}, Len{V: 100}, Len{V: -3}, Len{V: 150, U: "%"}, Len{V: -20, U: "%"}, Len{V: 1.001}, Len{V: -0.001})
			d.Len = &l
		case 0:
			l := Len{V: float64(intn(t, 0, 100, "opp")), U: "%"}
			d.Len = &l
		case 1:
			d.Num = oneOf(t, "opx", 0.0, 1.0, 0.5)
			if d.Num == 0 {
				l := Len{V: 0}
				d.Len = &l
			}
		default:
			d.Num = float64(intn(t, 1, 1000, "op")) / 1000
		}
	case "transform":
		d.Xfs = genXfList(t, 3)
	case "mask":
		if len(g.masks) == 0 || chance(t, 1, 5, "mnone") {
			d.Word = "none"
		} else {
			d.Word = "url(#" + oneOf(t, "mask", g.masks...) + ")"
		}
	}
	return d
}

// decls draws the style of one element. A property may be given twice, as an
// attribute and in the style attribute, which then takes precedence.
func (g *gctx) decls() []Decl {
	if len(g.o.decls) == 0 {
		return nil
	}
	n := size(g.t, 0, g.o.maxDecl, 4*g.o.maxDecl, "ndecl")
	var out []Decl
	used := map[string]int{}
	for i := 0; i < n; i++ {
		name := oneOf(g.t, "decl", g.o.decls...)
		sty := chance(g.t, 1, 3, "sty")
		switch name {
		case "fill-opacity":
			if g.fo {
				continue
			}
		case "stroke-opacity":
			if g.so {
				continue
			}
		}
		bit := 1
		if sty {
			bit = 2
		}
		switch name {
		case "opacity", "fill-opacity", "stroke-opacity", "transform", "mask":
			if used[name] != 0 {
				continue
			}
			if name == "transform" || name == "mask" {
				sty = false
			}
		default:
			if used[name]&bit != 0 {
				continue
			}
		}
		used[name] |= bit
		if name == "fill-opacity" {
			g.fo = true
		}
		if name == "stroke-opacity" {
			g.so = true
		}
		d := g.decl(name)
		d.Sty = sty
		out = append(out, d)
	}
	return out
}

func (g *gctx) grad(id string) *Elem {
	t := g.t
	gd := &GradDef{Radial: chance(t, 2, 5, "radial"), A: map[string]Len{}}
	user := chance(t, 1, 2, "userspace")
	if user {
		gd.Units = "userSpaceOnUse"
	} else if chance(t, 1, 3, "explicit-units") {
		gd.Units = "objectBoundingBox"
	}
	val := func(k string) {
		if chance(t, 1, 3, k+".absent") {
			return
		}
		switch {
		case user:
			gd.A[k] = genLen(t, -50, 200, true, k)
		case chance(t, 1, 2, k+".perc"):
			gd.A[k] = Len{V: dec(t, -50, 150, k), U: "%"}
		default:
			gd.A[k] = Len{V: dec(t, -1, 2, k)}
		}
	}
	if gd.Radial {
		for _, k := range []string{"cx", "cy", "fx", "fy"} {
			val(k)
		}
		for _, k := range []string{"r", "fr"} {
			val(k)
			if l, ok := gd.A[k]; ok && l.V < 0 {
				l.V = -l.V
				gd.A[k] = l
			}
		}
	} else {
		for _, k := range []string{"x1", "y1", "x2", "y2"} {
			val(k)
		}
	}
	if len(gd.A) == 0 {
		gd.A = nil
	}
	gd.Spread = oneOf(t, "spread", "", "", "pad", "reflect", "repeat")
	if chance(t, 1, 3, "gxf") {
		gd.Xfs = genXfList(t, 3)
	}
	n := size(t, 0, 4, 40, "nstops")
	for i := 0; i < n; i++ {
		s := StopDef{Off: float64(intn(t, 0, 100, "off")) / 100, OffPerc: chance(t, 1, 2, "offp")}
		if !chance(t, 1, 6, "nocolour") {
			s.Color = genPaint(t, false, nil)
		}
		if chance(t, 1, 2, "hasopa") {
			s.HasOpa = true
			s.Opacity = float64(intn(t, 0, 100, "sop")) / 100
			s.OpaPerc = chance(t, 1, 3, "sopp")
		}
		s.StyColor = chance(t, 1, 3, "styc")
		s.StyOpa = chance(t, 1, 3, "styo")
		gd.Stops = append(gd.Stops, s)
	}
	tag := "linearGradient"
	if gd.Radial {
		tag = "radialGradient"
	}
	return &Elem{Tag: tag, ID: id, Grad: gd}
}

// shapeElem draws one shape element with its own style.
func (g *gctx) shapeElem() *Elem {
	g.count++
	fo, so := g.fo, g.so
	var sh *Shape
	if g.o.pic {
		sh = genPicShape(g.t)
	} else {
		sh = genShape(g.t, g.o.units, g.o.kinds...)
	}
	e := &Elem{Tag: sh.Kind, Shape: sh, Decls: g.decls()}
	if g.o.picMasks && !g.inMask && len(g.masks) > 0 && chance(g.t, 1, 2, "masked") {
		e.Decls = append(e.Decls, Decl{Name: "mask", Word: "url(#" + oneOf(g.t, "mask", g.masks...) + ")"})
	}
	if g.o.text && chance(g.t, 1, 8, "shapetitle") {
		e.Kids = append(e.Kids, g.textElem())
	}
	g.fo, g.so = fo, so
	return e
}

func (g *gctx) textElem() *Elem {
	e := &Elem{Tag: oneOf(g.t, "texttag", "title", "desc"), Text: genText(g.t)}
	if chance(g.t, 1, 6, "textkids") {
		for i := intn(g.t, 1, 2, "ntextkids"); i > 0; i-- {
			e.Kids = append(e.Kids, &Elem{Tag: "g", Text: genText(g.t)})
		}
		e.Tail = genText(g.t)
	}
	return e
}

// genText draws character data; XML normalises line ends, so no carriage returns.
func genText(t *rapid.T) string {
	return rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ 0123&<>'\"]é世\n.;:-#")), 0, 12, -1).Draw(t, "text")
}

var unknownTags = []string{"text", "image", "clipPath", "filter", "a", "switch", "symbol", "marker", "foreignObject", "foo"}

// elem draws one element of the document body.
func (g *gctx) elem(depth int) *Elem {
	t := g.t
	o := g.o
	k := intn(t, 0, 19, "elem")
	switch {
	case (k >= 17 || o.useBias && k >= 10) && o.uses && len(g.defs) > 0 && !g.inMask:
		e := &Elem{Tag: "use", Href: oneOf(t, "href", g.defs...)}
		fo, so := g.fo, g.so
		g.fo, g.so = true, true // the definitions may set them
		e.Decls = g.decls()
		g.fo, g.so = fo, so
		if !chance(t, 1, 3, "nox") {
			l := genLen(t, -g.far(), g.far(), o.units, "ux")
			e.X = &l
		}
		if !chance(t, 1, 3, "noy") {
			l := genLen(t, -g.far(), g.far(), o.units, "uy")
			e.Y = &l
		}
		return e
	case k >= 15 && o.text:
		return g.textElem()
	case k == 7 && (o.uses || o.grads || o.masks) && !g.inMask && !o.pic:
		fo, so := g.fo, g.so
		e := g.defsElem()
		g.fo, g.so = fo, so
		return e
	case k == 14 && o.unknown && depth > 0:
		return g.group(oneOf(t, "utag", unknownTags...), depth)
	case k == 13 && o.nested && depth > 0:
		e := g.group("svg", depth)
		if chance(t, 1, 2, "nestedvb") {
			e.Attrs = append(e.Attrs, "viewBox", "1 2 30 40")
		}
		if chance(t, 1, 2, "nestedw") {
			e.Attrs = append(e.Attrs, "width", "17", "height", "19px")
		}
		return e
	case k >= 8 && k <= 12 && depth > 0:
		return g.group("g", depth)
	}
	return g.shapeElem()
}

func (g *gctx) group(tag string, depth int) *Elem {
	g.count++
	fo, so := g.fo, g.so
	e := &Elem{Tag: tag, Decls: g.decls()}
	n := intn(g.t, 0, g.o.kids, "nkids")
	for i := 0; i < n; i++ {
		e.Kids = append(e.Kids, g.elem(depth-1))
	}
	g.fo, g.so = fo, so
	return e
}

// wrap puts elements into a chain of groups, some of which have other content.
func (g *gctx) wrap(kids []*Elem) *Elem {
	t := g.t
	var e *Elem
	for n := size(t, 2, 6, 30, "chain"); n > 0; n-- {
		e = &Elem{Tag: "g", Kids: kids}
		if !g.o.pic && chance(t, 1, 8, "chainbefore") {
			e.Kids = append([]*Elem{g.shapeElem()}, e.Kids...)
		}
		if !g.o.pic && chance(t, 1, 8, "chainafter") {
			e.Kids = append(e.Kids, g.shapeElem())
		}
		kids = []*Elem{e}
	}
	return e
}

// defsElem draws a block of definitions.
func (g *gctx) defsElem() *Elem {
	t := g.t
	e := &Elem{Tag: "defs"}
	n := intn(t, 1, 3, "ndefs")
	for i := 0; i < n; i++ {
		switch k := intn(t, 0, 3, "deftag"); {
		case k == 0 && g.o.grads:
			id := g.id("gr")
			e.Kids = append(e.Kids, g.grad(id))
			g.grads = append(g.grads, id)
		case k == 1 && g.o.masks:
			e.Kids = append(e.Kids, g.maskElem())
		case g.o.uses:
			e.Kids = append(e.Kids, g.defined(2))
		}
	}
	return e
}

// defined draws an element of a defs block, possibly with an identifier.
func (g *gctx) defined(depth int) *Elem {
	t := g.t
	var e *Elem
	before := append([]string{}, g.defs...)
	switch k := intn(t, 0, 5, "dkind"); {
	case k == 5 && len(before) > 0:
		e = &Elem{Tag: "use", Href: oneOf(t, "dhref", before...), Decls: nil}
		if chance(t, 1, 2, "dx") {
			l := genLen(t, -50, 50, g.o.units, "dux")
			e.X = &l
		}
	case k >= 3 && depth > 0:
		fo, so := g.fo, g.so
		e = &Elem{Tag: "g", Decls: g.decls()}
		g.fo, g.so = true, true
		n := intn(t, 0, 3, "dkids")
		for i := 0; i < n; i++ {
			e.Kids = append(e.Kids, g.defined(depth-1))
		}
		if chance(t, 1, 12, "deepdef") {
			e.Kids = []*Elem{g.wrap(e.Kids)}
		}
		if !g.o.pic && chance(t, 1, 5, "hidden") {
			// content of a definition that is not drawn with it
			h := &Elem{Tag: oneOf(t, "hiddentag", "title", "desc", "defs")}
			if h.Tag != "defs" {
				h.Text = genText(t)
			}
			for i := intn(t, 0, 2, "nhidden"); i > 0; i-- {
				h.Kids = append(h.Kids, g.shapeElem())
			}
			at := intn(t, 0, len(e.Kids), "hiddenat")
			e.Kids = append(e.Kids[:at], append([]*Elem{h}, e.Kids[at:]...)...)
		}
		g.fo, g.so = fo, so
		if g.o.unknown && depth < 2 && chance(t, 1, 4, "defunknown") {
			e.Tag = oneOf(t, "utag", unknownTags...)
		}
	default:
		e = g.shapeElem()
	}
	if depth == 2 || chance(t, 1, 3, "innerid") {
		e.ID = g.id("d")
		g.defs = append(g.defs, e.ID)
	}
	return e
}

func (g *gctx) maskElem() *Elem {
	t := g.t
	e := &Elem{Tag: "mask", ID: g.id("m")}
	if chance(t, 1, 2, "maskbox") {
		e.Attrs = []string{"x", fnum(dec(t, -50, 50, "mx")), "y", fnum(dec(t, -50, 50, "my")), "width", "200", "height", "150"}
	}
	prev := g.o.decls
	var pool []string
	for _, d := range prev {
		if d != "mask" {
			pool = append(pool, d)
		}
	}
	g.o.decls = pool
	g.inMask = true
	fo, so := g.fo, g.so
	n := intn(t, 0, 3, "nmask")
	for i := 0; i < n; i++ {
		if chance(t, 1, 4, "maskgroup") {
			tag := "g"
			if g.o.unknown && chance(t, 1, 3, "maskunknown") {
				tag = oneOf(t, "utag", unknownTags...)
			}
			e.Kids = append(e.Kids, g.group(tag, 1))
		} else {
			e.Kids = append(e.Kids, g.shapeElem())
		}
	}
	g.fo, g.so = fo, so
	g.inMask = false
	g.o.decls = prev
	g.masks = append(g.masks, e.ID)
	return e
}

func genDoc(t *rapid.T, o docOpt) *Doc {
	if o.maxDecl == 0 {
		o.maxDecl = 4
	}
	g := &gctx{t: t, o: o}
	d := &Doc{HasVB: true, Prolog: intn(t, 0, 3, "prolog")}
	d.VB = [4]float64{0, 0, 100, 100}
	switch intn(t, 0, 3, "vbk") {
	case 1:
		d.VB = [4]float64{0, 0, float64(intn(t, 1, 400, "vbw")), float64(intn(t, 1, 400, "vbh"))}
	case 2:
		d.VB = [4]float64{dec(t, -100, 100, "vbx"), dec(t, -100, 100, "vby"), posDec(t, 400, "vbw"), posDec(t, 400, "vbh")}
	}
	if o.noVB && chance(t, 1, 3, "novb") {
		d.HasVB = false
	}
	if !d.HasVB || chance(t, 1, 3, "hasw") {
		l := Len{V: posDec(t, 300, "docw"), U: oneOf(t, "docwu", "", "", "px", "mm", "in", "pt")}
		d.W = &l
	}
	if !d.HasVB || chance(t, 1, 3, "hash") {
		l := Len{V: posDec(t, 300, "doch"), U: oneOf(t, "dochu", "", "", "px", "cm", "Q", "pc")}
		d.H = &l
	}
	if chance(t, 1, 3, "rootstyle") {
		d.Decls = g.decls()
	}
	if o.grads {
		n := intn(t, 0, 2, "ngrads")
		for i := 0; i < n; i++ {
			id := g.id("gr")
			e := g.grad(id)
			g.grads = append(g.grads, id)
			if chance(t, 1, 2, "gdefs") {
				e = &Elem{Tag: "defs", Kids: []*Elem{e}}
			}
			d.Kids = append(d.Kids, e)
		}
	}
	if (o.masks || o.picMasks) && chance(t, 1, 2, "mask0") {
		d.Kids = append(d.Kids, g.maskElem())
	}
	n := size(t, 1, max(o.kids, 1), 12, "nroot")
	for i := 0; i < n; i++ {
		if (o.uses || o.grads || o.masks) && (chance(t, 1, 3, "defsblock") || o.useBias && i == 0) {
			d.Kids = append(d.Kids, g.defsElem())
		}
		d.Kids = append(d.Kids, g.elem(o.depth))
	}
	if chance(t, 1, 8, "deep") {
		from := intn(t, 0, len(d.Kids)-1, "deepfrom")
		to := intn(t, from+1, len(d.Kids), "deepto")
		d.Kids = append(append(d.Kids[:from:from], g.wrap(d.Kids[from:to:to])), d.Kids[to:]...)
	}
	d.Noise = genNoise(t, 60)
	return d
}

// counts of what a document contains, for labels and non-triviality
type docStat struct {
	shapes, groups, decls, uses, grads, masks, texts, unknown, depth int
}

func (d *Doc) stat() docStat {
	var s docStat
	var walk func(e *Elem, depth int)
	walk = func(e *Elem, depth int) {
		s.depth = max(s.depth, depth)
		s.decls += len(e.Decls)
		switch {
		case e.Shape != nil:
			s.shapes++
		case e.Tag == "g" || e.Tag == "svg":
			s.groups++
		case e.Tag == "use":
			s.uses++
		case e.Grad != nil:
			s.grads++
		case e.Tag == "mask":
			s.masks++
		case e.Tag == "title" || e.Tag == "desc":
			s.texts++
		case e.Tag == "defs":
		default:
			s.unknown++
		}
		for _, k := range e.Kids {
			walk(k, depth+1)
		}
	}
	for _, k := range d.Kids {
		walk(k, 1)
	}
	s.decls += len(d.Decls)
	return s
}
