package main

import (
	"fmt"
	"strings"

	svg "github.com/lafriks/go-svg"
	"pgregory.net/rapid"
)

// ---- C12: a use element draws what its definition would draw in its place ----

// inline returns the document with every use replaced by a group holding a
// copy of the referenced element.
func (d *Doc) inline() *Doc {
	vb := d.vb()
	defs := map[string]*Elem{}
	var collect func(e *Elem)
	collect = func(e *Elem) {
		if e.ID != "" && e.Grad == nil && e.Tag != "mask" {
			defs[e.ID] = e
		}
		for _, k := range e.Kids {
			collect(k)
		}
	}
	var find func(ks []*Elem)
	find = func(ks []*Elem) {
		for _, k := range ks {
			if k.Tag == "defs" {
				collect(k)
			} else {
				find(k.Kids)
			}
		}
	}
	find(d.Kids)
	var expand func(e *Elem, inst bool) *Elem
	expand = func(e *Elem, inst bool) *Elem {
		c := *e
		c.Kids = nil
		if inst {
			c.ID = ""
		}
		if e.Tag == "use" {
			var x, y float64
			if e.X != nil {
				x = e.X.Px(vb[2])
			}
			if e.Y != nil {
				y = e.Y.Px(vb[3])
			}
			g := &Elem{Tag: "g"}
			shift := Xf{"translate", []float64{x, y}}
			has := false
			for _, dc := range e.Decls {
				if dc.Name == "transform" {
					dc.Xfs = append(append([]Xf{}, dc.Xfs...), shift)
					has = true
				}
				g.Decls = append(g.Decls, dc)
			}
			if !has {
				g.Decls = append(g.Decls, Decl{Name: "transform", Xfs: []Xf{shift}})
			}
			if def := defs[e.Href]; def != nil {
				g.Kids = append(g.Kids, expand(def, true))
			}
			return g
		}
		for _, k := range e.Kids {
			if inst && (k.Tag == "title" || k.Tag == "desc" || k.Tag == "defs") {
				continue
			}
			c.Kids = append(c.Kids, expand(k, inst))
		}
		if e.Tag == "defs" { // keep gradients and masks only
			c.Kids = nil
			for _, k := range e.Kids {
				if k.Grad != nil || k.Tag == "mask" {
					c.Kids = append(c.Kids, k)
				}
			}
		}
		return &c
	}
	out := *d
	out.Kids = nil
	for _, k := range d.Kids {
		out.Kids = append(out.Kids, expand(k, false))
	}
	return &out
}

func checkInline(c DocCase, r *Rec) error {
	st := c.Doc.stat()
	st.labels(r)
	r.NonTrivial(st.uses >= 1)
	a, b := c.Doc.text(), c.Doc.inline().text()
	r.Sample(a)
	sa, err := mustParse(a, svg.ErrorMode(c.Mode))
	if err != nil {
		return err
	}
	sb, err := mustParse(b, svg.ErrorMode(c.Mode))
	if err != nil {
		return err
	}
	if err := nearSvg(sa, sb, 1e-6); err != nil {
		return fmt.Errorf("the use elements and their expansion differ: %v\n%s\n%s", err, clip(a), clip(b))
	}
	return nil
}

// UseGraph is a set of definitions that refer to each other.
type UseGraph struct {
	Refs [][]int `json:"refs"` // -1: a shape; otherwise a use of that definition, or of an unknown one
	Root int     `json:"root"`
	Mode int     `json:"mode,omitempty"`
}

func genUseGraph(t *rapid.T) UseGraph {
	n := intn(t, 1, 6, "n")
	if chance(t, 1, 10, "chain") { // each definition uses the next one
		n += intn(t, 1, 30, "long")
		g := UseGraph{Mode: intn(t, 0, 2, "mode")}
		for i := 0; i < n; i++ {
			var refs []int
			if chance(t, 1, 4, "before") {
				refs = append(refs, -1)
			}
			if i < n-1 {
				refs = append(refs, i+1)
			} else if chance(t, 1, 3, "back") {
				refs = append(refs, intn(t, 0, n-1, "to"))
			} else {
				refs = append(refs, -1)
			}
			if chance(t, 1, 4, "after") {
				refs = append(refs, -1)
			}
			g.Refs = append(g.Refs, refs)
		}
		return g
	}
	g := UseGraph{Mode: intn(t, 0, 2, "mode"), Root: intn(t, 0, n-1, "root")}
	cyc := chance(t, 1, 2, "cyclic")
	unknown := chance(t, 1, 3, "unknown")
	if unknown && chance(t, 1, 4, "unknown root") {
		g.Root = intn(t, n, n+len(strangeIDs)-1, "strange")
	}
	for i := 0; i < n; i++ {
		var refs []int
		for k := intn(t, 0, 3, "nrefs"); k > 0; k-- {
			lo := 0
			if !cyc {
				lo = i + 1 // forward references only
			}
			if unknown && chance(t, 1, 6, "strange ref") {
				refs = append(refs, intn(t, n, n+len(strangeIDs)-1, "strange"))
			} else if lo >= n || chance(t, 2, 5, "shape") {
				refs = append(refs, -1)
			} else {
				refs = append(refs, intn(t, lo, n-1, "ref"))
			}
		}
		g.Refs = append(g.Refs, refs)
	}
	return g
}

// strangeIDs are not ids of definitions.
var strangeIDs = []string{"x", "D0", "d", "d00", "d0 ", "d0d1", "#d0", "out", "outside", "later"}

func (g UseGraph) id(i int) string {
	if i < len(g.Refs) {
		return fmt.Sprintf("d%d", i)
	}
	return strangeIDs[(i-len(g.Refs))%len(strangeIDs)]
}

func (g UseGraph) text() string {
	var b strings.Builder
	b.WriteString(`<svg viewBox="0 0 10 10"><defs>`)
	for i, refs := range g.Refs {
		fmt.Fprintf(&b, `<g id="d%d">`, i)
		for _, r := range refs {
			if r < 0 {
				b.WriteString(`<path d="M1 2L3 4"/>`)
			} else {
				fmt.Fprintf(&b, `<use href="#%s" x="1"/>`, g.id(r))
			}
		}
		b.WriteString(`</g>`)
	}
	fmt.Fprintf(&b, `</defs><path d="M0 0L1 1"/><use href="#%s"/><path d="M0 0L2 2"/></svg>`, g.id(g.Root))
	return b.String()
}

func checkUseGraph(g UseGraph, r *Rec) error {
	// number of shapes drawn, and horizontal offsets in order; -1 when cyclic
	var offs []float64
	open := make([]bool, len(g.Refs))
	cyclic, unknown := false, false
	var walk func(i int, off float64)
	walk = func(i int, off float64) {
		if i >= len(g.Refs) {
			unknown = true
			return
		}
		if open[i] {
			cyclic = true
		}
		if cyclic || len(offs) > 5000 {
			return
		}
		open[i] = true
		for _, ref := range g.Refs[i] {
			if ref < 0 {
				offs = append(offs, off)
			} else {
				walk(ref, off+1)
			}
		}
		open[i] = false
	}
	walk(g.Root, 0)
	text := g.text()
	r.Sample(text)
	r.NonTrivial(len(offs) > 1 || cyclic || unknown)
	s, err := parse(text, svg.ErrorMode(g.Mode))
	if unknown {
		r.Label("unknown")
	}
	if cyclic {
		r.Label("cyclic")
	}
	if cyclic || unknown {
		if err == nil {
			return fmt.Errorf("a use element that refers to itself or to an unknown id is not reported\n%s", text)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("valid document rejected: %v\n%s", err, text)
	}
	if len(s.SvgPaths) != len(offs)+2 {
		return fmt.Errorf("%d paths, want %d\n%s", len(s.SvgPaths), len(offs)+2, text)
	}
	for i, o := range offs {
		if m := s.SvgPaths[i+1].Style.Transform; !matNear(toMat(m), Mat{A: 1, D: 1, E: o}, 1e-9) {
			return fmt.Errorf("path %d has transform %v, want a translation by %v\n%s", i+1, m, o, text)
		}
	}
	for _, i := range []int{0, len(offs) + 1} {
		if m := s.SvgPaths[i].Style.Transform; !matNear(toMat(m), idMat, 1e-9) {
			return fmt.Errorf("path %d outside the use has transform %v\n%s", i, m, text)
		}
	}
	return nil
}

func init() {
	o := docOpt{depth: 2, kids: 3, decls: append([]string{"transform", "transform", "mask"}, allDecls...), grads: true, masks: true, uses: true, useBias: true, units: true, text: true, unknown: true}
	register("C12",
		NewSub("model", 80000, 1500000, "documents with at least one use of a definition",
			genDocCase(o), docCheck(fAll, true, func(s docStat) bool { return s.uses >= 1 }, structure)),
		NewSub("inline", 80000, 1500000, "documents with at least one use, compared with their expansion", genDocCase(o), checkInline),
		NewSub("graphs", 80000, 1500000, "definitions that use each other, drawing at least two shapes or cyclic", genUseGraph, checkUseGraph),
	)
}
