package main

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"strings"
	"sync"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"pgregory.net/rapid"
)

var allKinds = []string{kDraw2d, kGG, kRasterx, kRasterxGV}

// ---- C16: parsing and drawing have no memory and no side effects ----

var (
	defaultStyle0 = svg.DefaultStyle
	identity0     = svg.Identity
)

func globalsIntact() error {
	if !deepSame(defaultStyle0, svg.DefaultStyle) {
		return fmt.Errorf("DefaultStyle has changed to %+v", svg.DefaultStyle)
	}
	if identity0 != svg.Identity {
		return fmt.Errorf("Identity has changed to %v", svg.Identity)
	}
	return nil
}

// HistCase is a sequence of parses (and drawings) of some documents.
type HistCase struct {
	Texts []string
	Steps []int // index of the document
	Modes []int
	Kinds []string
	W, H  int
}

func genHistText(t *rapid.T) string {
	switch intn(t, 0, 9, "source") {
	case 0:
		return string(genMutated(t).B)
	case 1:
		return string(genCorpus(t).B)
	case 2, 3, 4:
		return genPic(kGG)(t).Doc.text()
	default:
		o := fullOpt
		o.depth, o.kids = 2, 3
		return genDoc(t, o).text()
	}
}

func genHist(t *rapid.T) HistCase {
	var c HistCase
	for n := intn(t, 1, 3, "docs"); n > 0; n-- {
		c.Texts = append(c.Texts, genHistText(t))
	}
	for n := intn(t, 2, 6, "steps"); n > 0; n-- {
		c.Steps = append(c.Steps, intn(t, 0, len(c.Texts)-1, "doc"))
		c.Modes = append(c.Modes, intn(t, 0, 2, "mode"))
		c.Kinds = append(c.Kinds, oneOf(t, "kind", allKinds...))
	}
	c.W, c.H = intn(t, 1, 60, "w"), intn(t, 1, 60, "h")
	return c
}

func (c *HistCase) sample() string {
	return fmt.Sprintf("%v %v\n%s", c.Steps, c.Kinds, strings.Join(c.Texts, "\n"))
}

type parsed struct {
	s   *svg.Svg
	err error
}

func (p parsed) same(q parsed) error {
	if (p.err == nil) != (q.err == nil) || p.err != nil && p.err.Error() != q.err.Error() {
		return fmt.Errorf("errors %v and %v", p.err, q.err)
	}
	if p.err != nil {
		return nil
	}
	return sameSvg(p.s, q.s)
}

// scribble overwrites everything a caller can reach in a parse result.
func scribble(s *svg.Svg) {
	ps := func(ps []svg.SvgPath) {
		for i := range ps {
			p := &ps[i]
			for j := range p.Path {
				p.Path[j] = svg.OpClose{}
			}
			for j := range p.Style.Dash.Dash {
				p.Style.Dash.Dash[j] = -7
			}
			for j := range p.Style.Masks {
				p.Style.Masks[j] = "scribbled"
			}
			for _, c := range []svg.Pattern{p.Style.FillerColor, p.Style.LinerColor} {
				if g, ok := c.(svg.Gradient); ok {
					for j := range g.Stops {
						g.Stops[j] = svg.GradStop{Offset: -3}
					}
				}
			}
			p.Style.Masks = append(p.Style.Masks, "more")
			p.Style.LineWidth = -1
		}
	}
	ps(s.SvgPaths)
	for id, m := range s.SvgMasks {
		if m != nil {
			ps(m.SvgPaths)
			m.SvgPaths = nil
		}
		delete(s.SvgMasks, id)
	}
	for i := range s.Titles {
		s.Titles[i] = "x"
	}
}

func checkParseHistory(c HistCase, r *Rec) error {
	r.Sample(c.sample())
	type key struct{ doc, mode int }
	first := map[key]parsed{}
	seen := 0
	for i, d := range c.Steps {
		k := key{d, c.Modes[i]}
		get := func() parsed {
			s, err := parse(c.Texts[d], svg.ErrorMode(k.mode))
			return parsed{s, err}
		}
		p := get()
		if q, ok := first[k]; ok {
			seen++
			if err := q.same(p); err != nil {
				return fmt.Errorf("step %d: document %d parses differently after %v: %v\n%s", i, d, c.Steps[:i], err, clip(c.Texts[d]))
			}
		} else {
			first[k] = p
		}
		// a result belongs to its caller
		if q := get(); q.err == nil {
			scribble(q.s)
			if err := p.same(get()); err != nil {
				return fmt.Errorf("step %d: document %d parses differently after another result was modified: %v\n%s", i, d, err, clip(c.Texts[d]))
			}
		}
	}
	if err := globalsIntact(); err != nil {
		return fmt.Errorf("%v\n%s", err, clip(c.sample()))
	}
	r.NonTrivial(len(first) > 1 || seen > 0)
	return nil
}

func checkDrawHistory(c HistCase, r *Rec) error {
	r.Sample(c.sample())
	drawn := 0
	for i, d := range c.Steps {
		s, err := parse(c.Texts[d], svg.IgnoreErrorMode)
		if err != nil || !bounded(s, idMat, 2000) || len(s.SvgPaths) == 0 {
			continue
		}
		ref, err := parse(c.Texts[d], svg.IgnoreErrorMode)
		if err != nil {
			return fmt.Errorf("rejected at the second time: %v", err)
		}
		drawn++
		r.Label("%s", c.Kinds[i])
		bg := (&Scene{Bg: [4]uint8{255, 255, 255, 255}}).bg()
		a, ea := render(c.Kinds[i], s, c.W, c.H, bg)
		if err := sameSvg(s, ref); err != nil {
			return fmt.Errorf("%s changed the document: %v\n%s", c.Kinds[i], err, clip(c.Texts[d]))
		}
		b, eb := render(c.Kinds[i], s, c.W, c.H, bg)
		if fmt.Sprint(ea) != fmt.Sprint(eb) {
			return fmt.Errorf("%s: errors %v and %v", c.Kinds[i], ea, eb)
		}
		if err := samePix(a, b, 0); err != nil {
			return fmt.Errorf("%s draws differently the second time: %v\n%s", c.Kinds[i], err, clip(c.Texts[d]))
		}
	}
	if err := globalsIntact(); err != nil {
		return fmt.Errorf("%v\n%s", err, clip(c.sample()))
	}
	r.NonTrivial(drawn > 0)
	return nil
}

// checkConcurrent runs the steps in goroutines, and then compares with the same steps
// one after another. The race detector is on.
func checkConcurrent(c HistCase, r *Rec) error {
	r.Sample(c.sample())
	bg := (&Scene{Bg: [4]uint8{255, 255, 255, 255}}).bg()
	shared := make([]parsed, len(c.Texts))
	ok := make([]bool, len(c.Texts))
	for i, t := range c.Texts {
		s, err := parse(t, svg.IgnoreErrorMode)
		shared[i] = parsed{s, err}
		ok[i] = err == nil && bounded(s, idMat, 2000)
	}
	type res struct {
		p  parsed
		im *image.RGBA
		e  error
		pn any
	}
	run := func(i int) (out res) {
		defer func() {
			if p := recover(); p != nil {
				out.pn = p
			}
		}()
		d := c.Steps[i]
		s, err := parse(c.Texts[d], svg.ErrorMode(c.Modes[i]))
		out.p = parsed{s, err}
		if ok[d] { // one parse result may be drawn by many at once
			out.im, out.e = render(c.Kinds[i], shared[d].s, c.W, c.H, bg)
		}
		return out
	}
	got := make([]res, len(c.Steps))
	captureLog(func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range c.Steps {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				got[i] = run(i)
			}(i)
		}
		close(start)
		wg.Wait()
	})
	for i := range c.Steps {
		if got[i].pn != nil {
			return fmt.Errorf("panic: %v\n%s", got[i].pn, clip(c.sample()))
		}
		want := run(i)
		if err := want.p.same(got[i].p); err != nil {
			return fmt.Errorf("parsed concurrently: %v\n%s", err, clip(c.Texts[c.Steps[i]]))
		}
		if want.im != nil {
			if err := samePix(want.im, got[i].im, 0); err != nil {
				return fmt.Errorf("%s drawn concurrently: %v\n%s", c.Kinds[i], err, clip(c.Texts[c.Steps[i]]))
			}
		}
	}
	r.NonTrivial(len(c.Steps) >= 2)
	return globalsIntact()
}

// ---- C24: painter's order and isolation of elements ----

// OrderCase is a scene drawn in two ways that must give the same image.
type OrderCase struct {
	S    *Scene
	Kind string
	Cut  int
	At   []int // where invisible elements are inserted
	Form []int
	X    *Scene // drawn before, on the same context
	// a path left in the context
	Dirty []Pt
}

func genOrder(t *rapid.T) OrderCase {
	c := OrderCase{Kind: oneOf(t, "renderer", allKinds...)}
	o := sceneOpt{elems: 4, fill: 8, stroke: 5, dash: 3, curves: true, shear: true, masks: c.Kind == kGG && chance(t, 1, 2, "masks"), grad: chance(t, 1, 3, "gradients")}
	c.S = genScene(o)(t)
	c.X = genScene(o)(t)
	c.X.W, c.X.H, c.X.Bg = c.S.W, c.S.H, c.S.Bg
	c.Cut = intn(t, 0, len(c.S.Elems), "cut")
	if chance(t, 1, 2, "dirty") {
		for n := intn(t, 1, 4, "left"); n > 0; n-- {
			c.Dirty = append(c.Dirty, genDevPt(t, c.S.W, c.S.H))
		}
	}
	for n := intn(t, 1, 3, "invisible"); n > 0; n-- {
		c.At = append(c.At, intn(t, 0, len(c.S.Elems), "at"))
		c.Form = append(c.Form, intn(t, 0, 3, "form"))
	}
	return c
}

func (c *OrderCase) fail(err error) error {
	return fmt.Errorf("%s: %v\n%s", c.Kind, err, c.S.describe())
}

func (s *Scene) nonTrivialPix(im *image.RGBA) bool {
	bg := image.NewRGBA(im.Bounds())
	draw.Draw(bg, bg.Bounds(), image.NewUniform(s.bg()), image.Point{}, draw.Src)
	return samePix(im, bg, 8) != nil
}

func checkSplit(c OrderCase, r *Rec) error {
	r.Sample(c.S.describe())
	r.Label("%s", c.Kind)
	c.S.label(r)
	s := c.S.svg()
	whole, err := render(c.Kind, s, c.S.W, c.S.H, c.S.bg(), c.S.opts()...)
	if err != nil {
		return c.fail(err)
	}
	parts := newSurface(c.Kind, c.S.W, c.S.H, c.S.bg())
	for _, ps := range [][]svg.SvgPath{s.SvgPaths[:c.Cut], s.SvgPaths[c.Cut:]} {
		p := *s
		p.SvgPaths = ps
		if err := parts.draw(&p, c.S.opts()...); err != nil {
			return c.fail(err)
		}
	}
	r.NonTrivial(c.Cut > 0 && c.Cut < len(s.SvgPaths) && c.S.nonTrivialPix(whole))
	if err := samePix(whole, parts.im, 0); err != nil {
		return c.fail(fmt.Errorf("drawn at once and in two parts, cut at %d: %v", c.Cut, err))
	}
	// each element on its own context over what was drawn before it
	single := newSurface(c.Kind, c.S.W, c.S.H, c.S.bg())
	for i := range s.SvgPaths {
		next := newSurface(c.Kind, c.S.W, c.S.H, c.S.bg())
		copy(next.im.Pix, single.im.Pix)
		p := *s
		p.SvgPaths = s.SvgPaths[i : i+1]
		if err := next.draw(&p, c.S.opts()...); err != nil {
			return c.fail(err)
		}
		single = next
	}
	if err := samePix(whole, single.im, 0); err != nil {
		return c.fail(fmt.Errorf("drawn at once and every element on its own: %v", err))
	}
	return nil
}

func checkFillStroke(c OrderCase, r *Rec) error {
	r.Sample(c.S.describe())
	r.Label("%s", c.Kind)
	s := c.S.svg()
	whole, err := render(c.Kind, s, c.S.W, c.S.H, c.S.bg(), c.S.opts()...)
	if err != nil {
		return c.fail(err)
	}
	apart := *s
	apart.SvgPaths = nil
	both := 0
	for _, p := range s.SvgPaths {
		f, l := p, p
		f.Style.LinerColor = nil
		l.Style.FillerColor = nil
		if p.Style.FillerColor != nil && p.Style.LinerColor != nil {
			both++
		}
		apart.SvgPaths = append(apart.SvgPaths, f, l)
	}
	r.NonTrivial(both > 0 && c.S.nonTrivialPix(whole))
	im, err := render(c.Kind, &apart, c.S.W, c.S.H, c.S.bg(), c.S.opts()...)
	if err != nil {
		return c.fail(err)
	}
	if err := samePix(whole, im, 0); err != nil {
		return c.fail(fmt.Errorf("fill and stroke as one element and as two: %v", err))
	}
	return nil
}

func checkInvisible(c OrderCase, r *Rec) error {
	r.Sample(c.S.describe())
	r.Label("%s", c.Kind)
	s := c.S.svg()
	whole, err := render(c.Kind, s, c.S.W, c.S.H, c.S.bg(), c.S.opts()...)
	if err != nil {
		return c.fail(err)
	}
	r.NonTrivial(c.S.nonTrivialPix(whole))
	more := *s
	more.SvgPaths = append([]svg.SvgPath(nil), s.SvgPaths...)
	for i, at := range c.At {
		e := c.X.Elems[i%len(c.X.Elems)]
		p := e.svgPath()
		p.Style.Masks = nil
		switch c.Form[i] {
		case 0:
			p.Style.FillerColor, p.Style.LinerColor = nil, nil
		case 1:
			p.Path = nil
		case 2:
			p.Style.FillOpacity, p.Style.LineOpacity = 0, 0
			p.Style.FillerColor, p.Style.LinerColor = svg.NewPlainColor(1, 2, 3, 255), svg.NewPlainColor(255, 2, 3, 255)
		case 3: // far outside
			p.Style.Transform = svg.Identity.Translate(3000, 2500).Mult(p.Style.Transform)
			if p.Style.Join.LineJoin != svg.Round && p.Style.Join.LineJoin != svg.Bevel {
				p.Style.Join.LineJoin = svg.Miter
			}
			if !bounded(&svg.Svg{SvgPaths: []svg.SvgPath{p}}, c.S.target(), 20000) || outside(&p, c.S) {
				p.Style.FillerColor, p.Style.LinerColor = nil, nil
			} else {
				r.Label("outside")
			}
		}
		at = min(at, len(more.SvgPaths))
		more.SvgPaths = append(more.SvgPaths[:at:at], append([]svg.SvgPath{p}, more.SvgPaths[at:]...)...)
	}
	im, err := render(c.Kind, &more, c.S.W, c.S.H, c.S.bg(), c.S.opts()...)
	if err != nil {
		return c.fail(err)
	}
	if err := samePix(whole, im, 0); err != nil {
		return c.fail(fmt.Errorf("with invisible elements %v at %v: %v\n%s", c.Form, c.At, err, c.X.describe()))
	}
	return nil
}

// outside: not certainly outside of the image.
func outside(p *svg.SvgPath, s *Scene) bool {
	ops, err := plainOps(p.Path)
	if err != nil {
		return true
	}
	m := s.target().mul(toMat(p.Style.Transform))
	w := p.Style.LineWidth * lineScale(m) * 12
	lo := Pt{math.Inf(1), math.Inf(1)}
	for _, o := range ops {
		for _, q := range o.P {
			q = m.pt(q)
			lo = Pt{math.Min(lo.X, q.X), math.Min(lo.Y, q.Y)}
		}
	}
	// the freetype rasterizer mixes content above and to the left into the first row and column
	return !(lo.X-w > float64(s.W)+5 && lo.Y-w > float64(s.H)+5)
}

func checkContext(c OrderCase, r *Rec) error {
	r.Sample(c.X.describe() + "\n" + c.S.describe())
	r.Label("%s", c.Kind)
	fresh, err := render(c.Kind, c.S.svg(), c.S.W, c.S.H, c.S.bg(), c.S.opts()...)
	if err != nil {
		return c.fail(err)
	}
	used := newSurface(c.Kind, c.S.W, c.S.H, c.S.bg())
	if err := used.draw(c.X.svg(), c.X.opts()...); err != nil {
		return c.fail(err)
	}
	draw.Draw(used.im, used.im.Bounds(), image.NewUniform(c.S.bg()), image.Point{}, draw.Src)
	if len(c.Dirty) > 0 {
		r.Label("dirty")
		used.dirty(c.Dirty)
	}
	if err := used.draw(c.S.svg(), c.S.opts()...); err != nil {
		return c.fail(err)
	}
	r.NonTrivial(c.S.nonTrivialPix(fresh))
	if err := samePix(fresh, used.im, 0); err != nil {
		return c.fail(fmt.Errorf("on a new context and on a used one: %v\nused for %s", err, c.X.describe()))
	}
	// what the user draws next comes out the same as on a new context
	next := newSurface(c.Kind, c.S.W, c.S.H, c.S.bg())
	copy(next.im.Pix, used.im.Pix)
	a, b := Pt{2, 3}, Pt{float64(c.S.W) - 3, float64(c.S.H) - 2}
	next.own(a, b, color.NRGBA{12, 200, 99, 255})
	used.own(a, b, color.NRGBA{12, 200, 99, 255})
	if err := samePix(next.im, used.im, 0); err != nil {
		return c.fail(fmt.Errorf("a rectangle filled after drawing, on a new context and on this one: %v", err))
	}
	return nil
}

// ---- C23: opacity ----

type OpacityCase struct {
	S    *Scene
	Kind string
	O    float64
}

func genOpacity(t *rapid.T) OpacityCase {
	c := OpacityCase{Kind: oneOf(t, "renderer", allKinds...), O: float64(intn(t, 0, 100, "o")) / 100}
	o := sceneOpt{elems: 3, fill: 9, stroke: 5, dash: 2, curves: true, shear: true, masks: c.Kind == kGG && chance(t, 1, 2, "masks"), grad: chance(t, 1, 4, "gradients")}
	c.S = genScene(o)(t)
	c.S.Opacity = 1
	return c
}

func (c *OpacityCase) fail(err error) error {
	return fmt.Errorf("%s opacity %v: %v\n%s", c.Kind, c.O, err, c.S.describe())
}

func checkOpacityProduct(c OpacityCase, r *Rec) error {
	r.Sample(c.S.describe())
	r.Label("%s", c.Kind)
	s := c.S.svg()
	a, err := render(c.Kind, s, c.S.W, c.S.H, c.S.bg(), append(c.S.opts(), renderer.Opacity(c.O))...)
	if err != nil {
		return c.fail(err)
	}
	for i := range s.SvgPaths {
		st := &s.SvgPaths[i].Style
		st.FillOpacity *= c.O
		st.LineOpacity *= c.O
		// the opacity of what is not painted has no effect
		if st.FillerColor == nil {
			st.FillOpacity = 1 - c.O
			r.Label("stroke-only")
		}
		if st.LinerColor == nil {
			st.LineOpacity = 1 - c.O
			r.Label("fill-only")
		}
	}
	b, err := render(c.Kind, s, c.S.W, c.S.H, c.S.bg(), c.S.opts()...)
	if err != nil {
		return c.fail(err)
	}
	r.NonTrivial(c.O > 0 && c.O < 1 && c.S.nonTrivialPix(a))
	if err := samePix(a, b, 1); err != nil {
		return c.fail(fmt.Errorf("as an option and in the styles: %v", err))
	}
	return nil
}

func checkOpacityZero(c OpacityCase, r *Rec) error {
	r.Sample(c.S.describe())
	r.Label("%s", c.Kind)
	for i := range c.S.Elems {
		st := &c.S.Elems[i].St
		for _, g := range []*RGrad{st.Fill.Grad, st.Stroke.Grad} {
			if g != nil { // rasterx forgets the opacity at the ends of repeated gradients, and for degenerate ones
				g.Spread = int(svg.PadSpread)
				for k := range g.Stops {
					g.Stops[k].Off = float64(k) / float64(len(g.Stops)-1)
				}
				if !g.Radial && g.Dir[0] == g.Dir[2] && g.Dir[1] == g.Dir[3] {
					g.Dir[2] += 10
				}
				if g.Radial { // rasterx paints yellow where it finds no focal point
					g.Dir[2], g.Dir[3] = g.Dir[0], g.Dir[1]
				}
			}
		}
	}
	s := c.S.svg()
	full, err := render(c.Kind, s, c.S.W, c.S.H, c.S.bg(), c.S.opts()...)
	if err != nil {
		return c.fail(err)
	}
	r.NonTrivial(c.S.nonTrivialPix(full))
	a, err := render(c.Kind, s, c.S.W, c.S.H, c.S.bg(), append(c.S.opts(), renderer.Opacity(0))...)
	if err != nil {
		return c.fail(err)
	}
	bg := newSurface(c.Kind, c.S.W, c.S.H, c.S.bg()).im
	if err := samePix(a, bg, 0); err != nil {
		return c.fail(fmt.Errorf("with opacity 0 the background changes: %v", err))
	}
	// the later option wins, whatever the order of the others
	b, err := render(c.Kind, s, c.S.W, c.S.H, c.S.bg(), append([]renderer.RenderOption{renderer.Opacity(0)}, append(c.S.opts(), renderer.Opacity(1))...)...)
	if err != nil {
		return c.fail(err)
	}
	if err := samePix(full, b, 0); err != nil {
		return c.fail(fmt.Errorf("opacity 0 then 1 is not opacity 1: %v", err))
	}
	return nil
}

// GroupCase: a document whose content is wrapped in a group with an opacity.
type GroupCase struct {
	P PicCase
	O int // percent
	F int // spelling
}

func genGroup(t *rapid.T) GroupCase {
	c := GroupCase{P: genPic(allKinds...)(t), O: intn(t, 0, 100, "o"), F: intn(t, 0, 2, "form")}
	if chance(t, 1, 3, "range") {
		c.O = intn(t, -150, 250, "out")
	}
	c.P.Opacity = 1
	c.P.Doc.Kids = dropMasks(c.P.Doc.Kids)
	return c
}

func dropMasks(es []*Elem) []*Elem {
	var out []*Elem
	for _, e := range es {
		if e.Tag == "mask" {
			continue
		}
		var ds []Decl
		for _, d := range e.Decls {
			if d.Name != "mask" {
				ds = append(ds, d)
			}
		}
		e.Decls = ds
		e.Kids = dropMasks(e.Kids)
		out = append(out, e)
	}
	return out
}

func checkGroupOpacity(c GroupCase, r *Rec) error {
	r.Label("%s", c.P.Kind)
	plain := c.P.Doc.text()
	d := Decl{Name: "opacity", Num: float64(c.O) / 100}
	if c.F == 1 || c.O == 0 {
		d.Len, d.Num = &Len{V: float64(c.O), U: "%"}, 0
	}
	d.Sty = c.F == 2
	w := *c.P.Doc
	w.Noise = nil
	w.Kids = []*Elem{{Tag: "g", Decls: []Decl{d}, Kids: c.P.Doc.Kids}}
	wrapped := w.text()
	r.Sample(wrapped)
	bg := (&Scene{Bg: c.P.Bg}).bg()
	a, err := mustParse(plain, svg.IgnoreErrorMode)
	if err != nil {
		return err
	}
	b, err := mustParse(wrapped, svg.IgnoreErrorMode)
	if err != nil {
		return err
	}
	ia, ea := render(c.P.Kind, a, c.P.Size[0], c.P.Size[1], bg, append(c.P.opts(), renderer.Opacity(math.Max(0, math.Min(1, float64(c.O)/100))))...)
	ib, eb := render(c.P.Kind, b, c.P.Size[0], c.P.Size[1], bg, c.P.opts()...)
	if ea != nil || eb != nil {
		return fmt.Errorf("%v %v\n%s", ea, eb, wrapped)
	}
	sc := Scene{Bg: c.P.Bg}
	if c.O < 0 || c.O > 100 {
		r.Label("out-of-range")
	}
	r.NonTrivial(c.O != 0 && c.O != 100 && sc.nonTrivialPix(ib) || c.O < 0)
	if err := samePix(ia, ib, 2); err != nil {
		return fmt.Errorf("%s: opacity %d%% as an option and on a group: %v\n%s\n%s", c.P.Kind, c.O, err, plain, wrapped)
	}
	return nil
}

// ---- C25: drawing is total ----

type TotalCase struct {
	Text    []byte
	Target  []float64
	Opacity float64
	W, H    int
	From    string
}

func genTotalDraw(from string) func(t *rapid.T) TotalCase {
	return func(t *rapid.T) TotalCase {
		c := TotalCase{From: from, W: intn(t, 1, 80, "w"), H: intn(t, 1, 80, "h"), Opacity: 1}
		switch from {
		case "documents":
			c.Text = []byte(genDoc(t, fullOpt).text())
		case "pictures":
			c.Text = []byte(genPic(kGG, kRasterx)(t).Doc.text())
		case "attributes":
			c.Text = genAimed(t).B
		case "soup":
			c.Text = genSoup(t).B
		case "mutated":
			c.Text = genMutated(t).B
		case "degenerate":
			c.Text = []byte(genDegenerate(t))
		case "corpus":
			c.Text = genCorpus(t).B
		}
		if chance(t, 1, 2, "target") {
			c.Target = []float64{dec(t, -50, 50, "x"), dec(t, -50, 50, "y"), dec(t, 0, 200, "tw"), dec(t, 0, 200, "th")}
		}
		if chance(t, 1, 4, "opacity") {
			c.Opacity = float64(intn(t, 0, 100, "o")) / 100
		}
		return c
	}
}

// genDegenerate writes documents of lines without length, dashes that end where the line does,
// and masks that refer to each other in circles.
func genDegenerate(t *rapid.T) string {
	var b strings.Builder
	b.WriteString(`<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 40 40">`)
	n := intn(t, 0, 4, "masks")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, `<mask id="m%d"`, i)
		if chance(t, 1, 4, "own") {
			fmt.Fprintf(&b, ` mask="url(#m%d)"`, intn(t, 0, n, "ref"))
		}
		b.WriteString(">")
		for k := intn(t, 0, 2, "content"); k > 0; k-- {
			to := (i + 1) % n
			if chance(t, 1, 3, "elsewhere") {
				to = intn(t, 0, n, "ref")
			}
			fmt.Fprintf(&b, `<rect x="%d" y="3" width="30" height="20" fill="white" mask="url(#m%d)"/>`, k, to)
		}
		b.WriteString("</mask>")
	}
	for k := intn(t, 1, 4, "shapes"); k > 0; k-- {
		var ds []string
		sum := 0
		var sums []int
		for i := intn(t, 0, 4, "dashes"); i > 0; i-- {
			d := oneOf(t, "dash", 0, 1, 2, 3, 5, 10)
			sum += d
			sums = append(sums, sum)
			ds = append(ds, fmt.Sprint(d))
		}
		off := 0
		if len(sums) > 0 {
			off = oneOf(t, "off", sums...) * oneOf(t, "sign", 1, 1, 1, -1, 0)
			off += oneOf(t, "rounds", 0, 0, 0, 1, -1, 2) * sum
		}
		x, y := intn(t, 0, 40, "x"), intn(t, 0, 40, "y")
		l := oneOf(t, "l", 0, 0, 1, 2, 5, 10)
		var d string
		switch intn(t, 0, 9, "form") {
		case 0:
			d = fmt.Sprintf("M%d %dz", x, y)
		case 1:
			d = fmt.Sprintf("M%d %dh%d", x, y, l)
		case 2:
			d = fmt.Sprintf("M%d %dl0 0h%d", x, y, l)
		case 3:
			d = fmt.Sprintf("M%d %dh%dl0 0l0 0", x, y, l)
		case 4:
			d = fmt.Sprintf("M%d %dh%dh%d", x, y, l, -l)
		case 5:
			d = fmt.Sprintf("M%d %dq0 0 0 0t0 0", x, y)
		case 6:
			d = fmt.Sprintf("M%d %dc0 0 %d 0 %d 0s0 0 0 0", x, y, l, l)
		case 7:
			d = fmt.Sprintf("M%d %dh%dz", x, y, l)
		case 8:
			d = fmt.Sprintf("M%d %dM%d %dM%d %dh%dzh%d", x, y, y, x, x, y, l, l)
		default:
			d = fmt.Sprintf("M%d %dh%dv%dh%dv0z", x, y, l, l, -l)
		}
		fmt.Fprintf(&b, `<path d="%s" stroke="%s" stroke-width="%v" stroke-linecap="%s" stroke-linejoin="%s" stroke-miterlimit="%d"`, d,
			oneOf(t, "stroke", "red", "none", "black"), oneOf(t, "width", 0.0, 0.01, 1, 2, 4, 30), oneOf(t, "cap", "butt", "round", "square", "cubic", "quadratic"),
			oneOf(t, "join", "miter", "round", "bevel", "arc", "arc-clip", "miter-clip"), oneOf(t, "limit", 1, 4, 100))
		if len(ds) > 0 {
			fmt.Fprintf(&b, ` stroke-dasharray="%s" stroke-dashoffset="%d"`, strings.Join(ds, oneOf(t, "sep", ",", " ")), off)
		}
		if chance(t, 1, 3, "masked") {
			fmt.Fprintf(&b, ` mask="url(#m%d)"`, intn(t, 0, 4, "mask"))
		}
		if chance(t, 1, 4, "flat") {
			fmt.Fprintf(&b, ` transform="%s"`, oneOf(t, "transform", "scale(0)", "scale(0,1)", "scale(1,0)", "matrix(0 0 0 0 5 5)", "matrix(1 1 1 1 0 0)", "scale(-1)", "rotate(90)", "scale(.001)"))
		}
		b.WriteString("/>")
	}
	b.WriteString("</svg>")
	return b.String()
}

func checkTotalDraw(c TotalCase, r *Rec) error {
	r.Sample(string(c.Text))
	s, err := parseBytes(c.Text, svg.IgnoreErrorMode)
	if err != nil {
		r.Label("rejected")
		return nil
	}
	sc := Scene{Target: c.Target, Opacity: c.Opacity, VB: [4]float64{s.ViewBox.X, s.ViewBox.Y, s.ViewBox.W, s.ViewBox.H}}
	if !bounded(s, sc.target(), 4000) {
		r.Label("too-large")
		return nil
	}
	r.NonTrivial(len(s.SvgPaths) > 0)
	for _, kind := range allKinds {
		im, err := render(kind, s, c.W, c.H, sc.bg(), sc.opts()...)
		if err != nil {
			return fmt.Errorf("%s: %v\n%s", kind, err, clip(string(c.Text)))
		}
		if kind == kGG && strings.Contains(string(c.Text), "Gradient") {
			continue // gg's interpolation of colours is not ours
		}
		// premultiplied colours never exceed the alpha by more than rounding
		for i := 0; i+3 < len(im.Pix); i += 4 {
			a := int(im.Pix[i+3])
			if int(im.Pix[i]) > a+8 || int(im.Pix[i+1]) > a+8 || int(im.Pix[i+2]) > a+8 {
				return fmt.Errorf("%s: pixel %d is %v, brighter than its alpha\n%s", kind, i/4, im.Pix[i:i+4], clip(string(c.Text)))
			}
		}
	}
	return nil
}

func init() {
	register("C16",
		NewSub("parse-history", 12000, 250000, "a document parsed more than once, or several documents", genHist, checkParseHistory),
		NewSub("draw-history", 6000, 120000, "at least one document drawn", genHist, checkDrawHistory),
		NewSub("concurrent", 6000, 120000, "at least two concurrent steps", genHist, checkConcurrent),
	)
	const rule = "an image that differs from its background"
	register("C24",
		NewSub("parts", 30000, 400000, rule+", cut between two elements", genOrder, checkSplit),
		NewSub("fill-stroke", 30000, 400000, rule+", with an element that has both", genOrder, checkFillStroke),
		NewSub("invisible", 30000, 400000, rule, genOrder, checkInvisible),
		NewSub("context", 30000, 400000, rule, genOrder, checkContext),
	)
	register("C23",
		NewSub("product", 40000, 500000, rule+", opacity between 0 and 1", genOpacity, checkOpacityProduct),
		NewSub("zero", 30000, 400000, rule, genOpacity, checkOpacityZero),
		NewSub("group", 20000, 300000, rule+", or an opacity below zero", genGroup, checkGroupOpacity),
	)
	const drawn = "accepted, with at least one path, all within 4000 px of the origin"
	register("C25",
		NewSub("documents", 15000, 250000, drawn, genTotalDraw("documents"), checkTotalDraw),
		NewSub("pictures", 10000, 150000, drawn, genTotalDraw("pictures"), checkTotalDraw),
		NewSub("attributes", 30000, 500000, drawn, genTotalDraw("attributes"), checkTotalDraw),
		NewSub("soup", 15000, 250000, drawn, genTotalDraw("soup"), checkTotalDraw),
		NewSub("mutated", 10000, 200000, drawn, genTotalDraw("mutated"), checkTotalDraw),
		NewSub("degenerate", 30000, 500000, drawn, genTotalDraw("degenerate"), checkTotalDraw),
		NewSub("corpus", 5000, 80000, drawn, genTotalDraw("corpus"), checkTotalDraw),
	)
}
