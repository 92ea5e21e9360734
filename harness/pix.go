package main

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"

	"github.com/fogleman/gg"
	"github.com/golang/freetype/raster"
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	rdraw2d "github.com/lafriks/go-svg/renderer/draw2d"
	rgg "github.com/lafriks/go-svg/renderer/gg"
	rrasterx "github.com/lafriks/go-svg/renderer/rasterx"
	"github.com/llgcode/draw2d"
	"github.com/llgcode/draw2d/draw2dimg"
	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"
)

// ---- running the renderers ----

const (
	kDraw2d    = "draw2d"
	kGG        = "gg"
	kRasterx   = "rasterx"    // with a scanner that supports both fill rules
	kRasterxGV = "rasterx-gv" // with the default scanner of rasterx, nonzero fills only
)

// ftScanner is a rasterx.Scanner over the freetype rasterizer, which supports
// both fill rules (as rasterx's scanFT package does).
type ftScanner struct {
	r    *raster.Rasterizer
	p    *ftPainter
	ext  fixed.Rectangle26_6
	some bool
}

type ftPainter struct {
	im *image.RGBA
	cr color.Color
	fn rasterx.ColorFunc
}

func (p *ftPainter) Paint(ss []raster.Span, done bool) {
	b := p.im.Bounds()
	for _, s := range ss {
		if s.Y < b.Min.Y || s.Y >= b.Max.Y {
			continue
		}
		for x := max(s.X0, b.Min.X); x < min(s.X1, b.Max.X); x++ {
			c := p.cr
			if p.fn != nil {
				c = p.fn(x, s.Y)
			}
			cr, cg, cb, ca := c.RGBA()
			i := p.im.PixOffset(x, s.Y)
			d := p.im.Pix[i : i+4 : i+4]
			a := 0xffff - ca*s.Alpha/0xffff
			d[0] = uint8((uint32(d[0])*0x101*a + cr*s.Alpha) / 0xffff >> 8)
			d[1] = uint8((uint32(d[1])*0x101*a + cg*s.Alpha) / 0xffff >> 8)
			d[2] = uint8((uint32(d[2])*0x101*a + cb*s.Alpha) / 0xffff >> 8)
			d[3] = uint8((uint32(d[3])*0x101*a + ca*s.Alpha) / 0xffff >> 8)
		}
	}
}

func newFT(w, h int, im *image.RGBA) *ftScanner {
	return &ftScanner{r: raster.NewRasterizer(w, h), p: &ftPainter{im: im, cr: color.Black}}
}

func (s *ftScanner) grow(a fixed.Point26_6) {
	if !s.some {
		s.ext = fixed.Rectangle26_6{Min: a, Max: a}
		s.some = true
		return
	}
	s.ext.Min.X, s.ext.Min.Y = min(s.ext.Min.X, a.X), min(s.ext.Min.Y, a.Y)
	s.ext.Max.X, s.ext.Max.Y = max(s.ext.Max.X, a.X), max(s.ext.Max.Y, a.Y)
}

// near keeps points near the image: the clipped joins of rasterx overflow at sharp
// angles, and freetype needs minutes to walk to the end of such a line.
func (s *ftScanner) near(a fixed.Point26_6) fixed.Point26_6 {
	const lim = 1 << 20
	return fixed.Point26_6{X: max(-lim, min(lim, a.X)), Y: max(-lim, min(lim, a.Y))}
}
func (s *ftScanner) Start(a fixed.Point26_6) { s.grow(a); s.r.Start(s.near(a)) }
func (s *ftScanner) Line(b fixed.Point26_6)  { s.grow(b); s.r.Add1(s.near(b)) }
func (s *ftScanner) Draw()                   { s.r.Rasterize(s.p) }
func (s *ftScanner) GetPathExtent() fixed.Rectangle26_6 {
	return s.ext
}
func (s *ftScanner) SetBounds(w, h int) { s.r.SetBounds(w, h) }
func (s *ftScanner) SetColor(c interface{}) {
	switch c := c.(type) {
	case color.Color:
		s.p.cr, s.p.fn = c, nil
	case rasterx.ColorFunc:
		s.p.fn = c
	}
}
func (s *ftScanner) SetWinding(nz bool)           { s.r.UseNonZeroWinding = nz }
func (s *ftScanner) Clear()                       { s.r.Clear(); s.some = false; s.ext = fixed.Rectangle26_6{} }
func (s *ftScanner) SetClip(rect image.Rectangle) {}

// Surface draws images one after another on one context.
type Surface struct {
	im   *image.RGBA
	draw func(s *svg.Svg, opts ...renderer.RenderOption) error
	// dirty leaves settings and a path that was not drawn in the context
	dirty func(ps []Pt)
	// own fills the rectangle by calling the library directly
	own func(a, b Pt, c color.NRGBA)
}

func newSurface(kind string, w, h int, bg color.NRGBA) *Surface {
	im := image.NewRGBA(image.Rect(0, 0, w, h))
	draw.Draw(im, im.Bounds(), image.NewUniform(bg), image.Point{}, draw.Src)
	sf := &Surface{im: im}
	switch kind {
	case kDraw2d:
		gc := draw2dimg.NewGraphicContext(im)
		sf.draw = func(s *svg.Svg, opts ...renderer.RenderOption) error {
			rdraw2d.Draw(gc, s, opts...)
			return nil
		}
		sf.own = func(a, b Pt, c color.NRGBA) {
			gc.SetFillColor(c)
			gc.BeginPath()
			gc.MoveTo(a.X, a.Y)
			gc.LineTo(b.X, a.Y)
			gc.LineTo(b.X, b.Y)
			gc.LineTo(a.X, b.Y)
			gc.Close()
			gc.Fill()
		}
		sf.dirty = func(ps []Pt) {
			gc.SetFillColor(color.NRGBA{1, 200, 3, 200})
			gc.SetStrokeColor(color.NRGBA{200, 2, 3, 100})
			gc.SetLineWidth(7.5)
			gc.SetLineCap(draw2d.RoundCap)
			gc.SetLineJoin(draw2d.RoundJoin)
			gc.SetLineDash([]float64{3, 2, 1}, 1)
			gc.SetFillRule(draw2d.FillRuleWinding)
			gc.BeginPath()
			gc.MoveTo(ps[0].X, ps[0].Y)
			for _, p := range ps[1:] {
				gc.LineTo(p.X, p.Y)
			}
		}
	case kGG:
		gc := gg.NewContextForRGBA(im)
		sf.draw = func(s *svg.Svg, opts ...renderer.RenderOption) error { return rgg.Draw(gc, s, opts...) }
		sf.own = func(a, b Pt, c color.NRGBA) {
			gc.SetColor(c)
			gc.DrawRectangle(a.X, a.Y, b.X-a.X, b.Y-a.Y)
			gc.Fill()
		}
		sf.dirty = func(ps []Pt) {
			gc.SetFillStyle(gg.NewSolidPattern(color.NRGBA{1, 200, 3, 200}))
			gc.SetStrokeStyle(gg.NewSolidPattern(color.NRGBA{200, 2, 3, 100}))
			gc.SetLineWidth(7.5)
			gc.SetLineCap(gg.LineCapRound)
			gc.SetLineJoin(gg.LineJoinRound)
			gc.SetDash(3, 2, 1)
			gc.SetDashOffset(1)
			gc.SetFillRuleEvenOdd()
			gc.MoveTo(ps[0].X, ps[0].Y)
			for _, p := range ps[1:] {
				gc.LineTo(p.X, p.Y)
			}
		}
	case kRasterx, kRasterxGV:
		var sc rasterx.Scanner
		if kind == kRasterx {
			sc = newFT(w, h, im)
		} else {
			sc = rasterx.NewScannerGV(w, h, im, im.Bounds())
		}
		gc := rasterx.NewDasher(w, h, sc)
		sf.draw = func(s *svg.Svg, opts ...renderer.RenderOption) error {
			rrasterx.Draw(gc, s, opts...)
			return nil
		}
		sf.own = func(a, b Pt, c color.NRGBA) {
			f := &gc.Filler
			f.Clear()
			f.SetColor(c)
			rasterx.AddRect(a.X, a.Y, b.X, b.Y, 0, f)
			f.Draw()
		}
		sf.dirty = func(ps []Pt) {
			gc.SetColor(color.NRGBA{1, 200, 3, 200})
			gc.SetWinding(false)
			gc.SetStroke(7*64, 3*64, rasterx.RoundCap, rasterx.SquareCap, rasterx.RoundGap, rasterx.ArcClip, []float64{3, 2, 1}, 1)
			gc.Start(fixPt(ps[0]))
			for _, p := range ps[1:] {
				gc.Line(fixPt(p))
			}
			gc.Stop(true)
		}
	default:
		panic("harness: unknown renderer " + kind)
	}
	return sf
}

func render(kind string, s *svg.Svg, w, h int, bg color.NRGBA, opts ...renderer.RenderOption) (*image.RGBA, error) {
	sf := newSurface(kind, w, h, bg)
	err := sf.draw(s, opts...)
	return sf.im, err
}

func samePix(a, b *image.RGBA, tol int) error {
	w := a.Bounds().Dx()
	for i := range a.Pix {
		d := int(a.Pix[i]) - int(b.Pix[i])
		if d > tol || -d > tol {
			p := i / 4
			return fmt.Errorf("pixel %d,%d: %v and %v", p%w, p/w, a.Pix[p*4:p*4+4], b.Pix[p*4:p*4+4])
		}
	}
	return nil
}

// ---- analytic model of what is painted where ----

const (
	covOut = iota
	covIn
	covMaybe
)

// prim is a filled region: a polygon, or a disc.
type prim struct {
	poly []Pt
	c    Pt
	r    float64
	bc   Pt // bounding circle of a polygon
	br   float64
	// a line of half width r along a chain of points, with butt ends
	chain []Pt
}

func polyPrim(ps ...Pt) prim {
	q := prim{poly: ps}
	for _, p := range ps {
		q.bc = q.bc.add(p.mul(1 / float64(len(ps))))
	}
	for _, p := range ps {
		q.br = math.Max(q.br, p.dist(q.bc))
	}
	return q
}

func distSeg(p, a, b Pt) float64 {
	d := b.sub(a)
	l := d.dot(d)
	k := 0.0
	if l > 0 {
		k = math.Max(0, math.Min(1, p.sub(a).dot(d)/l))
	}
	return p.dist(Pt{a.X + d.X*k, a.Y + d.Y*k})
}

// depth is the signed distance to the border, positive inside.
func (q *prim) depth(p Pt) float64 {
	if q.chain != nil {
		return q.chainDepth(p)
	}
	if q.poly == nil {
		return q.r - p.dist(q.c)
	}
	if d := q.br - p.dist(q.bc); d < -2*pixMargin {
		return d // far away: a lower bound of the distance is enough
	}
	in := false
	best := math.Inf(1)
	n := len(q.poly)
	for i := 0; i < n; i++ {
		a, b := q.poly[i], q.poly[(i+1)%n]
		best = math.Min(best, distSeg(p, a, b))
		if (a.Y > p.Y) != (b.Y > p.Y) && p.X < (b.X-a.X)*(p.Y-a.Y)/(b.Y-a.Y)+a.X {
			in = !in
		}
	}
	if in {
		return best
	}
	return -best
}

func (q *prim) chainDepth(p Pt) float64 {
	if d := q.br - p.dist(q.bc); d < -2*pixMargin {
		return d
	}
	best := math.Inf(1)
	n := len(q.chain)
	for i := 0; i+1 < n; i++ {
		best = math.Min(best, distSeg(p, q.chain[i], q.chain[i+1]))
	}
	d := q.r - best
	if d <= 0 {
		return d
	}
	for _, e := range [][2]Pt{{q.chain[0], q.chain[1]}, {q.chain[n-1], q.chain[n-2]}} {
		if p.dist(e[0]) < q.r+2*pixMargin {
			v := e[1].sub(e[0])
			d = math.Min(d, p.sub(e[0]).dot(v)/math.Hypot(v.X, v.Y))
		}
	}
	return d
}

func chainPrim(ps []Pt, h float64) prim {
	q := polyPrim(ps...)
	return prim{chain: append([]Pt(nil), ps...), r: h, bc: q.bc, br: q.br + h}
}

// sub is a flattened subpath in device space.
type sub struct {
	pts    []Pt
	smooth []bool    // vertex i is inside a curve
	rad    []float64 // radius of curvature of the edge starting at i (inf for lines)
	closed bool
	loop   bool // has a curve that ends where it starts
}

// flatten converts segments to polylines, mapped by m.
func flatten(segs []Seg, m Mat) []sub {
	var out []sub
	var cur *sub
	add := func(p Pt, smooth bool) {
		cur.pts = append(cur.pts, p)
		cur.smooth = append(cur.smooth, smooth)
		cur.rad = append(cur.rad, math.Inf(1))
	}
	var pos Pt
	for _, s := range segs {
		switch s.K {
		case 'M':
			out = append(out, sub{})
			cur = &out[len(out)-1]
			pos = s.P[0]
			add(m.pt(pos), false)
		case 'Z':
			if cur != nil {
				cur.closed = true
				pos = s.P[0]
			}
		case 'L':
			add(m.pt(s.P[0]), false)
			pos = s.P[0]
		default:
			at := func(t float64) Pt {
				if s.K == 'A' {
					return m.pt(s.arcAt(s.Th + s.Dth*t))
				}
				return m.pt(bez(pos, Op{s.K, s.P}, t))
			}
			l := 0.0
			prev := at(0)
			for i := 1; i <= 16; i++ {
				q := at(float64(i) / 16)
				l += prev.dist(q)
				prev = q
			}
			if s.K != 'A' && at(0).dist(at(1)) < 0.1 {
				cur.loop = true
			}
			n := 16 + int(math.Min(l, 400)/4)
			first := len(cur.pts) - 1
			var ps []Pt
			for i := 0; i <= n; i++ {
				ps = append(ps, at(float64(i)/float64(n)))
			}
			rmin := math.Inf(1)
			for i := 1; i < n; i++ {
				rmin = math.Min(rmin, circumradius(ps[i-1], ps[i], ps[i+1]))
			}
			for i := 1; i <= n; i++ {
				add(ps[i], i < n)
			}
			for i := first; i < len(cur.pts)-1; i++ {
				cur.rad[i] = rmin
			}
			pos = s.P[len(s.P)-1]
		}
	}
	return out
}

func circumradius(a, b, c Pt) float64 {
	cr := math.Abs(b.sub(a).cross(c.sub(a)))
	x := a.dist(b) * b.dist(c) * c.dist(a)
	if b.sub(a).dot(c.sub(b)) < 0 {
		return 0 // a cusp
	}
	if cr < 1e-12*(1+x) {
		return math.Inf(1)
	}
	return x / (2 * cr)
}

// fillModel decides whether a point is inside the filled region.
type fillModel struct {
	edges   [][2]Pt
	nonzero bool
	bb      [4]float64
}

func newFill(subs []sub, nonzero bool) *fillModel {
	f := &fillModel{nonzero: nonzero, bb: [4]float64{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}}
	for _, s := range subs {
		for i := range s.pts {
			p := s.pts[i]
			f.bb = [4]float64{math.Min(f.bb[0], p.X), math.Min(f.bb[1], p.Y), math.Max(f.bb[2], p.X), math.Max(f.bb[3], p.Y)}
			f.edges = append(f.edges, [2]Pt{p, s.pts[(i+1)%len(s.pts)]})
		}
	}
	return f
}

func (f *fillModel) at(p Pt, margin float64) int {
	if p.X < f.bb[0]-margin || p.Y < f.bb[1]-margin || p.X > f.bb[2]+margin || p.Y > f.bb[3]+margin {
		return covOut
	}
	w := 0
	for i := range f.edges {
		a, b := f.edges[i][0], f.edges[i][1]
		if p.X > math.Min(a.X, b.X)-margin && p.X < math.Max(a.X, b.X)+margin &&
			p.Y > math.Min(a.Y, b.Y)-margin && p.Y < math.Max(a.Y, b.Y)+margin && distSeg(p, a, b) < margin {
			return covMaybe
		}
		if (a.Y > p.Y) != (b.Y > p.Y) && p.X < (b.X-a.X)*(p.Y-a.Y)/(b.Y-a.Y)+a.X {
			if b.Y > a.Y {
				w++
			} else {
				w--
			}
		}
	}
	if f.nonzero && w != 0 || !f.nonzero && w%2 != 0 {
		return covIn
	}
	return covOut
}

// strokeModel: in when deep inside a sure region, out when away from all regions.
type strokeModel struct {
	sure, maybe []prim
	hazy        []prim // nothing is certain here: the parts of the line may cancel each other
}

func (s *strokeModel) at(p Pt, margin float64) int {
	out := true
	for i := range s.hazy {
		if s.hazy[i].depth(p) > -margin {
			return covMaybe
		}
	}
	for i := range s.sure {
		d := s.sure[i].depth(p)
		if d > margin {
			return covIn
		}
		if d > -margin {
			out = false
		}
	}
	if !out {
		return covMaybe
	}
	for i := range s.maybe {
		if s.maybe[i].depth(p) > -margin {
			return covMaybe
		}
	}
	return covOut
}

// penOf are the properties of the line of a renderer.
type pen struct {
	h         float64 // half width
	cap, lead svg.CapMode
	join      svg.JoinMode
	miter     float64
	dash      []float64
	off       float64
	kind      string
}

// clipped: the joins that only rasterx knows.
func (p *pen) clipped() bool {
	return (p.kind == kRasterx || p.kind == kRasterxGV) && (p.join == svg.MiterClip || p.join == svg.Arc || p.join == svg.ArcClip)
}

func newPen(kind string, st *RStyle, m Mat) pen {
	sc := lineScale(m)
	p := pen{h: st.Width * sc / 2, cap: st.Cap, lead: st.Lead, join: st.Join, miter: st.Miter, kind: kind}
	if p.cap == svg.NilCap {
		p.cap = svg.ButtCap
	}
	if p.lead == svg.NilCap || kind == kGG || kind == kDraw2d {
		p.lead = p.cap
	}
	sum := 0.0
	for _, d := range st.Dash {
		p.dash = append(p.dash, d*sc)
		sum += d * sc
	}
	if sum <= 0 {
		p.dash = nil
		return p
	}
	if len(p.dash)%2 == 1 {
		p.dash = append(p.dash, p.dash...)
		sum *= 2
	}
	p.off = math.Mod(st.DashOff*sc, sum)
	if p.off < 0 {
		p.off += sum
	}
	return p
}

func lineScale(m Mat) float64 { return (math.Hypot(m.A, m.B) + math.Hypot(m.C, m.D)) / 2 }

func (s *strokeModel) add(sure bool, q prim) {
	if sure {
		s.sure = append(s.sure, q)
	} else {
		s.maybe = append(s.maybe, q)
	}
}

func quad(a, b Pt, h float64) prim {
	d := b.sub(a)
	l := math.Hypot(d.X, d.Y)
	n := Pt{-d.Y / l * h, d.X / l * h}
	return polyPrim(a.add(n), b.add(n), b.sub(n), a.sub(n))
}

// cap adds the cap at p, where dir points out of the line.
func (s *strokeModel) cap(p Pt, dir Pt, k svg.CapMode, pn *pen, sure bool) {
	h := pn.h
	if pn.kind == kDraw2d {
		sure = false // draw2d draws butt caps only
	}
	switch k {
	case svg.ButtCap:
		return
	case svg.SquareCap:
		s.add(sure, quad(p, p.add(dir.mul(h)), h))
	case svg.RoundCap:
		s.add(sure, prim{c: p, r: h})
	default:
		s.add(false, prim{c: p, r: 1.6 * h})
	}
}

// join adds the join at b between the edges ab and bc.
func (s *strokeModel) join(a, b, c Pt, pn *pen, sure, straight bool) {
	h := pn.h
	u, v := b.sub(a), c.sub(b)
	u, v = u.mul(1/math.Hypot(u.X, u.Y)), v.mul(1/math.Hypot(v.X, v.Y))
	cr, dt := u.cross(v), u.dot(v)
	if math.Abs(cr) < 0.05 && dt > 0 { // nearly straight
		if l := math.Min(a.dist(b), b.dist(c)); sure && l > 0.01 {
			s.add(true, chainPrim([]Pt{lerp(b, a, math.Min(1, h/a.dist(b))), b, lerp(b, c, math.Min(1, h/b.dist(c)))}, h))
		}
		s.add(false, prim{c: b, r: h * 1.02})
		return
	}
	if dt < -0.95 && pn.clipped() {
		// rasterx calculates the clipping with 32 bit numbers, which overflow at sharp angles
		s.add(false, prim{c: b, r: 1e6})
		return
	}
	// all kinds of joins stay in the disc, or in the miter
	if math.Abs(cr) < 0.05 { // turns back: the outer side is not well defined
		s.add(false, prim{c: b, r: h * math.Max(1, pn.miter) * 1.1})
		return
	}
	sg := 1.0
	if cr > 0 {
		sg = -1
	}
	n1 := Pt{-u.Y * sg * h, u.X * sg * h}
	n2 := Pt{-v.Y * sg * h, v.X * sg * h}
	p1, p2 := b.add(n1), b.add(n2)
	bevel := polyPrim(b, p1, p2)
	// miter tip
	half := math.Sqrt(math.Max(0, (1+dt)/2)) // cos of half the turning angle
	ratio := 1 / half
	tip := b.add(n1.add(n2).mul(1 / (1 + dt)))
	miter := polyPrim(b, p1, tip, p2)
	kind := pn.join
	if pn.kind == kGG && kind != svg.Round {
		kind = svg.Bevel // gg has no miter joins
	}
	if pn.kind == kDraw2d {
		// draw2d joins lines in its own way: everything up to the requested join is accepted
		s.add(false, prim{c: b, r: h})
		if kind != svg.Round && kind != svg.Bevel && ratio < pn.miter*1.1 {
			s.add(false, miter)
		}
		return
	}
	switch kind {
	case svg.Bevel:
		s.add(sure, bevel)
	case svg.Round:
		s.add(sure, prim{c: b, r: h})
	case svg.Miter:
		switch {
		case ratio < pn.miter*0.95-0.03:
			s.add(sure, miter)
		case ratio > pn.miter*1.05+0.03:
			s.add(sure, bevel)
		default:
			s.add(sure, bevel)
			s.add(false, miter)
		}
	default: // arcs and clipped miters
		if straight && ratio < pn.miter*0.95-0.03 {
			s.add(sure, miter)
			return
		}
		s.add(sure, bevel)
		wide := prim{c: b, r: h * math.Max(1, pn.miter) * 3.3}
		s.add(false, wide)
		s.hazy = append(s.hazy, wide) // the outline may turn around in there, and cancel other parts of the line
	}
}

// stroke models an open or closed polyline.
func (s *strokeModel) stroke(q sub, pn *pen, allMaybe bool) {
	// drop edges without extent
	var pts []Pt
	var smooth []bool
	var rad []float64
	for i, p := range q.pts {
		if len(pts) > 0 && pts[len(pts)-1].dist(p) < 1e-9 {
			rad[len(rad)-1] = q.rad[i]
			continue
		}
		pts = append(pts, p)
		smooth = append(smooth, q.smooth[i])
		rad = append(rad, q.rad[i])
	}
	closed := q.closed
	h := pn.h
	if closed && len(pts) > 1 && pts[0].dist(pts[len(pts)-1]) < 1e-9 {
		pts, smooth, rad = pts[:len(pts)-1], smooth[:len(smooth)-1], rad[:len(rad)-1]
	}
	n := len(pts)
	if n < 2 { // nothing, or a dot in the form of the caps
		s.add(false, prim{c: pts[0], r: 1.6 * h})
		return
	}
	edges := n - 1
	if closed {
		edges = n
	}
	at := func(i int) Pt { return pts[((i%n)+n)%n] }
	elen := func(i int) float64 { return at(i).dist(at(i + 1)) }
	fine := func(i int) bool { // edge i is long, or part of a gentle curve
		i = (i + n) % n
		if math.IsInf(rad[i], 1) {
			return elen(i) > 2.5*h
		}
		return rad[i] > 1.3*h+1
	}
	curved := func(i int) bool { return !math.IsInf(rad[(i+n)%n], 1) }
	clean := func(i int) bool { // both edges at vertex i are fine
		if pn.kind == kDraw2d && !smooth[(i+n)%n] {
			return false
		}
		if pn.kind == kGG && closed && i%n == 0 {
			return false // gg draws caps at the start of a closed line
		}
		if !fine(i-1) || !fine(i) {
			return false
		}
		if !smooth[(i+n)%n] && (curved(i-1) || curved(i)) {
			// curves are long chains of short edges: their join is only certain at a small angle
			u, v := at(i).sub(at(i-1)), at(i+1).sub(at(i))
			return u.dot(v) > 0.96*math.Hypot(u.X, u.Y)*math.Hypot(v.X, v.Y)
		}
		return true
	}
	// near vertices that are not clean nothing is certain
	trim := func(i int) bool {
		joined := closed || i > 0 && i < edges
		return joined && !clean(i)
	}
	for i := 0; i < edges; i++ {
		a, b := at(i), at(i+1)
		l := a.dist(b)
		s.add(false, quad(a, b, h))
		if allMaybe || curved(i) {
			continue
		}
		d := b.sub(a).mul(1 / l)
		if trim(i) {
			a = a.add(d.mul(1.2 * h))
			l -= 1.2 * h
		}
		if trim(i + 1) {
			b = b.sub(d.mul(1.2 * h))
			l -= 1.2 * h
		}
		if l > 0.01 {
			s.add(true, quad(a, b, h))
		}
	}
	// curves are chains of edges between vertices that are not smooth
	for i := 0; i < edges && !allMaybe; {
		if !curved(i) {
			i++
			continue
		}
		j := i + 1
		for j < edges && smooth[j%n] {
			j++
		}
		var ch []Pt
		for k := i; k <= j; k++ {
			ch = append(ch, at(k))
		}
		r := rad[i]
		if r > 1.3*h+1 {
			q := sub{pts: ch, rad: make([]float64, len(ch)), smooth: make([]bool, len(ch))}
			lo, hi := 0.0, 0.0
			for k := 0; k+1 < len(ch); k++ {
				hi += ch[k].dist(ch[k+1])
			}
			switch {
			case trim(i):
				lo += 1.2 * h
			case !closed && i == 0: // the first edge of an approximation points elsewhere
				lo += 0.08 * h
			}
			switch {
			case trim(j):
				hi -= 1.2 * h
			case !closed && j == edges:
				hi -= 0.08 * h
			}
			if hi > lo {
				if c, ok := cut(q, lo, hi); ok {
					s.add(true, chainPrim(c.pts, h))
				}
			}
		}
		i = j
	}
	for i := 0; i < n; i++ {
		if !closed && (i == 0 || i == n-1) {
			continue
		}
		ok := !allMaybe && clean(i)
		if pn.kind == kGG && closed && i == 0 {
			s.add(false, prim{c: at(0), r: 1.45 * h})
			continue
		}
		if smooth[i] {
			s.add(false, prim{c: at(i), r: h})
			continue
		}
		s.join(at(i-1), at(i), at(i+1), pn, ok, !curved(i-1) && !curved(i))
		if !ok {
			s.add(false, prim{c: at(i), r: h})
			if !fine(i-1) || !fine(i) {
				s.hazy = append(s.hazy, prim{c: at(i), r: h})
			}
			if pn.kind == kRasterx || pn.kind == kRasterxGV {
				if pn.join != svg.Round && pn.join != svg.Bevel {
					k := 1.1
					if pn.clipped() {
						k = 3.3
					}
					s.add(false, prim{c: at(i), r: h * math.Max(1, pn.miter) * k})
				}
			}
		}
	}
	if (pn.kind == kRasterx || pn.kind == kRasterxGV) && (pn.join == svg.Arc || pn.join == svg.ArcClip) {
		for i := 0; i < n; i++ {
			if !smooth[i] && (closed || i > 0 && i < n-1) && (curved(i-1) || curved(i)) {
				// rasterx continues the curves as arcs, which may meet anywhere
				s.hazy = append(s.hazy, prim{r: 1e6})
				break
			}
		}
	}
	if !closed {
		first, last := pts[0].sub(pts[1]), pts[n-1].sub(pts[n-2])
		ok := !allMaybe && edges > 0
		s.cap(pts[0], first.mul(1/math.Hypot(first.X, first.Y)), pn.cap, pn, ok && fine(0))
		s.cap(pts[n-1], last.mul(1/math.Hypot(last.X, last.Y)), pn.lead, pn, ok && fine(n-2))
	}
}

// cut returns the part of the polyline between two arc lengths.
func cut(q sub, from, to float64) (sub, bool) {
	var out sub
	pos := 0.0
	n := len(q.pts)
	for i := 0; i+1 < n; i++ {
		a, b := q.pts[i], q.pts[i+1]
		l := a.dist(b)
		if l == 0 {
			continue
		}
		lo, hi := math.Max(from, pos), math.Min(to, pos+l)
		if hi > lo+1e-9 {
			p := lerp(a, b, (lo-pos)/l)
			r := lerp(a, b, (hi-pos)/l)
			if len(out.pts) == 0 {
				out.pts = append(out.pts, p)
				out.smooth = append(out.smooth, false)
				out.rad = append(out.rad, q.rad[i])
			}
			out.rad[len(out.rad)-1] = q.rad[i]
			out.pts = append(out.pts, r)
			out.smooth = append(out.smooth, q.smooth[i+1] && hi == pos+l)
			out.rad = append(out.rad, q.rad[i])
		}
		pos += l
	}
	return out, len(out.pts) > 1
}

func newStroke(kind string, subs []sub, pn pen) *strokeModel {
	s := &strokeModel{}
	if pn.h <= 0 {
		return s
	}
	for k, q := range subs {
		if len(q.pts) == 1 && !q.closed {
			s.add(false, prim{c: q.pts[0], r: 1.6 * pn.h})
			continue
		}
		if !tidy(q, &pn) {
			s.hazy = append(s.hazy, hull(q.pts, pn.h*math.Max(2, 3.3*pn.miter)+1)...)
			if pn.clipped() {
				s.hazy = append(s.hazy, prim{r: 1e6})
			}
			continue
		}
		if len(pn.dash) == 0 {
			s.stroke(q, &pn, false)
			continue
		}
		if kind == kGG && k > 0 {
			// gg starts the dashes of the second subpath elsewhere
			pl := pn
			pl.dash = nil
			pl.h *= 1.45 // square caps
			s.stroke(q, &pl, true)
			s.turns(q, &pn)
			continue
		}
		if kind == kDraw2d && !draw2dDashes(q, &pn) {
			pl := pn
			pl.dash = nil
			s.stroke(q, &pl, true)
			if q.closed {
				s.hazy = append(s.hazy, hull(q.pts, pn.h)...)
			}
			continue
		}
		s.dashed(q, &pn)
	}
	return s
}

// draw2dDashes reports whether draw2d keeps the phase of the dashes: its dasher
// forgets the begun dash at the end of every segment without a dash boundary.
func draw2dDashes(q sub, pn *pen) bool {
	pts := q.pts
	if q.closed {
		pts = append(append([]Pt(nil), pts...), pts[0])
	}
	k, used := 0, pn.off
	for used >= pn.dash[k] {
		used -= pn.dash[k]
		k = (k + 1) % len(pn.dash)
	}
	for i := 0; i+1 < len(pts); i++ {
		d := pts[i].dist(pts[i+1])
		rest := pn.dash[k] - used
		if math.Abs(d-rest) < 0.3 {
			return false
		}
		if d < rest {
			if used > 0 {
				return i+2 == len(pts) && d > 0 // harmless in the last segment
			}
			used = d
			continue
		}
		d -= rest
		k = (k + 1) % len(pn.dash)
		for d >= pn.dash[k] {
			d -= pn.dash[k]
			k = (k + 1) % len(pn.dash)
		}
		used = d
	}
	return true
}

// tidy reports whether the edges are long and the curves gentle compared to the
// width of the line. The libraries draw other lines with artefacts at their joins.
func tidy(q sub, pn *pen) bool {
	h := pn.h
	pts := q.pts
	n := len(pts)
	if q.loop {
		return false
	}
	if q.closed && n > 1 && pts[0].dist(pts[n-1]) < 0.02 {
		n--
	}
	if n < 2 {
		return false
	}
	edges := n - 1
	if q.closed {
		edges = n
	}
	l := 0.0 // length of the current curve
	for i := 0; i < edges; i++ {
		a, b := pts[i], pts[(i+1)%n]
		d := a.dist(b)
		if math.IsInf(q.rad[i], 1) {
			if d < 2.5*h+1 {
				return false
			}
			continue
		}
		if q.rad[i] < 1.3*h+1 {
			return false
		}
		l += d
		if i+1 >= edges || !q.smooth[(i+1)%n] {
			if l < 2.5*h+1 {
				return false
			}
			l = 0
		}
	}
	for i := 0; i < n; i++ {
		if !q.closed && (i == 0 || i == n-1) || q.smooth[i] {
			continue
		}
		u, v := pts[i].sub(pts[(i+n-1)%n]), pts[(i+1)%n].sub(pts[i])
		if lu, lv := math.Hypot(u.X, u.Y), math.Hypot(v.X, v.Y); lu > 0 && lv > 0 && u.dot(v) < -0.97*lu*lv {
			return false
		}
	}
	return true
}

// hull covers everything between the points.
func hull(pts []Pt, h float64) []prim {
	q := polyPrim(pts...)
	return []prim{{c: q.bc, r: q.br + h}}
}

// turns marks the corners of a dashed line. The outline of a short dash around a
// corner turns inside out, and cancels other parts of the line.
func (s *strokeModel) turns(q sub, pn *pen) {
	for i, p := range q.pts {
		if !q.smooth[i] && (q.closed || i > 0 && i < len(q.pts)-1) {
			s.hazy = append(s.hazy, prim{c: p, r: 1.45*pn.h + 1})
		}
	}
}

func (s *strokeModel) dashed(q sub, pn *pen) {
	line := q
	if q.closed {
		line = sub{pts: append(append([]Pt(nil), q.pts...), q.pts[0]), smooth: append(append([]bool(nil), q.smooth...), false),
			rad: append(append([]float64(nil), q.rad...), math.Inf(1))}
		s.add(false, prim{c: q.pts[0], r: 1.6 * pn.h * math.Max(1, pn.miter)})
	}
	var vpos []float64
	var vpt []Pt
	total := 0.0
	hasCurve := false
	for i := 0; i+1 < len(line.pts); i++ {
		total += line.pts[i].dist(line.pts[i+1])
		if !line.smooth[i+1] {
			vpos = append(vpos, total)
			vpt = append(vpt, line.pts[i+1])
		}
		if !math.IsInf(line.rad[i], 1) {
			hasCurve = true
		}
	}
	if total < 0.1 {
		s.add(false, prim{c: line.pts[0], r: 1.6*pn.h + 1})
		return
	}
	if pn.kind == kDraw2d && q.closed {
		// draw2d closes the dash at the end by itself, which may leave holes
		x := math.Mod(total+pn.off, 1e9)
		for k := 0; ; k++ {
			d := pn.dash[k%len(pn.dash)]
			if x < d {
				if k%2 == 0 || x < 2 || d-x < 2 {
					w := *pn
					w.dash = nil
					s.stroke(q, &w, true)
					if a, b := q.pts[0], q.pts[len(q.pts)-1]; a.dist(b) > 1e-6 {
						s.add(false, quad(a, b, pn.h))
					}
					s.hazy = append(s.hazy, hull(q.pts, pn.h)...)
					return
				}
				break
			}
			x -= d
		}
	}
	pos := -pn.off
	for i := 0; pos < total+2 && i < 2000; i++ {
		d := pn.dash[i%len(pn.dash)]
		// lengths are rounded to 1/64 and curves are approximated
		del := 0.35 + float64(i)*0.03
		if hasCurve {
			del += 0.3 + 0.02*math.Max(0, pos+d)
		}
		if i%2 == 0 && pos+d+del > 0 && pos-del < total {
			if c, ok := cut(line, math.Max(0, pos-del), math.Min(total, pos+d+del)); ok {
				w := *pn
				s.stroke(c, &w, true)
			}
			for _, v := range vpos { // the cap may have the direction of either edge
				for _, e := range []float64{pos, pos + d} {
					if math.Abs(v-e) < del+1 || hasCurve {
						if c, ok := cut(line, math.Max(0, e-0.1), math.Min(total, e+0.1)); ok {
							s.add(false, prim{c: c.pts[0], r: 1.45*pn.h + del})
						}
					}
				}
			}
			lo, hi := pos+del, pos+d-del
			if pos <= 0 {
				lo = 0
			}
			if pos+d >= total {
				hi = total
			}
			// a dash that starts or ends close to a vertex is certain only after it
			for k, v := range vpos {
				if pos > 0 && v > pos-del-1 && v < pos+2.5*pn.h {
					lo = math.Max(lo, v+pn.h+del)
					s.hazy = append(s.hazy, prim{c: vpt[k], r: 1.45*pn.h + 1}) // see turns
				}
				if pos+d < total && v < pos+d+del+1 && v > pos+d-2.5*pn.h {
					hi = math.Min(hi, v-pn.h-del)
					s.hazy = append(s.hazy, prim{c: vpt[k], r: 1.45*pn.h + 1})
				}
			}
			if hi > lo {
				if c, ok := cut(line, lo, hi); ok {
					w := *pn
					w.cap, w.lead = svg.ButtCap, svg.ButtCap
					away := func(x float64) bool {
						if x < 2+del || x > total-2-del {
							return false
						}
						for _, v := range vpos {
							if math.Abs(v-x) < 2+del {
								return false
							}
						}
						return !hasCurve
					}
					if away(pos) {
						w.cap = pn.cap
					}
					if away(pos + d) {
						w.lead = pn.lead
					}
					s.stroke(c, &w, false)
				}
			}
		}
		pos += d
	}
}

// ---- layers ----

// layer is one paint operation.
type layer struct {
	fill   *fillModel
	stroke *strokeModel
	rgb    [3]float64 // 0..255
	alpha  float64
	grad   gradFunc // nil: plain colour
	mask   []layer  // nil: not masked
	masked bool
}

// modelElem returns the layers of one element.
func modelElem(kind string, segs []Seg, st *RStyle, target Mat, opacity float64) []layer {
	m := target.mul(st.M)
	var out []layer
	subs := flatten(segs, m)
	col := func(p RPaint) [3]float64 {
		c := p.colour()
		return [3]float64{float64(c[0]), float64(c[1]), float64(c[2])}
	}
	if !st.Fill.None {
		f := newFill(subs, st.NonZero || kind == kRasterxGV)
		out = append(out, layer{fill: f, rgb: col(st.Fill), alpha: st.FillOp * opacity, grad: gradOf(kind, st.Fill.Grad, m, &f.bb, st.FillOp*opacity)})
	}
	if !st.Stroke.None {
		out = append(out, layer{stroke: newStroke(kind, subs, newPen(kind, st, m)), rgb: col(st.Stroke), alpha: st.StrokeOp * opacity, grad: gradOf(kind, st.Stroke.Grad, m, nil, st.StrokeOp*opacity)})
	}
	return out
}

type gradFunc func(p Pt) (rgb [3]float64, alpha float64, ok bool)

// gradOf is the colour of a gradient at a device point; not ok where the renderers
// are known to be limited. bb is the bounding box of the path in device space.
func gradOf(kind string, g *RGrad, m Mat, bb *[4]float64, opacity float64) gradFunc {
	if g == nil {
		return nil
	}
	none := func(Pt) (c [3]float64, a float64, ok bool) { return }
	if kind != kRasterx && kind != kRasterxGV {
		return none
	}
	n := len(g.Stops)
	if n < 2 {
		return none
	}
	for i, s := range g.Stops {
		if s.NilColor || i > 0 && s.Off < g.Stops[i-1].Off {
			return none
		}
	}
	if g.Spread == int(svg.RepeatSpread) && (g.Stops[0].Off != 0 || g.Stops[n-1].Off != 1) {
		return none
	}
	full := m.mul(g.M)
	if !g.User {
		// rasterx takes the box in device space
		if bb == nil || m.B != 0 || m.C != 0 || m.A <= 0 || m.D <= 0 || bb[2]-bb[0] < 1 || bb[3]-bb[1] < 1 {
			return none
		}
		if !g.Radial && g.Dir[0] != g.Dir[2] && g.Dir[1] != g.Dir[3] {
			return none
		}
		full = Mat{A: bb[2] - bb[0], D: bb[3] - bb[1], E: bb[0], F: bb[1]}.mul(g.M)
	} else if g.Radial {
		if full.B != 0 || full.C != 0 || full.A <= 0 || full.D <= 0 {
			return none
		}
	} else if math.Abs(full.A*full.C+full.B*full.D) > 1e-6*full.norm() || math.Abs(math.Hypot(full.A, full.B)-math.Hypot(full.C, full.D)) > 1e-6 {
		return none
	}
	if math.Abs(full.det()) < 1e-3 {
		return none
	}
	inv := full.inv()
	d := g.Dir
	var at func(q Pt) float64
	if g.Radial {
		if d[5] != 0 || d[4] <= 0 || math.Hypot(d[0]-d[2], d[1]-d[3]) > 0.9*d[4] {
			return none
		}
		if d[4]*math.Min(math.Hypot(full.A, full.B), math.Hypot(full.C, full.D)) < 4 {
			return none
		}
		c, f := Pt{d[0], d[1]}, Pt{d[2], d[3]}
		at = func(q Pt) float64 {
			// the smallest circle through q of the family from f (radius 0) to c (radius r)
			u, v := c.sub(f), q.sub(f)
			A, B, C := d[4]*d[4]-u.dot(u), u.dot(v), v.dot(v)
			return (math.Sqrt(B*B+A*C) - B) / A
		}
	} else {
		a, v := Pt{d[0], d[1]}, Pt{d[2] - d[0], d[3] - d[1]}
		if full.pt(a).dist(full.pt(a.add(v))) < 4 {
			return none
		}
		at = func(q Pt) float64 { return q.sub(a).dot(v) / v.dot(v) }
	}
	colour := func(p Pt) (c [4]float64) {
		t := at(inv.pt(p))
		switch g.Spread {
		case int(svg.RepeatSpread):
			t -= math.Floor(t)
		case int(svg.ReflectSpread):
			t = math.Mod(math.Abs(t), 2)
			if t > 1 {
				t = 2 - t
			}
		}
		get := func(i int) [4]float64 {
			s := g.Stops[i]
			return [4]float64{float64(s.RGB[0]), float64(s.RGB[1]), float64(s.RGB[2]), s.Opa * 255}
		}
		if t <= g.Stops[0].Off {
			return get(0)
		}
		for i := 1; i < n; i++ {
			if t <= g.Stops[i].Off {
				k := (t - g.Stops[i-1].Off) / (g.Stops[i].Off - g.Stops[i-1].Off)
				x, y := get(i-1), get(i)
				for j := range c {
					c[j] = x[j]*(1-k) + y[j]*k
				}
				return c
			}
		}
		return get(n - 1)
	}
	return func(p Pt) (rgb [3]float64, alpha float64, ok bool) {
		if g.Spread == int(svg.RepeatSpread) {
			if t := at(inv.pt(p)); math.Abs(t-math.Round(t)) < 1e-4 {
				return // rasterx drops the opacity exactly where the gradient repeats
			}
		}
		c := colour(p)
		for _, o := range []Pt{{0.15, 0}, {-0.15, 0}, {0, 0.15}, {0, -0.15}} {
			e := colour(p.add(o))
			for j := range c {
				if math.Abs(c[j]-e[j]) > 3 {
					return // too steep to be compared
				}
			}
		}
		return [3]float64{c[0], c[1], c[2]}, c[3] / 255 * opacity, true
	}
}

const pixMargin = 1.05

func (l *layer) cover(p Pt) int {
	if l.fill != nil {
		return l.fill.at(p, pixMargin)
	}
	return l.stroke.at(p, pixMargin)
}

// eval composes the layers at a point; known is false near borders.
func evalLayers(ls []layer, p Pt, bg [4]float64) (c [4]float64, painted int, known bool) {
	c, known = bg, true
	for i := range ls {
		l := &ls[i]
		cov := l.cover(p)
		if cov == covOut {
			continue
		}
		rgb, a := l.rgb, l.alpha
		ok := cov == covIn
		if l.grad != nil && ok {
			rgb, a, ok = l.grad(p)
		}
		if l.masked && ok {
			mc, _, mk := evalLayers(l.mask, p, [4]float64{})
			if !mk {
				ok = false
			} else {
				a *= (0.2126*mc[0] + 0.7152*mc[1] + 0.0722*mc[2]) / 255
			}
		}
		if !ok {
			if l.alpha > 0 || l.grad != nil {
				known = false
			}
			continue
		}
		painted++
		for k := 0; k < 3; k++ {
			c[k] = c[k]*(1-a) + rgb[k]*a
		}
		c[3] = c[3]*(1-a) + 255*a
		if a >= 0.999 {
			known = true
		}
	}
	return c, painted, known
}

type pixStat struct{ known, painted, blended int }

// comparePix checks every step-th pixel against the layers.
func comparePix(im *image.RGBA, ls []layer, bg color.NRGBA, step, phase int, base int) (pixStat, error) {
	var st pixStat
	a := float64(bg.A) / 255
	b4 := [4]float64{float64(bg.R) * a, float64(bg.G) * a, float64(bg.B) * a, float64(bg.A)}
	b := im.Bounds()
	// the freetype rasterizer mixes what lies outside the image into the first row and column
	for y := 1 + phase%step; y < b.Dy(); y += step {
		for x := 1 + (phase/7)%step; x < b.Dx(); x += step {
			want, n, known := evalLayers(ls, Pt{float64(x) + 0.5, float64(y) + 0.5}, b4)
			if !known {
				continue
			}
			st.known++
			if n > 0 {
				st.painted++
			}
			if n > 1 {
				st.blended++
			}
			i := im.PixOffset(x, y)
			got := im.Pix[i : i+4]
			tol := float64(base + 2*n)
			for k := 0; k < 4; k++ {
				if math.Abs(float64(got[k])-want[k]) > tol {
					return st, fmt.Errorf("pixel %d,%d is %v, want %.0f (%d layers there)", x, y, got, want, n)
				}
			}
		}
	}
	return st, nil
}
