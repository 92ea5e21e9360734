package main

import (
	"fmt"
	"image"
	"math"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"pgregory.net/rapid"
)

// ---- C18, as drawn: a target moves the picture, and nothing else ----

// TargetCase is a scene drawn with a target, and with the target's
// transformation written into its elements.
type TargetCase struct {
	S    *Scene
	Kind string
}

func genTarget(t *rapid.T) TargetCase {
	c := TargetCase{Kind: oneOf(t, "renderer", allKinds...)}
	o := sceneOpt{elems: 3, fill: 8, stroke: 5, curves: true, shear: true, masks: c.Kind == kGG && chance(t, 1, 2, "masks"), grad: chance(t, 1, 3, "gradients")}
	c.S = genScene(o)(t)
	if c.S.Target == nil {
		c.S.VB = [4]float64{dec(t, -50, 50, "vx"), dec(t, -50, 50, "vy"), dec(t, 10, 150, "vw"), dec(t, 10, 150, "vh")}
		c.S.Target = []float64{dec(t, -10, 30, "x"), dec(t, -10, 30, "y"), dec(t, 10, 90, "tw"), dec(t, 10, 90, "th")}
	}
	for i := range c.S.Elems {
		c.S.Elems[i].St.Join = svg.Bevel // a mitre may turn into a bevel with the last bit of an angle
	}
	return c
}

// alike reports a pixel of one image that has no similar pixel next to the same
// place in the other image: edges may move by a pixel.
func alike(a, b *image.RGBA, tol int) error {
	w, h := a.Bounds().Dx(), a.Bounds().Dy()
	one := func(a, b *image.RGBA) error {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				p := a.Pix[a.PixOffset(x, y):][:4]
				found := false
				for dy := -1; dy <= 1 && !found; dy++ {
					for dx := -1; dx <= 1 && !found; dx++ {
						if x+dx < 0 || y+dy < 0 || x+dx >= w || y+dy >= h {
							continue
						}
						q := b.Pix[b.PixOffset(x+dx, y+dy):][:4]
						found = true
						for i := range p {
							if d := int(p[i]) - int(q[i]); d > tol || -d > tol {
								found = false
							}
						}
					}
				}
				if !found {
					return fmt.Errorf("pixel %d,%d: %v and %v", x, y, p, b.Pix[b.PixOffset(x, y):][:4])
				}
			}
		}
		return nil
	}
	if err := one(a, b); err != nil {
		return err
	}
	return one(b, a)
}

func checkTargetDrawn(c TargetCase, r *Rec) error {
	r.Sample(c.S.describe())
	r.Label("%s", c.Kind)
	c.S.label(r)
	with, err := render(c.Kind, c.S.svg(), c.S.W, c.S.H, c.S.bg(), c.S.opts()...)
	if err != nil {
		return fmt.Errorf("%s: %v\n%s", c.Kind, err, c.S.describe())
	}
	m := c.S.target()
	s := c.S.svg()
	for i := range s.SvgPaths {
		st := &s.SvgPaths[i].Style
		st.Transform = toSvgMat(m.mul(toMat(st.Transform)))
	}
	plain := *c.S
	plain.Target = nil
	without, err := render(c.Kind, s, c.S.W, c.S.H, c.S.bg(), plain.opts()...)
	if err != nil {
		return fmt.Errorf("%s: %v\n%s", c.Kind, err, c.S.describe())
	}
	r.NonTrivial(c.S.nonTrivialPix(with))
	if err := alike(with, without, 60); err != nil {
		return fmt.Errorf("%s: drawn with the target, and with its transformation in the elements: %v\n%s", c.Kind, err, c.S.describe())
	}
	return nil
}

// FitCase is a document that paints its view box, drawn to a target.
type FitCase struct {
	Kind   string
	VB     [4]float64
	Size   bool // the size takes the place of the view box
	Other  []float64
	Target [4]float64
	Op     []float64
	First  bool // the opacity is the first option
	RGB    [3]int
	W, H   int
}

func genFit(t *rapid.T) FitCase {
	c := FitCase{Kind: oneOf(t, "renderer", allKinds...), RGB: genRGB(t, "rgb"), W: intn(t, 10, 80, "w"), H: intn(t, 10, 80, "h")}
	c.VB = [4]float64{dec(t, -500, 500, "vx"), dec(t, -500, 500, "vy"), dec(t, 1, 900, "vw"), dec(t, 1, 900, "vh")}
	if chance(t, 1, 4, "size") {
		c.Size = true
		c.VB[0], c.VB[1] = 0, 0
	}
	c.Target = [4]float64{dec(t, -20, 60, "x"), dec(t, -20, 60, "y"), dec(t, 1, 90, "tw"), dec(t, 1, 90, "th")}
	if chance(t, 1, 3, "full") {
		c.Target = [4]float64{0, 0, float64(c.W), float64(c.H)}
	}
	if chance(t, 1, 3, "other") {
		c.Other = []float64{dec(t, -20, 60, "ox"), dec(t, -20, 60, "oy"), dec(t, 1, 90, "ow"), dec(t, 1, 90, "oh")}
	}
	if chance(t, 1, 3, "opacity") {
		c.Op = []float64{float64(intn(t, 0, 10, "o")) / 10}
		c.First = chance(t, 1, 2, "first")
	}
	return c
}

func checkFit(c FitCase, r *Rec) error {
	vb := c.VB
	doc := fmt.Sprintf(`<svg viewBox="%v %v %v %v"`, vb[0], vb[1], vb[2], vb[3])
	if c.Size {
		doc = fmt.Sprintf(`<svg width="%v" height="%v"`, vb[2], vb[3])
	}
	doc += fmt.Sprintf(`><path fill="#%02x%02x%02x" d="M%v %vh%vv%vh%vz"/></svg>`, c.RGB[0], c.RGB[1], c.RGB[2], vb[0], vb[1], vb[2], vb[3], -vb[2])
	r.Sample(doc)
	r.Label("%s", c.Kind)
	s, err := mustParse(doc, svg.StrictErrorMode)
	if err != nil {
		return err
	}
	var opts []renderer.RenderOption
	opacity := 1.0
	if c.Op != nil && c.First {
		opts = append(opts, renderer.Opacity(c.Op[0]))
	}
	if c.Other != nil {
		opts = append(opts, renderer.Target(c.Other[0], c.Other[1], c.Other[2], c.Other[3]))
		r.Label("two-targets")
	}
	opts = append(opts, renderer.Target(c.Target[0], c.Target[1], c.Target[2], c.Target[3]))
	if c.Op != nil && !c.First {
		opts = append(opts, renderer.Opacity(c.Op[0]))
	}
	if c.Op != nil {
		opacity = c.Op[0]
	}
	sc := Scene{Bg: [4]uint8{255, 255, 255, 255}}
	im, err := render(c.Kind, s, c.W, c.H, sc.bg(), opts...)
	if err != nil {
		return err
	}
	x0, y0 := c.Target[0], c.Target[1]
	x1, y1 := x0+c.Target[2], y0+c.Target[3]
	// coordinates of the path are rounded to 1/64 before they are scaled
	ex, ey := 0.6+c.Target[2]/vb[2]/32, 0.6+c.Target[3]/vb[3]/32
	in, out := 0, 0
	for y := 0; y < c.H; y++ {
		for x := 0; x < c.W; x++ {
			px, py := float64(x)+0.5, float64(y)+0.5
			var want [3]int
			switch {
			case px > x0+ex && px < x1-ex && py > y0+ey && py < y1-ey:
				for i := range want {
					want[i] = int(math.Round(255 + (float64(c.RGB[i])-255)*opacity))
				}
				in++
			case px < x0-ex || px > x1+ex || py < y0-ey || py > y1+ey:
				want = [3]int{255, 255, 255}
				out++
			default:
				continue
			}
			if (x == 0 || y == 0) && c.Kind != kRasterxGV {
				continue // see pix.go: the freetype rasterizer smears the first row and column
			}
			p := im.Pix[im.PixOffset(x, y):][:4]
			for i := range want {
				if d := int(p[i]) - want[i]; d > 4 || d < -4 {
					return fmt.Errorf("%s: view box %v drawn to %v with opacity %v (options %v) on %dx%d: pixel %d,%d is %v, want %v\n%s", c.Kind, vb, c.Target, opacity, opts, c.W, c.H, x, y, p, want, doc)
				}
			}
		}
	}
	r.NonTrivial(in >= 5 && out >= 5)
	return nil
}

func init() {
	register("C18",
		NewSub("view-box", 40000, 600000, "at least 5 pixels inside and 5 outside of the target", genFit, checkFit),
		NewSub("drawn", 30000, 400000, "something is painted", genTarget, checkTargetDrawn))
}
