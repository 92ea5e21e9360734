package main

import (
	"fmt"
	"strings"

	svg "github.com/lafriks/go-svg"
	"pgregory.net/rapid"
)

// ---- C02: path data draws the geometry the SVG path grammar specifies ----

type PathCase struct {
	D     []Cmd `json:"d"`
	Noise Noise `json:"nz,omitempty"`
	Mode  int   `json:"mode,omitempty"`
	// Pre is the path drawn before: nothing of it may leak into the next
	Pre []Cmd `json:"pre,omitempty"`
}

func (c PathCase) doc() (string, string) {
	n := c.Noise.reader()
	d := pathText(c.D, n)
	pre := ""
	if c.Pre != nil {
		pre = `<path d="` + escAttr(pathText(c.Pre, n), '"') + `"/>`
	}
	return d, `<svg viewBox="0 0 100 100">` + pre + `<path d="` + escAttr(d, '"') + `"/></svg>`
}

// genPre draws the path before, with one subpath more or less than usual at the end.
func genPre(t *rapid.T, arcs bool) []Cmd {
	if !chance(t, 1, 4, "pre") {
		return nil
	}
	return genPath(t, 4, arcs)
}

func genPathCase(maxCmds int, arcs bool) func(t *rapid.T) PathCase {
	return func(t *rapid.T) PathCase {
		return PathCase{D: genPath(t, maxCmds, arcs), Noise: genNoise(t, 40), Mode: intn(t, 0, 2, "mode"), Pre: genPre(t, arcs)}
	}
}

func pathLabels(r *Rec, cmds []Cmd) {
	kinds := map[byte]bool{}
	prev := byte(0)
	for _, c := range cmds {
		k := up(c.K)
		kinds[k] = true
		if n := argc[k]; n > 0 && len(c.A) > n {
			r.Label("repeat-%c", k)
		}
		if prev == 'Z' && k != 'M' && k != 'Z' {
			r.Label("draw-after-close")
		}
		if (k == 'S' && prev == 'C') || (k == 'T' && prev == 'Q') {
			r.Label("smooth")
		}
		prev = k
	}
	for k := range kinds {
		r.Label("has-%c", k)
	}
	r.NonTrivial(len(kinds) >= 2)
}

func checkPathGeometry(c PathCase, r *Rec) error {
	d, doc := c.doc()
	segs, odd := interpret2(c.D)
	if odd || !arcConditioned(segs) {
		return errSkip
	}
	pathLabels(r, c.D)
	r.Sample(d)
	s, err := mustParse(doc, svg.ErrorMode(c.Mode))
	if err != nil {
		return err
	}
	want := 1
	if c.Pre != nil {
		want = 2
		r.Label("second-path")
	}
	if len(s.SvgPaths) != want {
		return fmt.Errorf("%s: %d paths drawn, want %d", doc, len(s.SvgPaths), want)
	}
	if err := matchPath(s.SvgPaths[want-1].Path, segs); err != nil {
		return fmt.Errorf("path %q of %s: %v", d, doc, err)
	}
	return nil
}

// ---- C03: spelling of path data does not matter ----

type SpellCase struct {
	D  []Cmd `json:"d"`
	N1 Noise `json:"n1,omitempty"`
	N2 Noise `json:"n2,omitempty"`
	// Conv rewrites command i into an equivalent one when bit set
	Conv []byte `json:"conv,omitempty"`
	// Pre is drawn before the second spelling
	Pre []Cmd `json:"pre,omitempty"`
}

// rewrite converts commands between equivalent forms: relative/absolute,
// H/V to L, split repeated argument sets, S/T to C/Q.
func rewrite(cmds []Cmd, conv []byte) []Cmd {
	var out []Cmd
	var cur, start, cq, cc Pt
	last := byte('M')
	for i, c := range cmds {
		v := 0
		if len(conv) > 0 {
			v = int(conv[i%len(conv)])
		}
		k := up(c.K)
		rel := c.K != string(k)
		n := argc[k]
		if k == 'Z' {
			nk := c.K
			if v&1 != 0 {
				nk = map[string]string{"z": "Z", "Z": "z"}[nk]
			}
			out = append(out, Cmd{K: nk})
			cur = start
			last = 'Z'
			continue
		}
		toRel := v&1 != 0
		split := v&2 != 0
		expand := v&4 != 0
		var acc []float64
		var accK byte
		flush := func() {
			if len(acc) > 0 {
				nk := string(accK)
				if toRel {
					nk = strings.ToLower(nk)
				}
				out = append(out, Cmd{K: nk, A: acc})
				acc = nil
			}
		}
		for j := 0; j+n <= len(c.A); j += n {
			a := append([]float64{}, c.A[j:j+n]...)
			off := Pt{}
			if rel {
				off = cur
			}
			// absolute arguments
			kk := k
			if k == 'M' && j > 0 {
				kk = 'L'
			}
			pre := cur
			switch kk {
			case 'H':
				a[0] += off.X
				cur.X = a[0]
				if expand {
					kk, a = 'L', []float64{cur.X, cur.Y}
				}
			case 'V':
				a[0] += off.Y
				cur.Y = a[0]
				if expand {
					kk, a = 'L', []float64{cur.X, cur.Y}
				}
			case 'A':
				a[5] += off.X
				a[6] += off.Y
				cur = Pt{a[5], a[6]}
			default:
				for x := 0; x < len(a); x += 2 {
					a[x] += off.X
					a[x+1] += off.Y
				}
				cur = Pt{a[len(a)-2], a[len(a)-1]}
			}
			switch kk {
			case 'M':
				start = cur
			case 'C':
				cc = Pt{a[2], a[3]}
			case 'Q':
				cq = Pt{a[0], a[1]}
			case 'S':
				c1 := pre
				if last == 'C' || last == 'S' {
					c1 = Pt{2*pre.X - cc.X, 2*pre.Y - cc.Y}
				}
				cc = Pt{a[0], a[1]}
				if expand {
					kk, a = 'C', append([]float64{c1.X, c1.Y}, a...)
				}
			case 'T':
				c1 := pre
				if last == 'Q' || last == 'T' {
					c1 = Pt{2*pre.X - cq.X, 2*pre.Y - cq.Y}
				}
				cq = c1
				if expand {
					kk, a = 'Q', append([]float64{c1.X, c1.Y}, a...)
				}
			}
			last = kk
			if toRel {
				switch kk {
				case 'H':
					a[0] -= pre.X
				case 'V':
					a[0] -= pre.Y
				case 'A':
					a[5] -= pre.X
					a[6] -= pre.Y
				default:
					for x := 0; x < len(a); x += 2 {
						a[x] -= pre.X
						a[x+1] -= pre.Y
					}
				}
			}
			if split || (len(acc) > 0 && accK != kk && !(accK == 'M' && kk == 'L')) {
				flush()
			}
			if len(acc) == 0 {
				accK = kk
			}
			acc = append(acc, a...)
		}
		flush()
	}
	return out
}

func checkSpelling(c SpellCase, r *Rec) error {
	alt := rewrite(c.D, c.Conv)
	d1, d2 := pathText(c.D, c.N1.reader()), pathText(alt, c.N2.reader())
	r.Sample(d1 + "  ==  " + d2)
	r.NonTrivial(d1 != d2 && len(c.D) >= 2)
	pathLabels(r, c.D)
	segs, odd := interpret2(c.D)
	if odd || !arcConditioned(segs) {
		return errSkip
	}
	segs2, odd := interpret2(alt)
	if odd || !arcConditioned(segs2) || len(segs) != len(segs2) {
		return errSkip // the rewritten arc degenerates through rounding
	}
	hasArc := false
	for _, s := range segs {
		hasArc = hasArc || s.K == 'A'
	}
	wrap := func(d string) string { return `<svg viewBox="0 0 100 100"><path d="` + escAttr(d, '"') + `"/></svg>` }
	a, err := mustParse(wrap(d1), svg.StrictErrorMode)
	if err != nil {
		return err
	}
	w2 := wrap(d2)
	if c.Pre != nil {
		w2 = strings.Replace(w2, "<path", `<path d="`+pathText(c.Pre, nil)+`"/><path`, 1)
	}
	b, err := mustParse(w2, svg.StrictErrorMode)
	if err != nil {
		return err
	}
	if c.Pre != nil {
		if len(b.SvgPaths) != 2 {
			return fmt.Errorf("%s draws %d paths, want 2", w2, len(b.SvgPaths))
		}
		b.SvgPaths = b.SvgPaths[1:]
	}
	if len(a.SvgPaths) != len(b.SvgPaths) {
		return fmt.Errorf("%q and %q draw %d and %d paths", d1, d2, len(a.SvgPaths), len(b.SvgPaths))
	}
	for i := range a.SvgPaths {
		if hasArc {
			// subdivision of an arc may depend on rounding: compare by geometry
			for _, p := range []svg.Path{a.SvgPaths[i].Path, b.SvgPaths[i].Path} {
				if err := matchPath(p, segs); err != nil {
					return fmt.Errorf("%q and %q differ: %v", d1, d2, err)
				}
			}
			continue
		}
		if err := sameOps(a.SvgPaths[i].Path, b.SvgPaths[i].Path, 3.3/64); err != nil {
			return fmt.Errorf("%q and %q differ: %v", d1, d2, err)
		}
	}
	return nil
}

// sameOps compares two library paths point by point.
func sameOps(a, b svg.Path, tol float64) error {
	oa, err := plainOps(a)
	if err != nil {
		return err
	}
	ob, err := plainOps(b)
	if err != nil {
		return err
	}
	return sameOpList(oa, ob, tol)
}

func sameOpList(oa, ob []Op, tol float64) error {
	oa, ob = normOps(oa), normOps(ob)
	if len(oa) != len(ob) {
		return fmt.Errorf("%d and %d operations:\n %s\n %s", len(oa), len(ob), opsString(oa), opsString(ob))
	}
	for i := range oa {
		if oa[i].K != ob[i].K {
			return fmt.Errorf("operation %d is %c and %c:\n %s\n %s", i, oa[i].K, ob[i].K, opsString(oa), opsString(ob))
		}
		for j := range oa[i].P {
			if !near(oa[i].P[j], ob[i].P[j], tol+1e-6*(abs(oa[i].P[j].X)+abs(oa[i].P[j].Y))) {
				return fmt.Errorf("operation %d point %d is %v and %v:\n %s\n %s", i, j, oa[i].P[j], ob[i].P[j], opsString(oa), opsString(ob))
			}
		}
	}
	return nil
}

func abs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

func init() {
	rule := "path data from the SVG grammar with at least two kinds of commands"
	register("C02",
		NewSub("lines-curves", 60000, 1500000, rule, genPathCase(8, false), checkPathGeometry),
		NewSub("arcs", 40000, 1000000, rule, genPathCase(5, true), checkPathGeometry),
	)
	register("C03",
		NewSub("respell", 60000, 1500000, "two different texts of the same path with at least two commands",
			func(t *rapid.T) SpellCase {
				return SpellCase{D: genPath(t, 6, true), N1: genNoise(t, 40), N2: genNoise(t, 40),
					Conv: rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "conv"), Pre: genPre(t, true)}
			}, checkSpelling),
	)
}
