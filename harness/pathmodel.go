package main

import (
	"fmt"
	"math"
	"strings"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
	"pgregory.net/rapid"
)

// Cmd is one path command with its (possibly repeated) argument sets.
type Cmd struct {
	K string
	A []float64
}

// Seg is one absolute drawing operation of the reference interpreter.
type Seg struct {
	K byte // M L Q C A Z
	P []Pt // end point last
	// elliptical arc, centre parametrisation
	RX, RY, Phi, Th, Dth float64
	Ctr                  Pt
}

func (s Seg) end() Pt { return s.P[len(s.P)-1] }

var argc = map[byte]int{'M': 2, 'L': 2, 'H': 1, 'V': 1, 'C': 6, 'S': 4, 'Q': 4, 'T': 2, 'A': 7, 'Z': 0}

func up(k string) byte { return strings.ToUpper(k)[0] }

// interpret is the reference semantics of path data (SVG 1.1/2, section 9.3).
func interpret(cmds []Cmd) []Seg { s, _ := interpret2(cmds); return s }

// interpret2 also reports a corner case left out of every domain: an arc
// without extent (which draws nothing) as first command after a close.
func interpret2(cmds []Cmd) (out []Seg, odd bool) {
	var cur, start, cq, cc Pt
	open := false
	last := byte('M')
	for _, c := range cmds {
		k := up(c.K)
		rel := c.K != string(k)
		n := argc[k]
		if k == 'Z' {
			if len(out) > 0 && out[len(out)-1].K == 'Z' {
				last = 'Z'
				continue // closing a closed subpath again draws nothing
			}
			out = append(out, Seg{K: 'Z', P: []Pt{start}})
			cur = start
			open = false
			last = 'Z'
			continue
		}
		for i := 0; i+n <= len(c.A); i += n {
			a := c.A[i : i+n]
			off := Pt{}
			if rel {
				off = cur
			}
			kk := k
			if k == 'M' && i > 0 {
				kk = 'L'
			}
			if kk != 'M' && !open {
				out = append(out, Seg{K: 'M', P: []Pt{start}})
				open = true
			}
			p := func(j int) Pt { return Pt{a[j] + off.X, a[j+1] + off.Y} }
			switch kk {
			case 'M':
				cur = p(0)
				start = cur
				open = true
				out = append(out, Seg{K: 'M', P: []Pt{cur}})
			case 'L':
				cur = p(0)
				out = append(out, Seg{K: 'L', P: []Pt{cur}})
			case 'H':
				cur = Pt{a[0] + off.X, cur.Y}
				out = append(out, Seg{K: 'L', P: []Pt{cur}})
			case 'V':
				cur = Pt{cur.X, a[0] + off.Y}
				out = append(out, Seg{K: 'L', P: []Pt{cur}})
			case 'C':
				cc = p(2)
				out = append(out, Seg{K: 'C', P: []Pt{p(0), p(2), p(4)}})
				cur = p(4)
			case 'S':
				c1 := cur
				if last == 'C' || last == 'S' {
					c1 = Pt{2*cur.X - cc.X, 2*cur.Y - cc.Y}
				}
				cc = p(0)
				out = append(out, Seg{K: 'C', P: []Pt{c1, p(0), p(2)}})
				cur = p(2)
			case 'Q':
				cq = p(0)
				out = append(out, Seg{K: 'Q', P: []Pt{p(0), p(2)}})
				cur = p(2)
			case 'T':
				c1 := cur
				if last == 'Q' || last == 'T' {
					c1 = Pt{2*cur.X - cq.X, 2*cur.Y - cq.Y}
				}
				cq = c1
				out = append(out, Seg{K: 'Q', P: []Pt{c1, p(0)}})
				cur = p(0)
			case 'A':
				end := p(5)
				s, draw := arcSeg(cur, end, a[0], a[1], a[2], a[3] != 0, a[4] != 0)
				if draw {
					out = append(out, s)
				} else if last == 'Z' {
					odd = true
				}
				cur = end
			}
			last = kk
		}
	}
	return out, odd
}

// arcSeg converts endpoint to centre parametrisation (SVG implementation notes F.6).
func arcSeg(p1, p2 Pt, rx, ry, phiDeg float64, large, sweep bool) (Seg, bool) {
	if p1 == p2 {
		return Seg{}, false
	}
	rx, ry = math.Abs(rx), math.Abs(ry)
	if rx == 0 || ry == 0 {
		return Seg{K: 'L', P: []Pt{p2}}, true
	}
	phi := phiDeg * math.Pi / 180
	sn, cs := math.Sincos(phi)
	dx, dy := (p1.X-p2.X)/2, (p1.Y-p2.Y)/2
	x1, y1 := cs*dx+sn*dy, -sn*dx+cs*dy
	lam := x1*x1/(rx*rx) + y1*y1/(ry*ry)
	if lam > 1 {
		k := math.Sqrt(lam)
		rx *= k
		ry *= k
	}
	num := rx*rx*ry*ry - rx*rx*y1*y1 - ry*ry*x1*x1
	den := rx*rx*y1*y1 + ry*ry*x1*x1
	q := 0.0
	if num > 0 && den > 0 {
		q = math.Sqrt(num / den)
	}
	if large == sweep {
		q = -q
	}
	cx1, cy1 := q*rx*y1/ry, -q*ry*x1/rx
	c := Pt{cs*cx1 - sn*cy1 + (p1.X+p2.X)/2, sn*cx1 + cs*cy1 + (p1.Y+p2.Y)/2}
	th1 := math.Atan2((y1-cy1)/ry, (x1-cx1)/rx)
	th2 := math.Atan2((-y1-cy1)/ry, (-x1-cx1)/rx)
	d := th2 - th1
	if sweep && d < 0 {
		d += 2 * math.Pi
	} else if !sweep && d > 0 {
		d -= 2 * math.Pi
	}
	return Seg{K: 'A', P: []Pt{p2}, RX: rx, RY: ry, Phi: phi, Th: th1, Dth: d, Ctr: c}, true
}

func (s Seg) arcAt(th float64) Pt {
	sn, cs := math.Sincos(s.Phi)
	x, y := s.RX*math.Cos(th), s.RY*math.Sin(th)
	return Pt{s.Ctr.X + cs*x - sn*y, s.Ctr.Y + sn*x + cs*y}
}

// unit maps a point to the unit circle of the arc's ellipse.
func (s Seg) unit(p Pt) Pt {
	sn, cs := math.Sincos(s.Phi)
	dx, dy := p.X-s.Ctr.X, p.Y-s.Ctr.Y
	return Pt{(cs*dx + sn*dy) / s.RX, (-sn*dx + cs*dy) / s.RY}
}

// ---- matching the library's operations against the reference ----

func fpt(p fixed.Point26_6) Pt { return Pt{float64(p.X) / 64, float64(p.Y) / 64} }

// Op is a library operation in plain form.
type Op struct {
	K byte // M L Q C Z
	P []Pt
}

func plainOps(p svg.Path) ([]Op, error) {
	var out []Op
	for i, op := range p {
		switch o := op.(type) {
		case svg.OpMoveTo:
			out = append(out, Op{'M', []Pt{fpt(fixed.Point26_6(o))}})
		case svg.OpLineTo:
			out = append(out, Op{'L', []Pt{fpt(fixed.Point26_6(o))}})
		case svg.OpQuadTo:
			out = append(out, Op{'Q', []Pt{fpt(o[0]), fpt(o[1])}})
		case svg.OpCubicTo:
			out = append(out, Op{'C', []Pt{fpt(o[0]), fpt(o[1]), fpt(o[2])}})
		case svg.OpClose:
			out = append(out, Op{'Z', nil})
		default:
			return nil, fmt.Errorf("operation %d has unexpected type %T", i, op)
		}
	}
	return out, nil
}

// normOps drops repeated closes and makes the implicit MoveTo after a close explicit.
func normOps(ops []Op) []Op {
	var out []Op
	var start Pt
	for _, o := range ops {
		prev := byte(0)
		if len(out) > 0 {
			prev = out[len(out)-1].K
		}
		if o.K == 'Z' && prev == 'Z' {
			continue
		}
		if o.K != 'M' && o.K != 'Z' && prev == 'Z' {
			out = append(out, Op{'M', []Pt{start}})
		}
		if o.K == 'M' {
			start = o.P[0]
		}
		out = append(out, o)
	}
	return out
}

const fixTol = 1.3 / 64 // truncation to 26.6 plus rounding noise

func near(a, b Pt, tol float64) bool {
	return math.Abs(a.X-b.X) <= tol && math.Abs(a.Y-b.Y) <= tol
}

func ptTol(p Pt) float64 { return fixTol + 1e-9*(math.Abs(p.X)+math.Abs(p.Y)) }

func opsString(ops []Op) string {
	var b strings.Builder
	for _, o := range ops {
		b.WriteByte(o.K)
		for i, p := range o.P {
			if i > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(&b, "%.4g,%.4g", p.X, p.Y)
		}
		b.WriteByte(' ')
	}
	s := b.String()
	if len(s) > 800 {
		s = s[:800] + "..."
	}
	return s
}

// matchPath compares library operations with the reference segments.
func matchPath(path svg.Path, want []Seg) error {
	ops, err := plainOps(path)
	if err != nil {
		return err
	}
	ops = normOps(ops)
	return matchOps(ops, want)
}

func matchOps(ops []Op, want []Seg) error {
	i := 0
	var cur Pt
	for w, s := range want {
		fail := func(format string, a ...any) error {
			return fmt.Errorf("segment %d (%c to %v): %s\n got %s", w, s.K, s.P, fmt.Sprintf(format, a...), opsString(ops))
		}
		if s.K == 'A' {
			n, err := matchArc(ops[i:], cur, s)
			if err != nil {
				return fail("%v", err)
			}
			i += n
			cur = s.end()
			continue
		}
		if i >= len(ops) {
			return fail("missing, only %d operations", len(ops))
		}
		o := ops[i]
		i++
		if o.K != s.K {
			return fail("operation %d is %c", i-1, o.K)
		}
		if s.K != 'Z' {
			for j := range s.P {
				if !near(o.P[j], s.P[j], ptTol(s.P[j])) {
					return fail("operation %d point %d is %v", i-1, j, o.P[j])
				}
			}
		}
		cur = s.end()
	}
	if i != len(ops) {
		return fmt.Errorf("%d extra operations after the expected %d segments: got %s", len(ops)-i, len(want), opsString(ops))
	}
	return nil
}

func bez(p0 Pt, o Op, t float64) Pt {
	switch o.K {
	case 'L':
		return lerp(p0, o.P[0], t)
	case 'Q':
		a, b := lerp(p0, o.P[0], t), lerp(o.P[0], o.P[1], t)
		return lerp(a, b, t)
	case 'C':
		a, b, c := lerp(p0, o.P[0], t), lerp(o.P[0], o.P[1], t), lerp(o.P[1], o.P[2], t)
		d, e := lerp(a, b, t), lerp(b, c, t)
		return lerp(d, e, t)
	}
	return p0
}

// matchArc consumes the leading drawing operations that trace the elliptical
// arc s from start; however the arc is subdivided, its points must lie on the
// ellipse, turn in the right direction by the right angle and end at the end.
func matchArc(ops []Op, start Pt, s Seg) (int, error) {
	tol := 0.06 + 0.0006*math.Max(s.RX, s.RY) + 2e-9*(math.Abs(s.Ctr.X)+math.Abs(s.Ctr.Y))
	rmin := math.Min(s.RX, s.RY)
	angTol := math.Min(1.0, 4*fixTol/rmin+0.02)
	if math.Abs(s.Dth) < 0.2 {
		angTol = math.Min(1.0, 4*fixTol/rmin+0.005)
	}
	turned := 0.0
	cur := start
	prev := s.unit(start)
	for n, o := range ops {
		if o.K == 'M' || o.K == 'Z' {
			return 0, fmt.Errorf("arc ends early with %c after turning %.3f of %.3f rad", o.K, turned, s.Dth)
		}
		const steps = 8
		for k := 1; k <= steps; k++ {
			p := bez(cur, o, float64(k)/steps)
			u := s.unit(p)
			// distance to the ellipse, first order
			r := math.Hypot(u.X, u.Y)
			if d := math.Abs(r-1) * rmin; d > tol {
				return 0, fmt.Errorf("point %v of operation %d (%c) is %.3f px off the ellipse centre %v r %.3f,%.3f", p, n, o.K, d, s.Ctr, s.RX, s.RY)
			}
			turned += math.Atan2(prev.X*u.Y-prev.Y*u.X, prev.X*u.X+prev.Y*u.Y)
			prev = u
		}
		cur = o.P[len(o.P)-1]
		if math.Abs(turned) > math.Abs(s.Dth)+angTol {
			return 0, fmt.Errorf("arc turned %.4f rad, want %.4f", turned, s.Dth)
		}
		if math.Abs(turned-s.Dth) <= angTol && near(cur, s.end(), ptTol(s.end())) {
			return n + 1, nil
		}
		if (turned > 0) != (s.Dth > 0) && math.Abs(turned) > angTol {
			return 0, fmt.Errorf("arc turns the wrong way: %.3f rad of %.3f", turned, s.Dth)
		}
	}
	return 0, fmt.Errorf("arc missing: turned %.4f of %.4f rad", turned, s.Dth)
}

// ---- generation ----

// genPath draws path data starting with a moveto. arcs controls elliptical arcs.
func genPath(t *rapid.T, maxCmds int, arcs bool) []Cmd {
	n := size(t, 1, maxCmds, maxCmds*12, "ncmds")
	cmds := []Cmd{{K: oneOf(t, "m0", "M", "m"), A: genArgs(t, 'M', intnSets(t))}}
	letters := []string{"L", "l", "H", "h", "V", "v", "C", "c", "S", "s", "Q", "q", "T", "t", "Z", "z", "M", "m"}
	if arcs {
		letters = append(letters, "A", "a", "A", "a")
	}
	for i := 1; i < n; i++ {
		k := oneOf(t, "k", letters...)
		if up(k) == 'Z' {
			cmds = append(cmds, Cmd{K: k})
			continue
		}
		if up(k) == 'A' {
			at := Pt{math.NaN(), 0}
			if prev := cmds[len(cmds)-1]; prev.K == string(up(prev.K)) && up(prev.K) != 'Z' && up(prev.K) != 'H' && up(prev.K) != 'V' {
				at = Pt{prev.A[len(prev.A)-2], prev.A[len(prev.A)-1]}
			}
			cmds = append(cmds, genArcCmd(t, k, at))
			continue
		}
		cmds = append(cmds, Cmd{K: k, A: genArgs(t, up(k), intnSets(t))})
	}
	return cmds
}

func intnSets(t *rapid.T) int { return oneOf(t, "sets", 1, 1, 1, 1, 2, 3, 5) }

func genArgs(t *rapid.T, k byte, sets int) []float64 {
	var a []float64
	for i := 0; i < sets*argc[k]; i++ {
		a = append(a, coord(t, "v"))
	}
	return a
}

// genArcCmd draws an arc command; at is the current point where it is known to the digit.
func genArcCmd(t *rapid.T, k string, at Pt) Cmd {
	sets := oneOf(t, "arcsets", 1, 1, 1, 2, 3)
	c := Cmd{K: k}
	for i := 0; i < sets; i++ {
		rx := 2 + posDec(t, 150, "rx")
		ry := 2 + posDec(t, 150, "ry")
		switch intn(t, 0, 9, "rsize") {
		case 8: // too small for most chords: scaled up
			rx, ry = posDec(t, 3, "rx"), posDec(t, 3, "ry")
		case 9: // flat arcs of large ellipses
			most := oneOf(t, "huge", 1500, 1500, 30000)
			rx, ry = 100+posDec(t, most, "rx"), 100+posDec(t, most, "ry")
		}
		if chance(t, 1, 4, "circ") {
			ry = rx
		}
		// keep the aspect ratio moderate: extreme ratios only amplify the 1/64 grid
		if rx > 12*ry {
			rx = 12 * ry
		}
		if ry > 12*rx {
			ry = 12 * rx
		}
		if chance(t, 1, 12, "zeror") {
			if chance(t, 1, 2, "zeroboth") {
				ry = 0
			}
			rx = 0
		} else if chance(t, 1, 8, "negr") {
			neg := intn(t, 1, 3, "negwhich")
			if neg&1 != 0 {
				rx = -rx
			}
			if neg&2 != 0 {
				ry = -ry
			}
		}
		rot := oneOf(t, "rotk", 0.0, 0, 90, 45, -30, 1)
		if chance(t, 1, 2, "rotany") {
			rot = dec(t, -360, 360, "rot")
		}
		x, y := dec(t, -200, 300, "ax"), dec(t, -200, 300, "ay")
		if chance(t, 1, 12, "closed") { // an arc that ends where it starts draws nothing
			if k == "a" {
				x, y = 0, 0
			} else if i == 0 && !math.IsNaN(at.X) {
				x, y = at.X, at.Y
			} else if i > 0 {
				x, y = c.A[len(c.A)-2], c.A[len(c.A)-1]
			}
		}
		c.A = append(c.A, rx, ry, rot, float64(intn(t, 0, 1, "large")), float64(intn(t, 0, 1, "sweep")), x, y)
	}
	return c
}

// arcConditioned reports whether every arc of the path is well conditioned
// with respect to the 1/64 px grid the library stores points on.
func arcConditioned(segs []Seg) bool {
	var cur Pt
	for _, s := range segs {
		if s.K == 'A' {
			d := cur.dist(s.end())
			r := math.Min(s.RX, s.RY)
			if d < 0.5 || r < 1.5 || math.Max(s.RX, s.RY) > 13*r || math.Max(s.RX, s.RY) > 40000 {
				return false
			}
			if math.Abs(s.Dth) < 0.04 || math.Abs(s.Dth) < 0.15 && r < 50 {
				return false
			}
		}
		if len(s.P) > 0 {
			cur = s.end()
		}
	}
	return true
}

// ---- text ----

func isFlag(k byte, i int) bool { return k == 'A' && (i%7 == 3 || i%7 == 4) }

// pathText writes path data with the formatting chosen by n.
func pathText(cmds []Cmd, n *nz) string {
	var b strings.Builder
	ws := func(min bool) {
		switch n.pick(8) {
		case 1:
			b.WriteString(" ")
		case 2:
			b.WriteString("\n ")
		case 3:
			b.WriteString("\t")
		case 4:
			b.WriteString("  ")
		case 5:
			b.WriteString("\r\n")
		default:
			if min {
				b.WriteString(" ")
			}
		}
	}
	prevKey, prevNum := "", ""
	for ci, c := range cmds {
		k := up(c.K)
		// implicit repetition of the command letter
		implicit := ci > 0 && len(c.A) > 0 && len(cmds[ci-1].A) > 0 &&
			((c.K == prevKey && k != 'M') || (c.K == "L" && prevKey == "M") || (c.K == "l" && prevKey == "m")) && n.pick(3) == 1
		if !implicit {
			if ci > 0 && n.pick(3) == 0 {
				b.WriteByte(' ')
			}
			b.WriteString(c.K)
			ws(false)
		}
		prevKey = c.K
		for i, v := range c.A {
			var s string
			if isFlag(k, i) {
				s = fnum(v)
			} else {
				s = spell(v, n)
			}
			if i > 0 || implicit {
				b.WriteString(numSep(prevNum, s, i > 0 && isFlag(k, i-1), isFlag(k, i), n))
			}
			b.WriteString(s)
			prevNum = s
		}
	}
	ws(false)
	return b.String()
}

func numSep(prev, next string, afterFlag, flag bool, n *nz) string {
	if afterFlag {
		if n.pick(3) == 1 { // a flag is one digit, whatever follows
			return ""
		}
	} else if !flag {
		switch n.pick(4) {
		case 1: // no separator where the grammar allows it
			if next[0] == '-' || next[0] == '+' {
				return ""
			}
			if next[0] == '.' && strings.ContainsAny(prev, ".eE") {
				return ""
			}
		}
	}
	switch n.pick(7) {
	case 6:
		return "\r\n"
	case 1:
		return ","
	case 2:
		return ", "
	case 3:
		return " , "
	case 4:
		return "\n"
	case 5:
		return "   "
	}
	return " "
}
