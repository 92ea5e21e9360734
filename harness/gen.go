package main

import (
	"math"
	"math/bits"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---- formatting noise: every textual choice is drawn by rapid ----

// Noise is a list of formatting choices; the empty list means canonical text.
type Noise []byte

type nz struct {
	b []byte
	i int
}

func (n Noise) reader() *nz { return &nz{b: n} }

// pick returns a choice in [0,k); 0 is the canonical one.
func (n *nz) pick(k int) int {
	if n == nil || len(n.b) == 0 || k <= 1 {
		return 0
	}
	v := int(n.b[n.i%len(n.b)]) + n.i/len(n.b)*7
	n.i++
	return v % k
}

func genNoise(t *rapid.T, maxLen int) Noise {
	if rapid.IntRange(0, 3).Draw(t, "noisy") == 0 {
		return nil
	}
	return Noise(rapid.SliceOfN(rapid.Byte(), 0, maxLen).Draw(t, "noise"))
}

// ---- small helpers over rapid ----

func chance(t *rapid.T, num, den int, label string) bool {
	// shrinks to false
	return rapid.IntRange(0, den-1).Draw(t, label) >= den-num
}

func oneOf[T any](t *rapid.T, label string, xs ...T) T {
	return rapid.SampledFrom(xs).Draw(t, label)
}

// intn draws an integer. rapid prefers numbers near zero: half of the draws from
// a wide range are therefore put together from digits, which spreads them out.
func intn(t *rapid.T, lo, hi int, label string) int {
	if n := hi - lo; n > 31 && rapid.Bool().Draw(t, label+".spread") {
		v := 0
		for b := bits.Len(uint(n)); b > 0; b -= 4 {
			v = v<<4 | rapid.IntRange(0, 15).Draw(t, label)
		}
		return lo + v%(n+1)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

var pow10 = [...]float64{1, 10, 100, 1000, 10000}

// dec draws a decimal number with at most three fractional digits in [lo,hi].
func dec(t *rapid.T, lo, hi int, label string) float64 {
	k := oneOf(t, label+".scale", 0, 0, 0, 1, 2, 3)
	p := pow10[k]
	return float64(intn(t, lo*int(p), hi*int(p), label)) / p
}

// coord draws a coordinate, mostly small, sometimes large or on a boundary.
func coord(t *rapid.T, label string) float64 {
	switch rapid.IntRange(0, 19).Draw(t, label+".kind") {
	case 18:
		return dec(t, -20000, 20000, label)
	case 19:
		return oneOf(t, label, 0.0, -0.5, 0.5, 1.0/64*4, -1, 100, 1000, 0.001, -0.001)
	default:
		return dec(t, -200, 300, label)
	}
}

func posDec(t *rapid.T, hi int, label string) float64 {
	k := oneOf(t, label+".scale", 0, 0, 1, 2)
	p := pow10[k]
	return float64(intn(t, 1, hi*int(p), label)) / p
}

// size draws a list length that is usually small and occasionally large.
func size(t *rapid.T, lo, usual, big int, label string) int {
	if chance(t, 1, 25, label+".big") {
		return rapid.IntRange(lo, big).Draw(t, label)
	}
	return rapid.IntRange(lo, usual).Draw(t, label)
}

// ---- number spelling ----

func fnum(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) }

// spell writes v in one of several equivalent SVG number syntaxes.
func spell(v float64, n *nz) string {
	base := fnum(v)
	neg := strings.HasPrefix(base, "-")
	abs := strings.TrimPrefix(base, "-")
	sign := ""
	if neg {
		sign = "-"
	}
	switch n.pick(12) {
	case 1: // trailing zeros
		if strings.Contains(abs, ".") {
			return sign + abs + "00"
		}
		return sign + abs + ".0"
	case 2:
		return sign + expForm(abs, "e", "")
	case 3:
		return sign + expForm(abs, "E", "")
	case 4:
		return sign + expForm(abs, "e", "+")
	case 5:
		return sign + expForm(abs, "E", "+")
	case 6: // no leading zero
		if strings.HasPrefix(abs, "0.") {
			return sign + abs[1:]
		}
	case 7:
		if !neg {
			return "+" + abs
		}
	case 8: // leading zeros
		return sign + "0" + abs
	case 9: // negative exponent, integral mantissa
		if i := strings.IndexByte(abs, '.'); i >= 0 {
			return sign + strings.TrimLeft(abs[:i]+abs[i+1:], "0") + "e-" + strconv.Itoa(len(abs)-i-1)
		}
		return sign + abs + "0e-1"
	case 10:
		if i := strings.IndexByte(abs, '.'); i >= 0 {
			return sign + strings.TrimLeft(abs[:i]+abs[i+1:], "0") + "E-" + strconv.Itoa(len(abs)-i-1)
		}
	}
	return sign + abs
}

func expForm(abs, e, plus string) string {
	f, _ := strconv.ParseFloat(abs, 64)
	s := strconv.FormatFloat(f, 'e', -1, 64)
	i := strings.IndexByte(s, 'e')
	mant, ex := s[:i], s[i+1:]
	k, _ := strconv.Atoi(ex)
	if k < 0 {
		return mant + e + strconv.Itoa(k)
	}
	return mant + e + plus + strconv.Itoa(k)
}

// ---- lengths ----

type Len struct {
	V float64
	U string
}

var unitPx = map[string]float64{"": 1, "px": 1, "cm": 96 / 2.54, "mm": 96 / 25.4, "pt": 96.0 / 72, "in": 96, "Q": 96 / 101.6, "pc": 16}

// Px resolves the length in user units against the percentage reference.
func (l Len) Px(ref float64) float64 {
	if l.U == "%" {
		return l.V / 100 * ref
	}
	return l.V * unitPx[l.U]
}

func (l Len) text(n *nz) string {
	s := spell(l.V, n)
	if l.U != "" {
		switch n.pick(8) {
		case 2:
			s = " " + s + l.U
		case 3:
			s = s + l.U + " "
		default:
			s += l.U
		}
	}
	return s
}

func px(v float64) Len { return Len{V: v} }

func genLen(t *rapid.T, lo, hi int, units bool, label string) Len {
	if !units || chance(t, 2, 5, label+".plain") {
		return Len{V: dec(t, lo, hi, label)}
	}
	pos := lo > 0
	u := oneOf(t, label+".unit", "", "px", "cm", "mm", "pt", "in", "Q", "pc", "%")
	switch u {
	case "cm", "in", "pc":
		lo, hi = max(lo/20, -20), min(max(hi/20, 1), 20)
	case "%":
		lo, hi = max(lo, -150), min(hi, 200)
	}
	if pos {
		lo, hi = max(lo, 1), max(hi, 1)
	}
	v := dec(t, lo, hi, label)
	return Len{V: v, U: u}
}

func diag(w, h float64) float64 { return math.Sqrt((w*w + h*h) / 2) }

// ---- matrices (reference implementation, column-vector convention) ----

// Mat maps (x,y) to (A x + C y + E, B x + D y + F).
type Mat struct{ A, B, C, D, E, F float64 }

var idMat = Mat{A: 1, D: 1}

// then returns the matrix applying b first and a second (a*b).
func (a Mat) mul(b Mat) Mat {
	return Mat{
		A: a.A*b.A + a.C*b.B, B: a.B*b.A + a.D*b.B,
		C: a.A*b.C + a.C*b.D, D: a.B*b.C + a.D*b.D,
		E: a.A*b.E + a.C*b.F + a.E, F: a.B*b.E + a.D*b.F + a.F,
	}
}

func (a Mat) apply(x, y float64) (float64, float64) {
	return a.A*x + a.C*y + a.E, a.B*x + a.D*y + a.F
}
func (a Mat) pt(p Pt) Pt   { x, y := a.apply(p.X, p.Y); return Pt{x, y} }
func (a Mat) det() float64 { return a.A*a.D - a.B*a.C }
func (a Mat) norm() float64 {
	return math.Max(math.Hypot(a.A, a.B), math.Hypot(a.C, a.D))
}

type Pt struct{ X, Y float64 }

func (p Pt) sub(q Pt) Pt         { return Pt{p.X - q.X, p.Y - q.Y} }
func (p Pt) add(q Pt) Pt         { return Pt{p.X + q.X, p.Y + q.Y} }
func (p Pt) mul(k float64) Pt    { return Pt{p.X * k, p.Y * k} }
func (p Pt) dist(q Pt) float64   { return math.Hypot(p.X-q.X, p.Y-q.Y) }
func (p Pt) cross(q Pt) float64  { return p.X*q.Y - p.Y*q.X }
func (p Pt) dot(q Pt) float64    { return p.X*q.X + p.Y*q.Y }
func lerp(a, b Pt, k float64) Pt { return Pt{a.X + (b.X-a.X)*k, a.Y + (b.Y-a.Y)*k} }

// ---- transform lists ----

type Xf struct {
	F string
	A []float64
}

func (x Xf) mat() Mat {
	a := x.A
	rad := func(d float64) float64 { return d * math.Pi / 180 }
	switch x.F {
	case "translate":
		m := idMat
		m.E = a[0]
		if len(a) > 1 {
			m.F = a[1]
		}
		return m
	case "scale":
		if len(a) == 1 {
			return Mat{A: a[0], D: a[0]}
		}
		return Mat{A: a[0], D: a[1]}
	case "rotate":
		s, c := math.Sincos(rad(a[0]))
		r := Mat{A: c, B: s, C: -s, D: c}
		if len(a) == 3 {
			return Mat{A: 1, D: 1, E: a[1], F: a[2]}.mul(r).mul(Mat{A: 1, D: 1, E: -a[1], F: -a[2]})
		}
		return r
	case "skewX":
		return Mat{A: 1, D: 1, C: math.Tan(rad(a[0]))}
	case "skewY":
		return Mat{A: 1, D: 1, B: math.Tan(rad(a[0]))}
	case "matrix":
		return Mat{a[0], a[1], a[2], a[3], a[4], a[5]}
	}
	panic("bad transform")
}

func xfMat(xs []Xf) Mat {
	m := idMat
	for _, x := range xs {
		m = m.mul(x.mat())
	}
	return m
}

func sepArgs(n *nz) string {
	switch n.pick(9) {
	case 7:
		return "\n"
	case 8:
		return "\r\n"
	case 1:
		return " "
	case 2:
		return ", "
	case 3:
		return " ,"
	case 4:
		return "  "
	case 5:
		return " , "
	case 6:
		return "\t"
	}
	return ","
}

func xfText(xs []Xf, n *nz) string {
	var b strings.Builder
	for i, x := range xs {
		if i > 0 {
			switch n.pick(8) {
			case 6:
				b.WriteString("\n\t")
			case 7:
				b.WriteString("\r\n")
			case 1:
				b.WriteString("  ")
			case 2:
				b.WriteString(", ")
			case 3:
				b.WriteString(",")
			case 4:
				b.WriteString("\n")
			case 5:
				b.WriteString("")
			default:
				b.WriteString(" ")
			}
		}
		b.WriteString(x.F)
		switch n.pick(8) {
		case 1:
			b.WriteString(" ")
		case 2:
			b.WriteString("\t")
		case 3:
			b.WriteString("\n")
		}
		b.WriteString("(")
		if n.pick(5) == 1 {
			b.WriteString(" ")
		}
		for j, v := range x.A {
			if j > 0 {
				b.WriteString(sepArgs(n))
			}
			b.WriteString(spell(v, n))
		}
		if n.pick(5) == 1 {
			b.WriteString(" ")
		}
		b.WriteString(")")
	}
	return b.String()
}

// genXf draws one transform function; gentle keeps it invertible and moderate.
func genXf(t *rapid.T, gentle bool) Xf {
	f := oneOf(t, "xf", "translate", "scale", "rotate", "skewX", "skewY", "matrix")
	nonzero := func(label string) float64 {
		v := float64(rapid.IntRange(1, 40).Draw(t, label)) / 10
		if chance(t, 1, 4, label+".neg") {
			v = -v
		}
		return v
	}
	angle := func(label string) float64 {
		if chance(t, 1, 3, label+".right") {
			return oneOf(t, label, 90.0, 180, 270, -90, 45, 30, 360, 0, 720)
		}
		if chance(t, 1, 12, label+".turns") {
			return dec(t, -20000, 20000, label)
		}
		return dec(t, -400, 400, label)
	}
	switch f {
	case "translate":
		if chance(t, 1, 3, "xf1") {
			return Xf{f, []float64{dec(t, -100, 100, "tx")}}
		}
		return Xf{f, []float64{dec(t, -100, 100, "tx"), dec(t, -100, 100, "ty")}}
	case "scale":
		if chance(t, 1, 3, "xf1") {
			return Xf{f, []float64{nonzero("s")}}
		}
		return Xf{f, []float64{nonzero("sx"), nonzero("sy")}}
	case "rotate":
		if chance(t, 1, 2, "xf3") {
			return Xf{f, []float64{angle("a"), dec(t, -100, 100, "cx"), dec(t, -100, 100, "cy")}}
		}
		return Xf{f, []float64{angle("a")}}
	case "skewX", "skewY":
		if chance(t, 1, 5, "overskew") { // past a right angle
			return Xf{f, []float64{float64(rapid.IntRange(-60, 60).Draw(t, "skew") + oneOf(t, "half", 180, -180, 360))}}
		}
		return Xf{f, []float64{float64(rapid.IntRange(-60, 60).Draw(t, "skew"))}}
	default:
		if gentle {
			return Xf{f, []float64{nonzero("a"), float64(rapid.IntRange(-5, 5).Draw(t, "b")) / 20, float64(rapid.IntRange(-5, 5).Draw(t, "c")) / 20, nonzero("d"), dec(t, -50, 50, "e"), dec(t, -50, 50, "f")}}
		}
		return Xf{f, []float64{dec(t, -4, 4, "a"), dec(t, -4, 4, "b"), dec(t, -4, 4, "c"), dec(t, -4, 4, "d"), dec(t, -100, 100, "e"), dec(t, -100, 100, "f")}}
	}
}

// genXfList draws a transform list, now and then a long one.
func genXfList(t *rapid.T, maxN int) []Xf {
	if !chance(t, 1, 20, "long list") {
		return genXfs(t, maxN)
	}
	xs := make([]Xf, intn(t, 4, 16, "nxf"))
	for i := range xs {
		switch f := oneOf(t, "xf", "translate", "rotate", "scale", "skewX", "matrix"); f {
		case "translate":
			xs[i] = Xf{f, []float64{dec(t, -20, 20, "tx"), dec(t, -20, 20, "ty")}}
		case "rotate":
			xs[i] = Xf{f, []float64{dec(t, -360, 360, "a")}}
		case "scale":
			xs[i] = Xf{f, []float64{oneOf(t, "sx", 0.5, 2, -1, 0.8, 1.25), oneOf(t, "sy", 0.5, 2, -1, 0.8, 1.25)}}
		case "skewX":
			xs[i] = Xf{f, []float64{dec(t, -20, 20, "a")}}
		default:
			xs[i] = Xf{f, []float64{oneOf(t, "a", 1, 0.9), 0.1, oneOf(t, "c", 0, -0.2), 1, dec(t, -5, 5, "e"), 3}}
		}
	}
	return xs
}

func genXfs(t *rapid.T, maxN int) []Xf {
	n := rapid.IntRange(1, maxN).Draw(t, "nxf")
	xs := make([]Xf, n)
	for i := range xs {
		xs[i] = genXf(t, false)
	}
	return xs
}
