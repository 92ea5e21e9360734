package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"

	svg "github.com/lafriks/go-svg"
	"pgregory.net/rapid"
)

// ---- C01: Parse is total ----

// BytesCase is an arbitrary input.
type BytesCase struct {
	B    []byte
	Kind string
}

var attrPool = []string{"d", "points", "x", "y", "x1", "y1", "x2", "y2", "cx", "cy", "r", "rx", "ry", "fx", "fy", "fr",
	"width", "height", "viewBox", "transform", "style", "fill", "stroke", "stroke-width", "stroke-linecap", "stroke-linejoin",
	"stroke-miterlimit", "stroke-dasharray", "stroke-dashoffset", "stroke-opacity", "fill-opacity", "fill-rule", "opacity",
	"id", "href", "xlink:href", "mask", "offset", "stop-color", "stop-opacity", "gradientTransform", "gradientUnits",
	"spreadMethod", "class", "xmlns", "stroke-leadlinecap", "stroke-linegap", "maskUnits", "stroke-linegap", "data-x"}

var tagPool = []string{"svg", "g", "path", "rect", "circle", "ellipse", "line", "polyline", "polygon", "defs", "use", "mask",
	"linearGradient", "radialGradient", "stop", "title", "desc", "style", "text", "symbol", "clipPath", "unknown", "image"}

var valuePool = []string{"", " ", "0", "-0", "1", "10", "-5", "1e3", "1e400", "-1e400", "1e-400", "NaN", "Inf", "-inf", "+", "-", ".", "e", "1e", "0x10",
	"1_000", "١٢", "99999999999999999999", "2147483648", "33554432", "-33554433", "10%", "%", "150%", "1em", "5px", "3cm", "px", "5 px", "5qq",
	"none", "inherit", "currentColor", "red", "#", "#f", "#ff", "#fff", "#ffff", "#fffff", "#ffffff", "#fffffff", "#ffffffff", "#ggg", "#é",
	"rgb(1,2,3)", "rgb(1,2)", "rgb(", "rgb()", "rgb(1%,2%,3%)", "rgb(1,2%,x)", "rgb", "rgba(1,2,3,.5)", "hsl(0,0%,0%)", "rgb(1e400,0,0)", "RGB(1 2 3)",
	"url(#a)", "url(#b)", "url(#)", "url()", "url(", "url(#a", "url(a)", "url('#a')", "url(\"#a\")", "#a", "#b", "a", "b",
	"M0 0", "M0,0L", "M", "m", "Z", "z", "MZ", "M0 0Z Z", "L1 1", "C1 2 3 4 5 6", "M0 0C1 2 3", "M0 0A", "M0 0a1 1 0 1 1 5 5", "M0 0A0 0 0 0 0 0 0", "M0 0A1 1 0 2 3 4 5",
	"M1e9 1e9L-1e9-1e9", "M0 0H", "M0 0V5 6 7", "M0 0T1 1", "M0 0S1 1 2 2", "M0 0Q1 1", "M0 0X", "M0 0 0 0 0", "M 0 0 é", "M0 0M", "MM", "M0 0a1e300 1e300 0 0 0 1e300 1",
	"0 0 10 10", "0,0,10,10", "0 0 0 0", "0 0 -1 -1", "0 0 1", "0 0 1 1 1", "a b c d", "10 20 30", "1,2,3,", ",", ",,", "1,,2",
	"translate(1)", "translate(1,2)", "translate(", "translate()", "translate(1,2,3)", "scale(2)", "scale(0)", "rotate(45)", "rotate(45,1)", "rotate(45 1 2)",
	"skewX(90)", "skewY(a)", "matrix(1 0 0 1 0 0)", "matrix(1)", "matrix(a b c d e f)", "foo(1)", ")(", "translate(1)scale(2)", "translate(1) foo", "scale(1e308) scale(1e308)", "rotate",
	"fill:red", "fill", ":", ";", ";;:", "fill:", ":red", "fill:red;;stroke:blue", "opacity:2", "style:fill:red", "stroke-width:-1", "fill:url(#a);mask:url(#b)",
	"nonzero", "evenodd", "butt", "round", "square", "miter", "bevel", "arc", "arc-clip", "miter-clip", "cubic", "quadratic", "flat",
	"5,5", "5 5", "0", "0,0", "-1,2", "5,", "pad", "reflect", "repeat", "userSpaceOnUse", "objectBoundingBox", "a\u00a0b", "\x7f", "日本"}

// soup writes random markup from the vocabulary of the parser.
func genSoup(t *rapid.T) BytesCase {
	var sb strings.Builder
	var stack []string
	if chance(t, 7, 8, "root") {
		sb.WriteString(`<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"`)
		if chance(t, 1, 2, "vb") {
			sb.WriteString(` viewBox="0 0 100 100"`)
		}
		sb.WriteString(">")
		stack = append(stack, "svg")
	}
	n := size(t, 1, 12, 40, "items")
	for i := 0; i < n; i++ {
		switch intn(t, 0, 15, "item") {
		case 0:
			sb.WriteString(oneOf(t, "junk", "text", "<!-- c -->", "<![CDATA[ < ]]>", "<?pi x?>", "<!DOCTYPE svg>", "&amp;", "&#65;", "&nope;", "<", ">", "]]>", "\x00", "<!ENTITY a 'b'>"))
		case 1, 2, 3, 4:
			if len(stack) > 0 {
				tag := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if chance(t, 1, 20, "wrong") {
					tag = oneOf(t, "tag", tagPool...)
				}
				sb.WriteString("</" + tag + ">")
			}
		default:
			tag := oneOf(t, "tag", tagPool...)
			sb.WriteString("<" + tag)
			for k := intn(t, 0, 4, "attrs"); k > 0; k-- {
				v := oneOf(t, "value", valuePool...)
				if chance(t, 1, 3, "compose") {
					v += oneOf(t, "glue", "", " ", ",", ";", ":", "(", ")") + oneOf(t, "value2", valuePool...)
				}
				sb.WriteString(" " + oneOf(t, "attr", attrPool...) + `="` + escAttr(v, '"') + `"`)
			}
			if chance(t, 1, 3, "empty") {
				sb.WriteString("/>")
			} else {
				sb.WriteString(">")
				stack = append(stack, tag)
			}
		}
	}
	if chance(t, 9, 10, "close") {
		for i := len(stack) - 1; i >= 0; i-- {
			sb.WriteString("</" + stack[i] + ">")
		}
	}
	return BytesCase{B: []byte(sb.String()), Kind: "soup"}
}

// aimed sets one attribute of a valid element to a random value.
var aimed = []struct{ tag, pre, post string }{
	{"path", "<svg viewBox=\"0 0 10 10\"><path %s/>", "</svg>"},
	{"rect", "<svg viewBox=\"0 0 10 10\"><rect width=\"5\" height=\"4\" %s/>", "</svg>"},
	{"circle", "<svg viewBox=\"0 0 10 10\"><circle r=\"3\" %s/>", "</svg>"},
	{"ellipse", "<svg viewBox=\"0 0 10 10\"><ellipse rx=\"3\" ry=\"2\" %s/>", "</svg>"},
	{"line", "<svg viewBox=\"0 0 10 10\"><line x2=\"3\" y2=\"2\" stroke=\"red\" %s/>", "</svg>"},
	{"polygon", "<svg viewBox=\"0 0 10 10\"><polygon %s/>", "</svg>"},
	{"polyline", "<svg><polyline %s/>", "</svg>"},
	{"g", "<svg><g %s><path d=\"M0 0L1 1 2 0z\"/></g>", "</svg>"},
	{"svg", "<svg %s><rect width=\"10%%\" height=\"5\"/>", "</svg>"},
	{"linearGradient", "<svg><defs><linearGradient id=\"a\" %s><stop offset=\"0\"/><stop offset=\"1\"/></linearGradient></defs><rect fill=\"url(#a)\" width=\"5\" height=\"5\"/>", "</svg>"},
	{"radialGradient", "<svg><radialGradient id=\"a\" %s><stop offset=\"0\"/></radialGradient><rect fill=\"url(#a)\" width=\"5\" height=\"5\"/>", "</svg>"},
	{"stop", "<svg><linearGradient id=\"a\"><stop %s/></linearGradient><rect stroke=\"url(#a)\" width=\"5\" height=\"5\"/>", "</svg>"},
	{"use", "<svg><defs><g id=\"a\"><path d=\"M0 0L1 1\"/></g><rect id=\"b\" width=\"4\" height=\"4\"/></defs><use %s/>", "</svg>"},
	{"defs", "<svg><defs><rect id=\"a\" %s/><g id=\"b\"><circle r=\"1\"/><use href=\"#a\"/></g></defs><use href=\"#b\"/>", "</svg>"},
	{"mask", "<svg><mask %s><rect width=\"5\" height=\"5\" fill=\"white\"/></mask><rect mask=\"url(#a)\" width=\"5\" height=\"5\"/>", "</svg>"},
	{"title", "<svg><title %s>t</title><desc>d</desc>", "</svg>"},
}

func genAimed(t *rapid.T) BytesCase {
	a := aimed[intn(t, 0, len(aimed)-1, "element")]
	seen := map[string]bool{}
	var attrs []string
	for k := intn(t, 1, 3, "attrs"); k > 0; k-- {
		name := oneOf(t, "attr", attrPool...)
		if chance(t, 1, 3, "main") {
			switch a.tag {
			case "path":
				name = "d"
			case "polygon", "polyline":
				name = "points"
			case "use":
				name = "href"
			}
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		var v string
		switch intn(t, 0, 3, "value.kind") {
		case 0:
			v = oneOf(t, "value", valuePool...)
		case 1:
			v = strings.Join(rapid.SliceOfN(rapid.SampledFrom(valuePool), 1, 5).Draw(t, "values"), oneOf(t, "glue", "", " ", ",", ";"))
		case 2: // an alphabet that is nearly always close to valid
			v = rapid.StringOfN(rapid.SampledFrom([]rune("0123456789 ,.-+eEMmLlHhVvCcSsQqTtAaZz%()#:;abcdefxyz\t\n")), 0, 40, -1).Draw(t, "text")
		default:
			v = rapid.StringN(0, 12, -1).Draw(t, "any")
		}
		v = strings.Map(func(r rune) rune {
			if r < 0x20 && r != '\t' && r != '\n' || r == 0xfffe || r == 0xffff {
				return '?'
			}
			return r
		}, v)
		attrs = append(attrs, name+`="`+escAttr(v, '"')+`"`)
	}
	return BytesCase{B: []byte(fmt.Sprintf(a.pre, strings.Join(attrs, " ")) + a.post), Kind: a.tag}
}

// spread draws an index in [0,n) without rapid's preference for small values.
func spread(t *rapid.T, n int, label string) int {
	return int(uint64(intn(t, 0, 1<<24, label)) * 2654435761 % uint64(n))
}

// mutate applies byte-level edits.
func mutate(t *rapid.T, b []byte, other []byte) []byte {
	b = append([]byte(nil), b...)
	for k := intn(t, 1, 6, "edits"); k > 0; k-- {
		if len(b) == 0 {
			break
		}
		at := spread(t, len(b), "at")
		switch intn(t, 0, 7, "edit") {
		case 0: // delete a range
			n := min(intn(t, 1, 20, "n"), len(b)-at)
			b = append(b[:at], b[at+n:]...)
		case 1:
			b[at] = byte(intn(t, 0, 255, "byte"))
		case 2:
			b[at] = oneOf(t, "char", []byte("<>\"'/=#%().,;:-+eE0123456789MLCZ \n")...)
		case 3: // duplicate a range
			n := min(intn(t, 1, 60, "n"), len(b)-at)
			b = append(b[:at+n], append(append([]byte(nil), b[at:at+n]...), b[at+n:]...)...)
		case 4: // insert a value
			b = append(b[:at], append([]byte(oneOf(t, "value", valuePool...)), b[at:]...)...)
		case 5: // replace an attribute value
			i := strings.IndexByte(string(b[at:]), '"')
			if i < 0 {
				continue
			}
			j := strings.IndexByte(string(b[at+i+1:]), '"')
			if j < 0 {
				continue
			}
			b = append(b[:at+i+1], append([]byte(escAttr(oneOf(t, "value", valuePool...), '"')), b[at+i+1+j:]...)...)
		case 6: // truncate
			if chance(t, 1, 4, "cut") {
				b = b[:at]
			}
		case 7: // splice
			if len(other) > 0 {
				o := spread(t, len(other), "from")
				n := min(intn(t, 1, 200, "n"), len(other)-o)
				b = append(b[:at], append(append([]byte(nil), other[o:o+n]...), b[at:]...)...)
			}
		}
	}
	return b
}

func genMutated(t *rapid.T) BytesCase {
	d := genDoc(t, fullOpt)
	return BytesCase{B: mutate(t, []byte(d.text()), nil), Kind: "mutated"}
}

var corpusFiles [][]byte

func corpus() [][]byte {
	if corpusFiles == nil {
		corpusFiles = [][]byte{[]byte(`<svg viewBox="0 0 10 10"><rect width="5" height="5"/></svg>`)}
		var names []string
		_ = filepath.WalkDir("/repo/testdata", func(p string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() && strings.HasSuffix(p, ".svg") {
				names = append(names, p)
			}
			return nil
		})
		sort.Strings(names)
		for _, n := range names {
			if b, err := os.ReadFile(n); err == nil && len(b) < 60000 {
				corpusFiles = append(corpusFiles, b)
			}
		}
	}
	return corpusFiles
}

func genCorpus(t *rapid.T) BytesCase {
	fs := corpus()
	a := fs[intn(t, 0, len(fs)-1, "file")]
	b := fs[intn(t, 0, len(fs)-1, "other")]
	return BytesCase{B: mutate(t, a, b), Kind: "corpus"}
}

func genRaw(t *rapid.T) BytesCase {
	b := rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")
	if chance(t, 1, 2, "prefix") {
		b = append([]byte(oneOf(t, "pre", "<svg>", "<", "<?xml version=\"1.0\" encoding=\"", "\xef\xbb\xbf<svg/>", "\xff\xfe<\x00", "<svg ", "<!DOCTYPE")), b...)
	}
	return BytesCase{B: b, Kind: "raw"}
}

// BigCase is a large regular input.
type BigCase struct {
	Shape string
	N     int
}

func genBig(t *rapid.T) BigCase {
	c := BigCase{Shape: oneOf(t, "shape", "nest-g", "nest-unknown", "nest-svg", "flat", "long-path", "long-arcs", "long-points", "long-dash", "long-style", "many-attrs",
		"many-defs", "chain-use", "many-stops", "nest-masked", "long-transform", "long-title", "nest-defs", "many-masks", "long-subpaths",
		"nest-ids", "nest-mask", "nest-decls", "many-uses", "nest-title", "long-flags", "many-grads", "long-number", "long-colour", "grad-users",
		"split-title", "split-desc", "many-titles", "many-comments"),
		N: intn(t, 1, 3000, "n")}
	if !strings.HasPrefix(c.Shape, "nest-") && c.Shape != "long-number" && chance(t, 1, 40, "huge") {
		c.N = 5000 + spread(t, 15000, "huge n")
	}
	return c
}

func (c BigCase) text() string {
	var sb strings.Builder
	rep := func(s string) { sb.WriteString(strings.Repeat(s, c.N)) }
	sb.WriteString(`<svg viewBox="0 0 100 100">`)
	switch c.Shape {
	case "nest-g":
		rep(`<g fill="red" opacity=".99">`)
		sb.WriteString(`<rect width="4" height="3"/>`)
		rep(`</g>`)
	case "nest-unknown":
		rep(`<foo>`)
		sb.WriteString(`<rect width="4" height="3"/>`)
		rep(`</foo>`)
	case "nest-svg":
		rep(`<svg viewBox="0 0 5 5">`)
		sb.WriteString(`<rect width="4" height="3"/>`)
		rep(`</svg>`)
	case "nest-defs":
		sb.WriteString(`<defs>`)
		rep(`<g id="a">`)
		rep(`</g>`)
		sb.WriteString(`</defs><use href="#a"/>`)
	case "nest-ids":
		sb.WriteString(`<defs>`)
		for i := 0; i < c.N; i++ {
			fmt.Fprintf(&sb, `<g id="a%d" fill="red"><rect width="4" height="3"/>`, i)
		}
		rep(`</g>`)
		sb.WriteString(`</defs><use href="#a0"/>`)
	case "nest-mask":
		for i := 0; i < c.N; i++ {
			fmt.Fprintf(&sb, `<mask id="a%d"><rect width="4" height="3"/>`, i)
		}
		rep(`</mask>`)
	case "nest-decls":
		rep(`<g style="fill:red;stroke:blue;stroke-dasharray:1,2;stroke-width:4" transform="rotate(3)">`)
		sb.WriteString(`<rect width="4" height="3"/>`)
		rep(`</g>`)
	case "nest-title":
		rep(`<desc><title>`)
		rep(`</title></desc>`)
	case "many-uses":
		sb.WriteString(`<defs><g id="a"><rect width="4" height="4"/><circle r="2"/></g></defs>`)
		rep(`<use href="#a" x="1" fill="red"/>`)
	case "many-grads":
		for i := 0; i < c.N; i++ {
			fmt.Fprintf(&sb, `<linearGradient id="a%d"><stop offset="0"/></linearGradient><rect width="4" height="4" fill="url(#a%d)"/>`, i, i)
		}
	case "grad-users":
		sb.WriteString(`<linearGradient id="a"><stop offset="0"/><stop offset="1"/></linearGradient>`)
		rep(`<rect width="4" height="4" fill="url(#a)"/>`)
	case "long-flags":
		sb.WriteString(`<path d="M0 0A`)
		rep(`5 3 1 104 2 5 3 1 0012 2 `)
		sb.WriteString(`"/>`)
	case "long-number":
		sb.WriteString(`<rect width="4" height="1`)
		rep(`0`)
		sb.WriteString(`e-`)
		sb.WriteString(fmt.Sprint(c.N))
		sb.WriteString(`"/>`)
	case "long-colour":
		sb.WriteString(`<rect width="4" height="1" fill="rgb(`)
		rep(` `)
		sb.WriteString(`1,2,3)"/>`)
	case "nest-masked":
		rep(`<g mask="url(#m)">`)
		sb.WriteString(`<rect width="4" height="3"/>`)
		rep(`</g>`)
	case "flat":
		rep(`<rect width="4" height="3" rx="1"/><circle r="4"/>`)
	case "long-path":
		sb.WriteString(`<path d="M0 0`)
		rep(`l1 2c1 2 3 4 5 6`)
		sb.WriteString(`"/>`)
	case "long-subpaths":
		sb.WriteString(`<path d="`)
		rep(`M0 0L3 4Zm1 1h3z`)
		sb.WriteString(`"/>`)
	case "long-arcs":
		sb.WriteString(`<path d="M0 0`)
		rep(`a50 30 10 1 0 4 2`)
		sb.WriteString(`"/>`)
	case "long-points":
		sb.WriteString(`<polygon points="`)
		rep(`1 2,3 4 `)
		sb.WriteString(`"/>`)
	case "long-dash":
		sb.WriteString(`<line x2="5" stroke="red" stroke-dasharray="`)
		rep(`1,2,`)
		sb.WriteString(`3"/>`)
	case "long-style":
		sb.WriteString(`<rect width="5" height="4" style="`)
		rep(`fill:red;stroke : blue;`)
		sb.WriteString(`"/>`)
	case "many-attrs":
		sb.WriteString(`<rect width="5" height="4"`)
		for i := 0; i < c.N; i++ {
			fmt.Fprintf(&sb, ` a%d="1"`, i)
		}
		sb.WriteString(`/>`)
	case "many-defs":
		sb.WriteString(`<defs>`)
		for i := 0; i < c.N; i++ {
			fmt.Fprintf(&sb, `<rect id="a%d" width="4" height="4"/>`, i)
		}
		sb.WriteString(`</defs><use href="#a0"/>`)
	case "chain-use":
		sb.WriteString(`<defs><rect id="a0" width="4" height="4"/>`)
		for i := 1; i < c.N; i++ {
			fmt.Fprintf(&sb, `<g id="a%d"><use href="#a%d"/></g>`, i, i-1)
		}
		fmt.Fprintf(&sb, `</defs><use href="#a%d"/>`, c.N-1)
	case "many-stops":
		sb.WriteString(`<linearGradient id="a">`)
		rep(`<stop offset="50%" stop-color="red"/>`)
		sb.WriteString(`</linearGradient><rect width="4" height="4" fill="url(#a)"/>`)
	case "many-masks":
		for i := 0; i < c.N; i++ {
			fmt.Fprintf(&sb, `<mask id="a%d" x="0" y="0" width="4" height="4"><rect width="4" height="4" mask="url(#a%d)"/></mask>`, i, i+1)
		}
	case "long-transform":
		sb.WriteString(`<rect width="5" height="4" transform="`)
		rep(`translate(1,1) rotate(5) `)
		sb.WriteString(`"/>`)
	case "split-title":
		sb.WriteString(`<title>`)
		rep(`ab<!-- c --><![CDATA[d]]>`)
		sb.WriteString(`</title>`)
	case "split-desc":
		sb.WriteString(`<desc>`)
		rep(`ab<!-- c --><?d e?>`)
		sb.WriteString(`</desc>`)
	case "many-titles":
		rep(`<title>a</title><desc>b</desc>`)
	case "many-comments":
		rep(`<!-- a --> `)
	case "long-title":
		sb.WriteString(`<title>`)
		rep(`a<b>c</b>&amp;`)
		sb.WriteString(`</title>`)
	}
	sb.WriteString(`</svg>`)
	return sb.String()
}

// wellFormed checks what every caller of Parse relies on.
func wellFormed(s *svg.Svg) error {
	if s == nil {
		return fmt.Errorf("no image and no error")
	}
	if err := pathsWellFormed("image", s.SvgPaths); err != nil {
		return err
	}
	for id, m := range s.SvgMasks {
		if m == nil {
			return fmt.Errorf("mask %q is nil", id)
		}
		if m.ID != id {
			return fmt.Errorf("mask %q is registered as %q", m.ID, id)
		}
		if err := pathsWellFormed("mask "+id, m.SvgPaths); err != nil {
			return err
		}
	}
	return nil
}

func pathsWellFormed(what string, ps []svg.SvgPath) error {
	for i, p := range ps {
		if len(p.Path) == 0 {
			return fmt.Errorf("%s: path %d is empty", what, i)
		}
		if _, err := plainOps(p.Path); err != nil {
			return fmt.Errorf("%s: path %d: %v", what, i, err)
		}
		if _, ok := p.Path[0].(svg.OpMoveTo); !ok {
			return fmt.Errorf("%s: path %d does not start with a move: %v", what, i, p.Path)
		}
		st := p.Style
		for _, o := range []float64{st.FillOpacity, st.LineOpacity} {
			if !(o >= 0 && o <= 1) {
				return fmt.Errorf("%s: path %d has opacity %v", what, i, o)
			}
		}
		if math.IsNaN(st.LineWidth) || math.IsInf(st.LineWidth, 0) {
			return fmt.Errorf("%s: path %d has line width %v", what, i, st.LineWidth)
		}
		for _, pt := range []svg.Pattern{st.FillerColor, st.LinerColor} {
			switch g := pt.(type) {
			case nil, svg.PlainColor:
			case svg.Gradient:
				for _, stop := range g.Stops {
					if stop.StopColor == nil {
						return fmt.Errorf("%s: path %d has a gradient stop without colour", what, i)
					}
				}
			default:
				return fmt.Errorf("%s: path %d is painted with %T", what, i, pt)
			}
		}
		for _, d := range st.Dash.Dash {
			if !(d >= 0) || math.IsInf(d, 0) {
				return fmt.Errorf("%s: path %d has dash %v", what, i, d)
			}
		}
	}
	return nil
}

func checkTotal(b []byte, r *Rec) error {
	for mode := svg.IgnoreErrorMode; mode <= svg.StrictErrorMode; mode++ {
		s, err := parseBytes(b, mode)
		if err == nil {
			r.Label("accepted")
			if e := wellFormed(s); e != nil {
				return fmt.Errorf("accepted: %v\n%s", e, clip(string(b)))
			}
			if len(s.SvgPaths) > 0 {
				r.Label("draws")
			}
		} else {
			r.Label("rejected")
			if err.Error() == "" {
				return fmt.Errorf("empty error message\n%s", clip(string(b)))
			}
		}
	}
	return nil
}

func checkBytes(c BytesCase, r *Rec) error {
	r.NonTrivial(len(c.B) > 10)
	r.Sample(string(c.B))
	r.Label("kind %s", c.Kind)
	return checkTotal(c.B, r)
}

func checkBig(c BigCase, r *Rec) error {
	r.NonTrivial(c.N > 100)
	r.Label(c.Shape)
	r.Sample(fmt.Sprintf("%s x %d", c.Shape, c.N))
	text := c.text()
	var m0, m1 runtime.MemStats
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	runtime.ReadMemStats(&m0)
	cpu0 := threadCPU()
	s, err := parse(text, svg.IgnoreErrorMode)
	cpu := threadCPU() - cpu0
	runtime.ReadMemStats(&m1)
	if err != nil {
		return fmt.Errorf("%s x %d is rejected: %v", c.Shape, c.N, err)
	}
	per := float64(m1.TotalAlloc-m0.TotalAlloc) / float64(len(text))
	// work in proportion to the input, measured by what is allocated: at most 140
	// bytes for each byte of the text, where lists of masks grow with the depth
	if per > 600 && len(text) > 20000 && c.Shape != "nest-masked" {
		return fmt.Errorf("%s x %d: %.0f bytes are allocated for each byte of the text, which has %d", c.Shape, c.N, per, len(text))
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "large %s %d %.0f ns/byte %.0f bytes/byte\n", c.Shape, len(text), float64(cpu)/float64(len(text)), per)
	}
	// less than 2 microseconds of processor time are used for each byte of the text
	if perByte := float64(cpu) / float64(len(text)); perByte > 15000 && len(text) > 20000 {
		return fmt.Errorf("%s x %d: %.0f nanoseconds of processor time for each byte of the text, which has %d", c.Shape, c.N, perByte, len(text))
	}
	return wellFormed(s)
}

// threadCPU is the processor time used by this thread, in nanoseconds.
func threadCPU() int64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(1 /* RUSAGE_THREAD */, &ru); err != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func init() {
	register("C01",
		NewSub("soup", 150000, 3000000, "inputs of more than 10 bytes", genSoup, checkBytes),
		NewSub("attributes", 250000, 5000000, "inputs of more than 10 bytes", genAimed, checkBytes),
		NewSub("mutated", 60000, 1000000, "inputs of more than 10 bytes", genMutated, checkBytes),
		NewSub("corpus", 30000, 600000, "inputs of more than 10 bytes", genCorpus, checkBytes),
		NewSub("raw", 60000, 1000000, "inputs of more than 10 bytes", genRaw, checkBytes),
		NewSub("graphs", 30000, 600000, "inputs of more than 10 bytes", func(t *rapid.T) BytesCase {
			return BytesCase{B: []byte(genUseGraph(t).text()), Kind: "use graph"}
		}, checkBytes),
		NewSub("documents", 20000, 400000, "inputs of more than 10 bytes", func(t *rapid.T) BytesCase {
			d := genDoc(t, docOpt{depth: 3, kids: 4, decls: append([]string{"mask"}, allDecls...), grads: true, masks: true, uses: true,
				text: true, unknown: true, nested: true, noVB: true, units: true})
			return BytesCase{B: []byte(d.text()), Kind: "document"}
		}, checkBytes),
		NewSub("large", 1500, 20000, "more than 100 repetitions", genBig, checkBig),
	)
}
