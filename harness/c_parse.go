package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"pgregory.net/rapid"
)

// fullOpt is a document with everything the parser supports.
var fullOpt = docOpt{depth: 2, kids: 3, decls: append([]string{"mask"}, allDecls...), grads: true, masks: true, uses: true, text: true, units: true, nested: true, noVB: true}

// smallOpt is a short document, for checks that parse it many times.
var smallOpt = docOpt{depth: 1, kids: 2, decls: []string{"fill", "stroke", "transform", "stroke-width"}, grads: true, masks: true, uses: true, text: true, units: true}

// ---- C04: malformed values are rejected ----

type BadCase struct {
	Doc   *Doc   `json:"doc"`
	Site  string `json:"site"`
	Value string `json:"value"`
	At    int    `json:"at"`
	// stops around a malformed one
	Before int    `json:"before,omitempty"`
	After  int    `json:"after,omitempty"`
	Wrap   int    `json:"wrap,omitempty"`
	Via    string `json:"via,omitempty"`  // "", "use", "deepuse", "mask", "maskuse"
	Tag    string `json:"tag,omitempty"`  // wrapping element, g if empty
	Form   string `json:"form,omitempty"` // value kind the value was made from
}

var badLens = []string{"abc", "5xx", "5 5", "NaN", "nan", "inf", "-inf", "Infinity", "1e999", "--5", "5em", "1.2.3", "5%%", "px", "%", "5pxpx", "1,5", "5-", "e5", "1e", "+", "-", ".", "#5", "5cm2", "", "5:5", "5/2", "(5)", "5%px", "٣", "5\u00d7", "0x10", "0x1p4", "1_000", "0b1", "1p3"}
var badColours = []string{"#12", "#1", "#1234567", "#ggg", "#12345g", "#12 456", "rgb(1,2)", "rgb(1,2,3,4)", "rgb(a,b,c)", "rgb(1,,3)", "rgb()", "rgb(1.5.2,3,4)", "rgb(1%,2%,x%)", "blurple", "#", "123456", "0", "redd", "rgb(1 2 3)",
	"", "#1234", "#12345", "#12345678", "rgb(nan,1,2)", "rgb(1,inf,2)", "rgb(0x10,1,2)", "red:", "red blue", "rgb 1,2,3", "grb(1,2,3)", "#-12", "#+123", "# 123", "rgb(--1,2,3)", "rgb(1,2,3%%)", "hsl(1,2,3)", "##123"}
var badXfs = []string{"rotate(1,2)", "rotate()", "rotate(1,2,3,4)", "translate(1,2,3)", "translate()", "scale(1,2,3)", "scale()", "skewX(1,2)", "skewX()", "skewY()", "skewY(1,2)", "skewX(1,2,3)", "skewY(1 2 3)", "matrix(1,2,3,4,5)", "matrix(1,2,3,4,5,6,7)", "matrix(1)", "spin(30)", "translate 5)", "5,5", "rotate", "rotate(30)scale", "translate(1,2) bogus(3)", "translate(-)", "scale(1e)", "scale((2))",
	"translate(1;2)", "rotate(30deg)", "(5)", "translate(a,b)", "scale(2)x", "rotate(1e999)"}
var badPaths = []string{"M", "M1", "M1,2,3", "M1 2L", "M1 2L3", "M1 2 L3 4 5", "M1 2H", "M1 2V", "M1 2h", "M1 2v", "M1 2C1 2 3 4 5", "M1 2C", "M1 2C1 2 3 4 5 6 7", "M1 2S1 2 3", "M1 2S", "M1 2Q1 2", "M1 2Q1 2 3", "M1 2T1", "M1 2T", "M1 2A1 1 0 0 1 5", "M1 2A1 1 0 0 1 5 5 5", "M1 2a", "M1 2A9 9 0 2 1 5 5", "M1 2A9 9 0 0 -1 5 5", "M1 2a9 9 0 .5 1 5 5", "M1 2A9 9 0 1 1 5 5 9 9 0 0 7 8 8", "M1 2a9,9,0,+1,0,5,5", "M1 2L3 4Z5", "M1 2L3 4z 1 2", "M1 2L3 -", "M1 2L3 1e", "M1 2L. 5", "M1 2Lxyz5", "M1 2l--3 4", "M1 2L3 4L1e999 5", "m1 2c1 2", "M1 2t1 2 3", "M1 2s1 2 3 4 5", "M1 2q1 2 3 4 5",
	"L1 2", "Z", "z M1 2", "5 6 M1 2", "1 2 3 4", "M1 2;3 4", "M(1 2)", "M1 2L3 4#", "M1 2L3 +", "H5", "a1 1 0 0 1 5 5"}
var badViewBoxes = []string{"0 0 10", "0 0 10 10 10", "", "0", "0 0 1e 10", "0 0 - 10", "0 0 10 10px", "0;0;10;10", "0 0 10 abc 10", "NaN 0 10 10", "0 0 1e999 10"}
var badPoints = []string{"1", "1,2,3", "1 2 3 4 5", "1,2 3,4 5", "1,2 - 4", "1,2 3e 4", "1,2 . 5", "1e999 5", "1,2 a 3,4", "1,2;3,4", "(1,2) (3,4)", "1px 2px 3px 4px"}
var badOps = []string{"abc", "5x", "NaN", "inf", "1e999", "%", "half", "0.5.5", "--1", "0.5px", "50%%", "", "1/2", "0,5", "0.5:1"}
var badDashes = []string{"5,-3", "-1", "a,b", "5,x", "3 4 y", "NaN", "5 inf", "1,2,-0.5,4", "5;3", "5,3qq", "5 1e999", "5/3"}
var badHrefs = []string{"", "nope", "#", "#missing", "http://example.com/#a", "url(#a)", "xok", "ok", " #missing", "##ok", "#ok2"}
var badMaskRefs = []string{"foo", "url(foo)", "url(http://x#y)", "url(#a", "#a", "a", "uri(#a)"}
var badNums = []string{"abc", "5xx", "5 5", "NaN", "inf", "1e999", "--5", "1.2.3", "+", "-", ".", "e5", "1e", ""}

// kinds of values: malformed ones, and a good one for the control.
var badKinds = map[string]struct {
	vals []string
	good string
}{
	"len": {badLens, "3"}, "colour": {badColours, "red"}, "xf": {badXfs, "rotate(5)"}, "path": {badPaths, "M1 2L3 4"},
	"viewBox": {badViewBoxes, "0 0 10 10"}, "points": {badPoints, "1,2 3,4"}, "op": {badOps, "0.5"}, "dash": {badDashes, "5,3"},
	"href": {badHrefs, "#ok"}, "mask": {badMaskRefs, "url(#zz)"}, "num": {badNums, "3"},
}

type badSite struct {
	kind string
	tag  string
	attr []string // name, value ("%s" is the malformed value)
	kid  *Elem    // the malformed attribute belongs to this child
	root bool     // attribute of the root element
}

// sites lists where a malformed value can be put: %s is the value.
var badSites = map[string]badSite{}
var badSiteNames []string

func addSite(name string, s badSite) {
	badSites[name] = s
	badSiteNames = append(badSiteNames, name)
}

func init() {
	// geometry
	base := map[string][]string{"rect": {"x", "1", "y", "1", "width", "5", "height", "5", "rx", "1", "ry", "1"}, "circle": {"cx", "1", "cy", "1", "r", "2"},
		"ellipse": {"cx", "1", "cy", "1", "rx", "2", "ry", "3"}, "line": {"x1", "1", "y1", "1", "x2", "5", "y2", "4"}, "use": {"href", "#ok", "x", "1", "y", "1"},
		"mask": {"id", "bm", "x", "1", "y", "1", "width", "5", "height", "5"}, "linearGradient": {"id", "bg", "x1", "1", "y1", "1", "x2", "5", "y2", "4"},
		"radialGradient": {"id", "bg", "cx", "1", "cy", "1", "r", "2", "fx", "1", "fy", "1", "fr", "1"}}
	for _, tag := range []string{"rect", "circle", "ellipse", "line", "use", "mask", "linearGradient", "radialGradient"} {
		b := base[tag]
		for i := 0; i < len(b); i += 2 {
			if b[i] == "id" || b[i] == "href" {
				continue
			}
			with := append([]string{}, b...)
			with[i+1] = "%s"
			addSite(tag+"."+b[i], badSite{kind: "len", tag: tag, attr: with})
			// alone: the other attributes keep their defaults
			alone := []string{b[i], "%s"}
			switch {
			case tag == "use":
				alone = []string{b[i], "%s", "href", "#ok"}
			case b[0] == "id":
				alone = []string{b[i], "%s", "id", "bm"}
			}
			addSite(tag+"."+b[i]+" alone", badSite{kind: "len", tag: tag, attr: alone})
			if strings.HasSuffix(tag, "Gradient") {
				addSite(tag+"."+b[i]+" user space", badSite{kind: "len", tag: tag, attr: append(append([]string{}, with...), "gradientUnits", "userSpaceOnUse")})
			}
		}
	}
	addSite("polyline.points", badSite{kind: "points", tag: "polyline", attr: []string{"points", "%s"}})
	addSite("polygon.points", badSite{kind: "points", tag: "polygon", attr: []string{"points", "%s"}})
	addSite("path.d", badSite{kind: "path", tag: "path", attr: []string{"d", "%s"}})
	addSite("use.href", badSite{kind: "href", tag: "use", attr: []string{"href", "%s"}})
	addSite("use.xlink:href", badSite{kind: "href", tag: "use", attr: []string{"x", "3", "xlink:href", "%s"}})
	// style properties, on every kind of element, as attribute or in style
	for _, p := range [][2]string{{"fill", "colour"}, {"stroke", "colour"}, {"stroke-width", "len"}, {"stroke-dashoffset", "len"}, {"stroke-miterlimit", "num"},
		{"stroke-dasharray", "dash"}, {"opacity", "op"}, {"fill-opacity", "op"}, {"stroke-opacity", "op"}, {"transform", "xf"}, {"mask", "mask"}} {
		for _, tag := range []string{"path", "g", "rect", "circle", "ellipse", "line", "polyline", "polygon", "use", "mask"} {
			own := base[tag]
			switch tag {
			case "path":
				own = []string{"d", "M1 2L3 4"}
			case "polyline", "polygon":
				own = []string{"points", "1 2 3 4"}
			}
			addSite(tag+"."+p[0], badSite{kind: p[1], tag: tag, attr: append(append([]string{}, own...), p[0], "%s")})
			addSite(tag+".style."+p[0], badSite{kind: p[1], tag: tag, attr: append([]string{"style", "stroke-linecap:round; " + p[0] + " : %s ;fill-rule:evenodd"}, own...)})
		}
		addSite("svg."+p[0], badSite{kind: p[1], root: true, attr: []string{p[0], "%s"}})
		addSite("svg.style."+p[0], badSite{kind: p[1], root: true, attr: []string{"style", p[0] + ":%s"}})
	}
	// gradients
	for _, tag := range []string{"linearGradient", "radialGradient"} {
		stop := func(name, kind string, as ...string) {
			addSite(tag+"."+name, badSite{kind: kind, tag: tag, attr: []string{"id", "bg"}, kid: &Elem{Tag: "stop", Attrs: as}})
		}
		addSite(tag+".gradientTransform", badSite{kind: "xf", tag: tag, attr: []string{"id", "bg", "gradientTransform", "%s"}})
		stop("stop.offset", "op", "offset", "%s", "stop-color", "red")
		stop("stop.stop-color", "colour", "offset", "0", "stop-color", "%s")
		stop("stop.stop-opacity", "op", "offset", "0", "stop-opacity", "%s")
		stop("stop.style.stop-color", "colour", "offset", "0", "style", "stop-opacity:1; stop-color : %s")
		stop("stop.style.stop-opacity", "op", "style", "stop-color:red;stop-opacity:%s", "offset", "0")
	}
	addSite("svg.viewBox", badSite{kind: "viewBox", root: true, attr: []string{"viewBox", "%s"}})
	addSite("svg.width", badSite{kind: "len", root: true, attr: []string{"width", "%s"}})
	addSite("svg.height", badSite{kind: "len", root: true, attr: []string{"height", "%s"}})
}

func genBad(t *rapid.T) BadCase {
	name := oneOf(t, "site", badSiteNames...)
	site := badSites[name]
	o := smallOpt
	o.units = false
	c := BadCase{Site: name, Form: site.kind, Doc: genDoc(t, o), Wrap: oneOf(t, "wrap", 0, 0, 1, 2, 5, 40),
		Tag: oneOf(t, "wraptag", "g", "g", "g", "svg", "foo")}
	c.Value = oneOf(t, "value", badKinds[site.kind].vals...)
	if chance(t, 1, 2, "generated") {
		if v := genBadValue(t, site.kind); v != "" {
			c.Value = v
		}
	}
	c.At = intn(t, 0, len(c.Doc.Kids), "at")
	if site.kid != nil {
		c.Before, c.After = intn(t, 0, 2, "before"), intn(t, 0, 2, "after")
	}
	switch site.tag {
	case "mask", "linearGradient", "radialGradient":
	default:
		if !site.root {
			c.Via = oneOf(t, "via", "", "", "use", "deepuse", "mask", "maskuse")
		}
	}
	return c
}

var okNumber = regexp.MustCompile(`^\s*[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?\s*$`)
var okLength = regexp.MustCompile(`^\s*[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?\s*((?i)px|cm|mm|in|pt|pc|q|%)?\s*$`)

const junkChars = "xp_abgxyz%#()/*!?&~=$@^'|{}.-+eE0 \t,é½"

// corrupt makes one or two edits.
func corrupt(t *rapid.T, s string) string {
	rs := []rune(s)
	for k := intn(t, 1, 2, "edits"); k > 0; k-- {
		at := intn(t, 0, len(rs), "editat")
		junk := oneOf(t, "junk", []rune(junkChars)...)
		switch {
		case chance(t, 1, 4, "drop") && at < len(rs):
			rs = append(rs[:at:at], rs[at+1:]...)
		case chance(t, 1, 3, "replace") && at < len(rs):
			rs = append([]rune{}, rs...)
			rs[at] = junk
		default:
			rs = append(rs[:at:at], append([]rune{junk}, rs[at:]...)...)
		}
	}
	return string(rs)
}

// genBadValue breaks a valid value of the kind; "" if it came out valid, or
// is of a form that is not decided here.
func genBadValue(t *rapid.T, kind string) string {
	num := func() string { return spell(dec(t, -50, 50, "num"), genNoise(t, 4).reader()) }
	list := func(n int) []string {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, num())
		}
		return out
	}
	// a number in a list that is not one, and not several in a row either
	badInList := func() string {
		for i := 0; i < 4; i++ {
			s := strings.TrimSpace(corrupt(t, num()))
			if s != "" && strings.ContainsAny(s, "p_abgxyz%#()/*!?&~=$@^'|{}é") {
				return s
			}
		}
		return "5#"
	}
	switch kind {
	case "len", "op", "num":
		s := num()
		switch kind {
		case "len":
			s += oneOf(t, "unit", "", "px", "cm", "mm", "in", "pt", "pc", "Q", "%")
		case "op":
			s += oneOf(t, "unit", "", "%")
		}
		s = corrupt(t, s)
		if okLength.MatchString(s) {
			return ""
		}
		return s
	case "colour":
		base := oneOf(t, "colourbase", "#123", "#abc", "#a1b2c3", "#09FfaA", "rgb(1,2,3)", "rgb(10%,20%,30%)", "red", "blanchedalmond", "rgb( 255 , 0 , 7 )")
		s := corrupt(t, base)
		l := strings.ToLower(strings.TrimSpace(s))
		if _, ok := cssNames[l]; ok || l == "none" || strings.HasPrefix(l, "url") {
			return ""
		}
		if regexp.MustCompile(`^#([0-9a-f]{3}|[0-9a-f]{6})$`).MatchString(l) ||
			regexp.MustCompile(`^rgb\(\s*[-+]?[0-9.]+\s*%?\s*,\s*[-+]?[0-9.]+\s*%?\s*,\s*[-+]?[0-9.]+\s*%?\s*\)?$`).MatchString(l) {
			return "" // valid, or fractions and mixtures, which are not decided here
		}
		return s
	case "dash":
		parts := list(intn(t, 1, 5, "ndash"))
		for i := range parts {
			parts[i] = strings.TrimPrefix(parts[i], "-")
		}
		at := intn(t, 0, len(parts)-1, "badat")
		bad := strings.Map(func(r rune) rune {
			if r == ',' || r == ' ' || r == '\t' {
				return 'x'
			}
			return r
		}, corrupt(t, parts[at]))
		if bad == "" || okLength.MatchString(bad) && !strings.HasPrefix(bad, "-") || strings.Trim(bad, "-+0.eE") == "" && okLength.MatchString(bad) {
			return ""
		}
		parts[at] = bad
		return strings.Join(parts, oneOf(t, "dsep", ",", " ", ", "))
	case "points", "viewBox":
		n := 4
		if kind == "points" {
			n = 2 * intn(t, 1, 6, "npts")
		}
		parts := list(n)
		switch intn(t, 0, 2, "listbreak") {
		case 0:
			parts = parts[:n-1]
		case 1:
			parts = append(parts, num())
		default:
			parts[intn(t, 0, n-1, "badat")] = badInList()
		}
		return strings.Join(parts, oneOf(t, "lsep", ",", " "))
	case "path":
		if chance(t, 1, 2, "pathjunk") {
			d := pathText(genPath(t, 4, true), nil)
			at := intn(t, 0, len(d), "junkat")
			return d[:at] + oneOf(t, "junk", "#", "(", ")", "%", "/", ";", ":", "*", "!", "?", "=", "'", "|") + d[at:]
		}
		return genBadPath(t)
	case "xf":
		fs := []struct {
			n  string
			ok []int
		}{{"translate", []int{1, 2}}, {"scale", []int{1, 2}}, {"rotate", []int{1, 3}}, {"skewX", []int{1}}, {"skewY", []int{1}}, {"matrix", []int{6}}}
		f := fs[intn(t, 0, len(fs)-1, "fn")]
		pre := ""
		if chance(t, 1, 2, "xfpre") {
			pre = xfText(genXfs(t, 2), nil) + " "
		}
		post := ""
		if chance(t, 1, 2, "xfpost") {
			post = " " + xfText(genXfs(t, 2), nil)
		}
		if chance(t, 1, 2, "badarg") {
			args := list(f.ok[intn(t, 0, len(f.ok)-1, "argc")])
			args[intn(t, 0, len(args)-1, "badat")] = strings.NewReplacer("(", "#", ")", "#").Replace(badInList())
			return pre + f.n + "(" + strings.Join(args, ",") + ")" + post
		}
		n := intn(t, 0, 8, "nargs")
		for _, k := range f.ok {
			if n == k {
				return ""
			}
		}
		return pre + f.n + "(" + strings.Join(list(n), ",") + ")" + post
	}
	return ""
}

// genBadPath breaks a valid path: an argument is dropped or one too many is given.
func genBadPath(t *rapid.T) string {
	d := genPath(t, 5, true)
	i := intn(t, 0, len(d)-1, "which")
	k := up(d[i].K)
	switch {
	case k == 'Z':
		d[i].A = []float64{1}
	case argc[k] == 1: // any number of arguments is fine, except none
		d[i].A = nil
	case chance(t, 1, 2, "extra"):
		d[i].A = append(append([]float64{}, d[i].A...), 7)
	default:
		d[i].A = d[i].A[:len(d[i].A)-1]
	}
	return pathText(d, nil)
}

// text writes the document with the value at its place.
func (c BadCase) text(value string) string {
	site := badSites[c.Site]
	fill := func(as []string) []string {
		var out []string
		for _, a := range as {
			if strings.Contains(a, "%s") {
				a = strings.Replace(a, "%s", value, 1)
			}
			out = append(out, a)
		}
		return out
	}
	d := *c.Doc
	if site.root {
		as := fill(site.attr)
		// replace or add the attribute of the root element
		if as[0] == "viewBox" {
			d.HasVB = false
		}
		if as[0] == "width" {
			d.W = nil
		}
		if as[0] == "height" {
			d.H = nil
		}
		var ds []Decl
		for _, x := range d.Decls {
			if x.Name != as[0] && as[0] != "style" {
				ds = append(ds, x)
			}
		}
		d.Decls = ds
		return strings.Replace(d.text(), "<svg", "<svg "+as[0]+`="`+escAttr(as[1], '"')+`"`, 1)
	}
	bad := &Elem{Tag: site.tag, Attrs: fill(site.attr)}
	if site.kid != nil {
		for i := 0; i < c.Before; i++ {
			bad.Kids = append(bad.Kids, &Elem{Tag: "stop", Attrs: []string{"offset", "0.1", "stop-color", "red"}})
		}
		bad.Kids = append(bad.Kids, &Elem{Tag: "stop", Attrs: fill(site.kid.Attrs)})
		for i := 0; i < c.After; i++ {
			bad.Kids = append(bad.Kids, &Elem{Tag: "stop", Attrs: []string{"offset", "0.9", "stop-color", "blue"}})
		}
	}
	wrap := func(es ...*Elem) []*Elem {
		for i := 0; i < c.Wrap; i++ {
			tag := c.Tag
			if c.strange() && i > 0 {
				tag = "g"
			}
			es = []*Elem{{Tag: tag, Kids: es}}
		}
		return es
	}
	var ins []*Elem
	switch c.Via {
	case "use":
		bad.ID = "bad"
		ins = wrap(&Elem{Tag: "defs", Kids: []*Elem{bad}}, &Elem{Tag: "use", Href: "bad"})
	case "deepuse":
		ins = []*Elem{{Tag: "defs", Kids: []*Elem{{Tag: "g", ID: "bad", Kids: wrap(bad)}, {Tag: "g", ID: "bad2", Kids: []*Elem{{Tag: "use", Href: "bad"}}}}}, {Tag: "use", Href: "bad2"}}
	case "mask":
		ins = []*Elem{{Tag: "mask", ID: "bm2", Kids: wrap(bad)}}
	case "maskuse":
		ins = []*Elem{{Tag: "defs", Kids: []*Elem{{Tag: "g", ID: "bad", Kids: []*Elem{bad}}}}, {Tag: "mask", ID: "bm2", Kids: wrap(&Elem{Tag: "use", Href: "bad"})}}
	default:
		ins = wrap(bad)
	}
	ok := &Elem{Tag: "defs", Kids: []*Elem{{Tag: "path", ID: "ok", Attrs: []string{"d", "M0 0L1 1"}}}}
	at := min(c.At, len(d.Kids))
	d.Kids = append(append(append(append([]*Elem{}, d.Kids[:at]...), ok), ins...), d.Kids[at:]...)
	return d.text()
}

// strange reports whether the document has an unknown element around the value.
func (c BadCase) strange() bool { return c.Tag == "foo" && c.Wrap > 0 }

func checkBad(c BadCase, r *Rec) error {
	if strings.Contains(c.Site, "style") && strings.ContainsAny(c.Value, ";:&") {
		return errSkip // ends the declaration
	}
	if strings.Contains(c.Site, "style") && strings.TrimSpace(c.Value) == "" && c.Form != "colour" {
		return errSkip
	}
	text := c.text(c.Value)
	r.Label(c.Site)
	r.Label("kind-%s", c.Form)
	if c.Via != "" {
		r.Label("via-%s", c.Via)
	}
	r.NonTrivial(true)
	r.Sample(fmt.Sprintf("%s=%q via %s", c.Site, c.Value, c.Via))
	for mode := svg.IgnoreErrorMode; mode <= svg.StrictErrorMode; mode++ {
		if s, err := parse(text, mode); err == nil {
			n := 0
			if s != nil {
				n = len(s.SvgPaths)
			}
			return fmt.Errorf("malformed %s=%q accepted in error mode %d (%d paths)\n%s", c.Site, c.Value, mode, n, clip(text))
		}
	}
	good := c.text(badKinds[c.Form].good)
	mode := svg.StrictErrorMode
	if c.strange() {
		mode = svg.IgnoreErrorMode
	}
	if _, err := parse(good, mode); err != nil {
		return fmt.Errorf("valid %s=%q rejected: %v\n%s", c.Site, badKinds[c.Form].good, err, clip(good))
	}
	return nil
}

// ---- C14: error modes ----

type ModesCase struct {
	Doc *Doc `json:"doc"`
	// unsupported content to add
	Kind string `json:"kind,omitempty"` // element keyword command
	Name string `json:"name,omitempty"`
	Val  string `json:"val,omitempty"`
	At   int    `json:"at,omitempty"`
	Sty  bool   `json:"sty,omitempty"`
	D    []Cmd  `json:"d,omitempty"`
	// Place puts it somewhere deeper: 1 in groups, 2 in a used definition, 3 in a mask, 4 in a definition used by another one
	Place int `json:"place,omitempty"`
}

func captureLog(f func()) string {
	var b bytes.Buffer
	log.SetOutput(&b)
	defer log.SetOutput(io.Discard)
	f()
	return b.String()
}

func genModes(t *rapid.T) ModesCase {
	o := fullOpt
	o.depth = 1
	c := ModesCase{Doc: genDoc(t, o)}
	c.At = intn(t, 0, len(c.Doc.Kids), "at")
	c.Place = oneOf(t, "place", 0, 0, 1, 2, 3, 4)
	switch c.Kind = oneOf(t, "kind", "", "element", "keyword", "command"); c.Kind {
	case "element":
		c.Name = oneOf(t, "name", append([]string{"Rect", "textPath", "style", "script", "animate", "pattern", "tspan", "RADIALGRADIENT"}, unknownTags...)...)
	case "keyword":
		c.Name = oneOf(t, "name", "fill-rule", "stroke-linecap", "stroke-linejoin", "stroke-leadlinecap", "stroke-linegap")
		c.Val = oneOf(t, "val", "bogus", "inherit", "Round", "none", "0", "evenodd nonzero")
		c.Sty = chance(t, 1, 2, "sty")
	case "command":
		c.Val = oneOf(t, "val", "B", "b", "D", "d", "f", "G", "i", "J", "k", "N", "o", "P", "R", "u", "W", "x", "Y", "é", "λ") +
			oneOf(t, "args", "", " 1", " 1 2", "3,4,5", " -1.5 2e3")
		c.D = genPath(t, 5, true)
	}
	return c
}

// insert returns the document with the unsupported content, and without it.
func (c ModesCase) docs() (with, without *Doc) {
	mk := func(e *Elem) *Doc {
		d := *c.Doc
		if e != nil {
			at := min(c.At, len(d.Kids))
			ins := []*Elem{e}
			switch c.Place {
			case 1:
				ins = []*Elem{{Tag: "g", Kids: []*Elem{{Tag: "g", Attrs: []string{"stroke", "red"}, Kids: []*Elem{{Tag: "g", Kids: ins}}}}}}
			case 2:
				ins = []*Elem{{Tag: "defs", Kids: []*Elem{{Tag: "g", ID: "zz1", Kids: ins}}}, {Tag: "use", Href: "zz1", Attrs: []string{"x", "3"}}, {Tag: "use", Href: "zz1"}}
			case 3:
				ins = []*Elem{{Tag: "mask", ID: "zm1", Kids: ins}, {Tag: "path", Attrs: []string{"d", "M0 0L9 9", "mask", "url(#zm1)"}}}
			case 4:
				ins = []*Elem{{Tag: "defs", Kids: []*Elem{{Tag: "g", ID: "zz1", Kids: ins}, {Tag: "g", ID: "zz2", Kids: []*Elem{{Tag: "use", Href: "zz1"}}}}}, {Tag: "use", Href: "zz2", Attrs: []string{"y", "3"}}}
			}
			d.Kids = append(append(append([]*Elem{}, d.Kids[:at]...), ins...), d.Kids[at:]...)
		}
		return &d
	}
	kid := &Elem{Tag: "path", Attrs: []string{"d", "M1 2L3 4"}}
	switch c.Kind {
	case "element":
		as := []string{"fill", "#123456", "stroke-width", "7"}
		return mk(&Elem{Tag: c.Name, Attrs: as, Kids: []*Elem{kid}}), mk(&Elem{Tag: "g", Attrs: as, Kids: []*Elem{kid}})
	case "keyword":
		as := []string{c.Name, c.Val}
		if c.Sty {
			as = []string{"style", c.Name + ":" + c.Val}
		}
		return mk(&Elem{Tag: "g", Attrs: as, Kids: []*Elem{kid}}), mk(&Elem{Tag: "g", Kids: []*Elem{kid}})
	case "command":
		// after a command that is not a close and before one that does not look back
		k := -1
		for i := range c.D {
			next := byte('L')
			if i+1 < len(c.D) {
				next = up(c.D[i+1].K)
			}
			if up(c.D[i].K) != 'Z' && next != 'S' && next != 'T' {
				k = i
				if i >= c.At%4 {
					break
				}
			}
		}
		if k < 0 {
			return nil, nil
		}
		a := pathText(c.D[:k+1], nil) + " " + c.Val + " " + pathText(c.D[k+1:], nil)
		return mk(&Elem{Tag: "path", Attrs: []string{"d", a}}), mk(&Elem{Tag: "path", Attrs: []string{"d", pathText(c.D, nil)}})
	}
	return mk(nil), mk(nil)
}

func checkModes(c ModesCase, r *Rec) error {
	with, without := c.docs()
	if with == nil {
		return errSkip
	}
	text, clean := with.text(), without.text()
	r.Label("kind-%s", c.Kind)
	r.Label("place-%d", c.Place)
	r.NonTrivial(c.Kind != "" || len(c.Doc.Kids) > 1)
	r.Sample(text)
	var logs [3]string
	var out [3]*svg.Svg
	var errs [3]error
	for m := 0; m < 3; m++ {
		logs[m] = captureLog(func() { out[m], errs[m] = parse(text, svg.ErrorMode(m)) })
	}
	ig, wa, st := int(svg.IgnoreErrorMode), int(svg.WarnErrorMode), int(svg.StrictErrorMode)
	for _, m := range []int{ig, wa} {
		if errs[m] != nil {
			return fmt.Errorf("mode %d: %v\n%s", m, errs[m], clip(text))
		}
	}
	if err := sameSvg(out[ig], out[wa]); err != nil {
		return fmt.Errorf("ignore and warn modes differ: %v\n%s", err, clip(text))
	}
	if logs[ig] != "" || logs[st] != "" {
		return fmt.Errorf("something was logged outside of the warn mode: %q\n%s", logs[ig]+logs[st], clip(text))
	}
	if c.Kind == "" {
		if errs[st] != nil {
			return fmt.Errorf("strict mode rejects a supported document: %v\n%s", errs[st], clip(text))
		}
		if err := sameSvg(out[ig], out[st]); err != nil {
			return fmt.Errorf("ignore and strict modes differ on a supported document: %v\n%s", err, clip(text))
		}
		if logs[wa] != "" {
			return fmt.Errorf("warning %q about a supported document\n%s", logs[wa], clip(text))
		}
		return nil
	}
	if errs[st] == nil {
		return fmt.Errorf("strict mode accepts unsupported %s %s %s\n%s", c.Kind, c.Name, c.Val, clip(text))
	}
	if logs[wa] == "" {
		return fmt.Errorf("no warning about unsupported %s %s %s\n%s", c.Kind, c.Name, c.Val, clip(text))
	}
	ref, err := mustParse(clean, svg.StrictErrorMode)
	if err != nil {
		return err
	}
	if err := nearSvg(out[ig], ref, 1e-9); err != nil {
		return fmt.Errorf("unsupported %s %s %s affects the rest: %v\n%s\n%s", c.Kind, c.Name, c.Val, err, clip(text), clip(clean))
	}
	return nil
}

// ---- C15: input ----

type chunkReader struct {
	b      []byte
	sizes  []int
	i      int
	eofTog bool // return io.EOF together with the last bytes
}

func (c *chunkReader) Read(p []byte) (int, error) {
	n := 1
	if len(c.sizes) > 0 {
		n = c.sizes[c.i%len(c.sizes)]
		c.i++
	}
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n = min(n, min(len(p), len(c.b)))
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 && c.eofTog {
		return n, io.EOF
	}
	return n, nil
}

// faultReader fails with err after n bytes.
type faultReader struct {
	b   []byte
	n   int
	err error
	tog bool
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, f.err
	}
	n := min(len(p), f.n)
	copy(p, f.b[:n])
	f.b = f.b[n:]
	f.n -= n
	if f.n == 0 && f.tog {
		return n, f.err
	}
	return n, nil
}

type IOCase struct {
	Doc   *Doc   `json:"doc"`
	Sizes []int  `json:"sizes,omitempty"`
	Tog   bool   `json:"tog,omitempty"`
	Offs  []int  `json:"offs,omitempty"` // fault offsets, modulo the length
	Mode  int    `json:"mode,omitempty"`
	Junk  string `json:"junk,omitempty"`
}

func genIO(t *rapid.T) IOCase {
	c := IOCase{Doc: genDoc(t, smallOpt), Tog: chance(t, 1, 2, "tog"), Mode: intn(t, 0, 2, "mode")}
	c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 7, 16, 64, 500, 4096, 0}), 0, 6).Draw(t, "sizes")
	for i := range c.Sizes {
		if c.Sizes[i] == 0 && len(c.Sizes) < 2 {
			c.Sizes[i] = 1
		}
	}
	if len(c.Sizes) > 0 { // never only zeros
		c.Sizes[0] = max(c.Sizes[0], 1)
	}
	c.Offs = rapid.SliceOfN(rapid.IntRange(0, 1<<16), 1, 24).Draw(t, "offs")
	return c
}

var errDisk = errors.New("verif: simulated read failure")

// errWrapped is a failure for which errors.Is(err, io.EOF) holds: it is not the end of the file.
var errWrapped = fmt.Errorf("verif: connection lost: %w", io.EOF)

func checkChunks(c IOCase, r *Rec) error {
	text := c.Doc.text()
	r.NonTrivial(len(text) > 200)
	r.Sample(fmt.Sprintf("%v %s", c.Sizes, text))
	a, erra := parse(text, svg.ErrorMode(c.Mode))
	b, errb := svg.Parse(&chunkReader{b: []byte(text), sizes: c.Sizes, eofTog: c.Tog}, svg.ErrorMode(c.Mode))
	if (erra == nil) != (errb == nil) {
		return fmt.Errorf("errors %v and %v when read in chunks %v\n%s", erra, errb, c.Sizes, clip(text))
	}
	if err := sameSvg(a, b); err != nil {
		return fmt.Errorf("result depends on the chunks %v: %v\n%s", c.Sizes, err, clip(text))
	}
	return nil
}

func checkFaults(c IOCase, r *Rec) error {
	text := c.Doc.text()
	r.NonTrivial(true)
	r.Sample(fmt.Sprintf("faults at %v of %s", c.Offs, text))
	for _, o := range c.Offs {
		at := o % (len(text) + 1)
		for _, e := range []error{errDisk, io.ErrUnexpectedEOF, errWrapped} {
			_, err := svg.Parse(&faultReader{b: []byte(text), n: at, err: e, tog: c.Tog}, svg.ErrorMode(c.Mode))
			if err == nil {
				return fmt.Errorf("read failure after %d of %d bytes is not reported\n%s", at, len(text), clip(text))
			}
			// a failure inside a character is reported as invalid text by the XML reader
			if e != io.ErrUnexpectedEOF && utf8.ValidString(text[:at]) && !errors.Is(err, e) {
				return fmt.Errorf("read failure after %d bytes is reported as %q\n%s", at, err, clip(text))
			}
		}
	}
	return nil
}

func checkTruncated(c IOCase, r *Rec) error {
	text := c.Doc.text()
	end := strings.LastIndex(text, "</svg>") + len("</svg>") - 1
	r.NonTrivial(true)
	r.Sample(fmt.Sprintf("truncated at %v: %s", c.Offs, text))
	for _, o := range c.Offs {
		at := o % (end + 1)
		if _, err := parse(text[:at], svg.ErrorMode(c.Mode)); err == nil {
			return fmt.Errorf("document cut after %d of %d bytes is accepted: %s", at, len(text), clip(text[:at]))
		}
	}
	return nil
}

var fileSeq int

func checkFile(c IOCase, r *Rec) error {
	text := c.Doc.text()
	if len(c.Offs) > 0 && c.Offs[0]%5 == 0 { // also broken files
		text = text[:c.Offs[0]%(len(text)+1)]
		r.Label("truncated")
	}
	r.NonTrivial(true)
	dir, err := os.MkdirTemp("", "verif-c15-")
	if err != nil {
		return errSkip
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "in.svg")
	if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
		return errSkip
	}
	fds := func() int {
		e, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			return -1
		}
		n := 0
		for _, x := range e {
			if l, err := os.Readlink("/proc/self/fd/" + x.Name()); err == nil && strings.HasPrefix(l, dir) {
				n++
			}
		}
		return n
	}
	a, erra := parse(text, svg.ErrorMode(c.Mode))
	b, errb := svg.ParseFile(name, svg.ErrorMode(c.Mode))
	if n := fds(); n > 0 {
		return fmt.Errorf("ParseFile left %d files open", n)
	}
	if (erra == nil) != (errb == nil) {
		return fmt.Errorf("Parse returns error %v, ParseFile %v\n%s", erra, errb, clip(text))
	}
	if err := sameSvg(a, b); err != nil {
		return fmt.Errorf("Parse and ParseFile differ: %v\n%s", err, clip(text))
	}
	if got, err := os.ReadFile(name); err != nil || string(got) != text {
		return fmt.Errorf("ParseFile changed the file")
	}
	if s, err := svg.ParseFile(filepath.Join(dir, "missing.svg"), svg.ErrorMode(c.Mode)); err == nil {
		return fmt.Errorf("missing file: no error (%v)", s)
	} else if !errors.Is(err, os.ErrNotExist) {
		return fmt.Errorf("missing file reported as %v", err)
	}
	if _, err := svg.ParseFile(dir, svg.ErrorMode(c.Mode)); err == nil {
		return fmt.Errorf("a directory is accepted")
	}
	return nil
}

type EncCase struct {
	Enc   string `json:"enc"`
	Text  []rune `json:"text"`
	Label string `json:"label,omitempty"` // another spelling of Enc
}

var encodings = map[string]struct {
	e encoding.Encoding
	a string
}{
	"UTF-8":        {encoding.Nop, "aé世界ß π€"},
	"ISO-8859-1":   {charmap.Windows1252, "aéßñÿ·±"}, // as browsers read it
	"windows-1252": {charmap.Windows1252, "aéß€“”…"},
	"windows-1251": {charmap.Windows1251, "aжшщЪя№"},
	"KOI8-R":       {charmap.KOI8R, "aжшщЪя═"},
	"ISO-8859-2":   {charmap.ISO8859_2, "aąćęłńśźż"},
	"windows-1257": {charmap.Windows1257, "aāčēģīķļņšūž"},
	"Shift_JIS":    {japanese.ShiftJIS, "aあいう漢字テスト"},
	"EUC-JP":       {japanese.EUCJP, "aあいう漢字テスト"},
	"EUC-KR":       {korean.EUCKR, "a한국어시험"},
	"GBK":          {simplifiedchinese.GBK, "a简体中文"},
	"Big5":         {traditionalchinese.Big5, "a繁體中文"},
	"us-ascii":     {charmap.Windows1252, "abcxyz"},
}

var encNames = []string{"UTF-8", "ISO-8859-1", "windows-1252", "windows-1251", "KOI8-R", "ISO-8859-2", "windows-1257", "Shift_JIS", "EUC-JP", "EUC-KR", "GBK", "Big5", "us-ascii"}

func genEnc(t *rapid.T) EncCase {
	c := EncCase{Enc: oneOf(t, "enc", encNames...)}
	switch intn(t, 0, 3, "spelling") {
	case 0:
		c.Label = strings.ToLower(c.Enc)
	case 1:
		c.Label = strings.ToUpper(c.Enc)
	case 2:
		c.Label = map[string]string{"ISO-8859-1": "latin1", "windows-1251": "cp1251", "Shift_JIS": "sjis", "windows-1252": "cp1252", "ISO-8859-2": "latin2"}[c.Enc]
	}
	c.Text = rapid.SliceOfN(rapid.SampledFrom([]rune(encodings[c.Enc].a)), 1, 10).Draw(t, "text")
	return c
}

func checkEnc(c EncCase, r *Rec) error {
	e := encodings[c.Enc]
	txt := string(c.Text)
	label := c.Enc
	if c.Label != "" {
		label = c.Label
	}
	doc := `<?xml version="1.0" encoding="` + label + `"?><svg viewBox="0 0 5 6"><title>` + txt + `</title><desc>` + txt + `!</desc><path d="M1 2L3 4" fill="red"/></svg>`
	b, err := e.e.NewEncoder().Bytes([]byte(doc))
	if err != nil {
		return errSkip
	}
	r.Label(c.Enc)
	r.Sample(doc)
	r.NonTrivial(strings.IndexFunc(txt, func(x rune) bool { return x > 127 }) >= 0)
	s, err := parseBytes(b, svg.StrictErrorMode)
	if err != nil {
		return fmt.Errorf("encoding %s: %v", c.Enc, err)
	}
	if len(s.Titles) != 1 || s.Titles[0] != txt || len(s.Descriptions) != 1 || s.Descriptions[0] != txt+"!" || len(s.SvgPaths) != 1 {
		return fmt.Errorf("encoding %s: titles %q descriptions %q, want %q; %d paths", c.Enc, s.Titles, s.Descriptions, txt, len(s.SvgPaths))
	}
	return nil
}

// empties: inputs without any element are errors
func genEmpty(t *rapid.T) IOCase {
	return IOCase{Doc: &Doc{}, Junk: strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{" ", "\n", "<!-- x -->", "<?xml version=\"1.0\"?>", "<?pi?>", "text", "<!DOCTYPE svg>", "&amp;"}), 0, 5).Draw(t, "junk"), ""), Mode: intn(t, 0, 2, "mode")}
}

func checkEmpty(c IOCase, r *Rec) error {
	r.NonTrivial(c.Junk != "")
	r.Sample(c.Junk)
	if s, err := parse(c.Junk, svg.ErrorMode(c.Mode)); err == nil {
		return fmt.Errorf("input without an element is accepted: %q gives %v", c.Junk, s)
	}
	return nil
}

// ---- C17: ToSVGPath ----

type RoundCase struct {
	D  []Cmd  `json:"d,omitempty"`
	Sh *Shape `json:"sh,omitempty"`
}

func genRound(t *rapid.T) RoundCase {
	if chance(t, 1, 3, "shape") {
		return RoundCase{Sh: genShape(t, false)}
	}
	return RoundCase{D: genPath(t, 7, true)}
}

// readPlain reads the text ToSVGPath writes with an independent reader:
// absolute M, L, Q, C commands, each with exactly its arguments, and Z.
func readPlain(s string) ([]Op, error) {
	var out []Op
	n := map[byte]int{'M': 2, 'L': 2, 'Q': 4, 'C': 6, 'Z': 0}
	i := 0
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == ',' || c == '\n' || c == '\t' {
			i++
			continue
		}
		want, ok := n[c]
		if !ok {
			return nil, fmt.Errorf("unexpected %q at offset %d", c, i)
		}
		i++
		var v []float64
		for {
			j := i
			for j < len(s) && (s[j] == ' ' || s[j] == ',' || s[j] == '\n' || s[j] == '\t') {
				j++
			}
			k := j
			for k < len(s) && (s[k] >= '0' && s[k] <= '9' || s[k] == '.' || s[k] == 'e' || (s[k] == '-' || s[k] == '+') && (k == j || s[k-1] == 'e')) {
				k++
			}
			if k == j {
				break
			}
			f, err := strconv.ParseFloat(s[j:k], 64)
			if err != nil {
				return nil, err
			}
			v = append(v, f)
			i = k
		}
		if len(v) != want {
			return nil, fmt.Errorf("command %c has %d arguments", c, len(v))
		}
		o := Op{K: c}
		for k := 0; k+1 < len(v); k += 2 {
			o.P = append(o.P, Pt{v[k], v[k+1]})
		}
		out = append(out, o)
	}
	return out, nil
}

func checkRound(c RoundCase, r *Rec) error {
	d := &Doc{HasVB: true, VB: [4]float64{0, 0, 100, 100}}
	sh := c.Sh
	if sh == nil {
		sh = &Shape{Kind: "path", D: c.D}
	}
	d.Kids = []*Elem{{Tag: sh.Kind, Shape: sh}}
	text := d.text()
	s, err := mustParse(text, svg.StrictErrorMode)
	if err != nil {
		return err
	}
	if len(s.SvgPaths) == 0 {
		return errSkip
	}
	p := s.SvgPaths[0].Path
	orig, err := plainOps(p)
	if err != nil {
		return err
	}
	for _, o := range orig {
		for _, q := range o.P {
			if math.Abs(q.X) > 20000 || math.Abs(q.Y) > 20000 {
				return errSkip // beyond the precision of the text
			}
		}
		r.Label("has-%c", o.K)
	}
	out := p.ToSVGPath()
	r.Sample(out)
	r.NonTrivial(len(orig) >= 3)
	if p.String() != out {
		return fmt.Errorf("String %q and ToSVGPath %q differ", p.String(), out)
	}
	read, err := readPlain(out)
	if err != nil {
		return fmt.Errorf("ToSVGPath wrote %q: %v", out, err)
	}
	const tol = 0.0006
	if len(read) != len(orig) {
		return fmt.Errorf("ToSVGPath wrote %d commands for %d operations: %q", len(read), len(orig), out)
	}
	for i := range read {
		if read[i].K != orig[i].K || len(read[i].P) != len(orig[i].P) {
			return fmt.Errorf("operation %d is %c, written as %c: %q", i, orig[i].K, read[i].K, out)
		}
		for j := range read[i].P {
			if !near(read[i].P[j], orig[i].P[j], tol) {
				return fmt.Errorf("operation %d point %v written as %v: %q", i, orig[i].P[j], read[i].P[j], out)
			}
		}
	}
	s2, err := mustParse(`<svg viewBox="0 0 100 100"><path d="`+out+`"/></svg>`, svg.StrictErrorMode)
	if err != nil {
		return err
	}
	if len(s2.SvgPaths) != 1 {
		return fmt.Errorf("re-reading %q draws %d paths", out, len(s2.SvgPaths))
	}
	if err := sameOps(p, s2.SvgPaths[0].Path, 1.05/64+tol); err != nil {
		return fmt.Errorf("re-reading %q: %v", out, err)
	}
	return nil
}

// BuildCase is a sequence of calls on a Path.
type BuildCase struct {
	Ops []struct {
		K byte
		P [6]int
	} `json:"ops"`
}

func genBuild(t *rapid.T) BuildCase {
	var c BuildCase
	n := intn(t, 0, 10, "n")
	for i := 0; i < n; i++ {
		var o struct {
			K byte
			P [6]int
		}
		o.K = oneOf(t, "k", byte('M'), byte('L'), byte('Q'), byte('C'), byte('Z'), byte('z'), byte('R'))
		for j := range o.P {
			o.P[j] = intn(t, -64*3000, 64*3000, "v")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// checkBuild: the builder methods append exactly the operations they name.
func checkBuild(c BuildCase, r *Rec) error {
	var p svg.Path
	var want []Op
	pt := func(o [6]int, j int) (fixed.Point26_6, Pt) {
		return fixed.Point26_6{X: fixed.Int26_6(o[2*j]), Y: fixed.Int26_6(o[2*j+1])}, Pt{float64(o[2*j]) / 64, float64(o[2*j+1]) / 64}
	}
	for _, o := range c.Ops {
		a, pa := pt(o.P, 0)
		b, pb := pt(o.P, 1)
		d, pd := pt(o.P, 2)
		switch o.K {
		case 'M':
			p.Start(a)
			want = append(want, Op{'M', []Pt{pa}})
		case 'L':
			p.Line(a)
			want = append(want, Op{'L', []Pt{pa}})
		case 'Q':
			p.QuadBezier(a, b)
			want = append(want, Op{'Q', []Pt{pa, pb}})
		case 'C':
			p.CubeBezier(a, b, d)
			want = append(want, Op{'C', []Pt{pa, pb, pd}})
		case 'Z':
			p.Stop(true)
			want = append(want, Op{'Z', nil})
		case 'z':
			p.Stop(false)
		case 'R':
			p.Clear()
			want = nil
		}
	}
	r.NonTrivial(len(want) >= 2)
	got, err := plainOps(p)
	if err != nil {
		return err
	}
	cmp := func(got []Op, tol float64, what string) error {
		if len(got) != len(want) {
			return fmt.Errorf("%s has %d operations, want %d", what, len(got), len(want))
		}
		for i := range want {
			if got[i].K != want[i].K || len(got[i].P) != len(want[i].P) {
				return fmt.Errorf("%s: operation %d is %c with %d points, want %c", what, i, got[i].K, len(got[i].P), want[i].K)
			}
			for j := range want[i].P {
				if !near(got[i].P[j], want[i].P[j], tol) {
					return fmt.Errorf("%s: operation %d point %d is %v, want %v", what, i, j, got[i].P[j], want[i].P[j])
				}
			}
		}
		return nil
	}
	if err := cmp(got, 0, "path"); err != nil {
		return err
	}
	read, err := readPlain(p.ToSVGPath())
	if err != nil {
		return fmt.Errorf("%q: %v", p.ToSVGPath(), err)
	}
	r.Sample(p.ToSVGPath())
	return cmp(read, 0.0006, p.ToSVGPath())
}

func init() {
	var allBad []BadCase
	for _, name := range badSiteNames {
		site := badSites[name]
		for _, v := range badKinds[site.kind].vals {
			allBad = append(allBad, BadCase{Doc: &Doc{HasVB: true, VB: [4]float64{0, 0, 10, 10}, Kids: []*Elem{{Tag: "path", Attrs: []string{"d", "M0 0L5 5"}}}}, Site: name, Form: site.kind, Value: v, At: 1})
		}
	}
	register("C04", NewSub("malformed", 150000, 2500000, "every case: one malformed value in an otherwise valid document; every listed value is tried in every mode", genBad, checkBad, allBad...))
	register("C14", NewSub("modes", 100000, 1500000, "unsupported content, or at least two top level elements", genModes, checkModes))
	register("C15",
		NewSub("chunks", 60000, 800000, "documents longer than 200 bytes read in chunks", genIO, checkChunks),
		NewSub("read-faults", 20000, 300000, "read failures at up to 24 offsets", genIO, checkFaults),
		NewSub("truncation", 20000, 300000, "prefixes of a document cut at up to 24 offsets", genIO, checkTruncated),
		NewSub("files", 8000, 60000, "documents read from a file", genIO, checkFile),
		NewSub("encodings", 40000, 500000, "text with non-ASCII characters in a declared encoding", genEnc, checkEnc),
		NewSub("empty", 10000, 50000, "inputs without elements", genEmpty, checkEmpty),
	)
	register("C17",
		NewSub("round-trip", 150000, 2500000, "paths of at least three operations", genRound, checkRound),
		NewSub("builder", 100000, 1500000, "at least two operations", genBuild, checkBuild),
	)
}
