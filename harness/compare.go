package main

import (
	"bytes"
	"fmt"
	"image/color"
	"math"
	"reflect"
	"sort"
	"strings"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/colornames"
)

var (
	cssNames    = map[string][3]int{}
	cssNameList []string
)

func init() {
	for k, c := range colornames.Map {
		cssNames[k] = [3]int{int(c.R), int(c.G), int(c.B)}
		cssNameList = append(cssNameList, k)
	}
	sort.Strings(cssNameList)
}

// parse runs the code under test on a document text.
func parse(text string, mode svg.ErrorMode) (*svg.Svg, error) {
	return svg.Parse(strings.NewReader(text), mode)
}

func parseBytes(b []byte, mode svg.ErrorMode) (*svg.Svg, error) {
	return svg.Parse(bytes.NewReader(b), mode)
}

// mustParse parses a document that the property's domain says is valid.
func mustParse(text string, mode svg.ErrorMode) (*svg.Svg, error) {
	s, err := parse(text, mode)
	if err != nil {
		return nil, fmt.Errorf("valid document rejected: %v\n%s", err, clip(text))
	}
	if s == nil {
		return nil, fmt.Errorf("nil document without error\n%s", clip(text))
	}
	return s, nil
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

func relEq(a, b, tol float64) bool {
	return math.Abs(a-b) <= tol*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func toMat(m svg.Matrix2D) Mat { return Mat{m.A, m.B, m.C, m.D, m.E, m.F} }
func toSvgMat(m Mat) svg.Matrix2D {
	return svg.Matrix2D{A: m.A, B: m.B, C: m.C, D: m.D, E: m.E, F: m.F}
}

// matNear compares matrices by their action on a box around the origin.
func matNear(a, b Mat, tol float64) bool {
	scale := 1 + math.Abs(b.A) + math.Abs(b.B) + math.Abs(b.C) + math.Abs(b.D) + math.Abs(b.E) + math.Abs(b.F)
	for _, d := range []float64{a.A - b.A, a.B - b.B, a.C - b.C, a.D - b.D, a.E - b.E, a.F - b.F} {
		if !(math.Abs(d) <= tol*scale) {
			return false
		}
	}
	return true
}

// fields of a style to compare
const (
	fFill = 1 << iota
	fStroke
	fOpacity
	fWidth
	fRule
	fCap
	fJoin
	fMiter
	fDash
	fMasks
	fXf
	fLead
	fGap
	fAll = 1<<iota - 1
)

func rgbOf(c color.Color) ([3]int, int) {
	n := color.NRGBAModel.Convert(c).(color.NRGBA)
	return [3]int{int(n.R), int(n.G), int(n.B)}, int(n.A)
}

func rgbNear(a, b [3]int, tol int) bool {
	for i := range a {
		if a[i]-b[i] > tol || b[i]-a[i] > tol {
			return false
		}
	}
	return true
}

func cmpPaint(what string, got svg.Pattern, want RPaint) error {
	if want.None {
		if got != nil {
			return fmt.Errorf("%s is %v, want none", what, got)
		}
		return nil
	}
	if want.Grad != nil {
		g, ok := got.(svg.Gradient)
		if !ok {
			if p, okp := got.(*svg.Gradient); okp && p != nil {
				g, ok = *p, true
			}
		}
		if !ok {
			return fmt.Errorf("%s is %T %v, want a gradient", what, got, got)
		}
		return cmpGrad(what, g, want.Grad)
	}
	pc, ok := got.(svg.PlainColor)
	if !ok {
		return fmt.Errorf("%s is %T %v, want colour %v", what, got, got, want.RGB)
	}
	rgb, a := rgbOf(pc)
	if !rgbNear(rgb, want.RGB, 1) || a != 255 {
		return fmt.Errorf("%s is %v alpha %d, want %v", what, rgb, a, want.RGB)
	}
	return nil
}

func cmpGrad(what string, g svg.Gradient, want *RGrad) error {
	var dir []float64
	switch d := g.Direction.(type) {
	case svg.Linear:
		if want.Radial {
			return fmt.Errorf("%s: linear gradient, want radial", what)
		}
		dir = d[:]
	case svg.Radial:
		if !want.Radial {
			return fmt.Errorf("%s: radial gradient, want linear", what)
		}
		dir = d[:]
	default:
		return fmt.Errorf("%s: gradient direction is %T", what, g.Direction)
	}
	for i := range want.Dir {
		if !relEq(dir[i], want.Dir[i], 1e-6) {
			return fmt.Errorf("%s: gradient vector %v, want %v", what, dir, want.Dir)
		}
	}
	if (g.Units == svg.UserSpaceOnUse) != want.User {
		return fmt.Errorf("%s: gradient units %v, want user space %v", what, g.Units, want.User)
	}
	if int(g.Spread) != want.Spread {
		return fmt.Errorf("%s: spread %v, want %v", what, g.Spread, want.Spread)
	}
	if !matNear(toMat(g.Matrix), want.M, 1e-6) {
		return fmt.Errorf("%s: gradient matrix %v, want %v", what, g.Matrix, want.M)
	}
	if len(g.Stops) != len(want.Stops) {
		return fmt.Errorf("%s: %d stops, want %d", what, len(g.Stops), len(want.Stops))
	}
	for i, s := range g.Stops {
		w := want.Stops[i]
		if !relEq(s.Offset, w.Off, 1e-6) || !relEq(s.Opacity, w.Opa, 1e-6) {
			return fmt.Errorf("%s: stop %d offset %v opacity %v, want %v %v", what, i, s.Offset, s.Opacity, w.Off, w.Opa)
		}
		if s.StopColor == nil {
			return fmt.Errorf("%s: stop %d has no colour, want %v", what, i, w.RGB)
		}
		rgb, _ := rgbOf(s.StopColor)
		if !rgbNear(rgb, w.RGB, 1) {
			return fmt.Errorf("%s: stop %d colour %v, want %v", what, i, rgb, w.RGB)
		}
	}
	return nil
}

func cmpStyle(got svg.PathStyle, want RStyle, fields int) error {
	if fields&fFill != 0 {
		if err := cmpPaint("fill", got.FillerColor, want.Fill); err != nil {
			return err
		}
	}
	if fields&fStroke != 0 {
		if err := cmpPaint("stroke", got.LinerColor, want.Stroke); err != nil {
			return err
		}
	}
	if fields&fOpacity != 0 {
		if !relEq(got.FillOpacity, want.FillOp, 1e-6) {
			return fmt.Errorf("fill opacity %v, want %v", got.FillOpacity, want.FillOp)
		}
		if !relEq(got.LineOpacity, want.StrokeOp, 1e-6) {
			return fmt.Errorf("stroke opacity %v, want %v", got.LineOpacity, want.StrokeOp)
		}
	}
	if fields&fWidth != 0 && !relEq(got.LineWidth, want.Width, 1e-6) {
		return fmt.Errorf("stroke width %v, want %v", got.LineWidth, want.Width)
	}
	if fields&fRule != 0 && got.UseNonZeroWinding != want.NonZero {
		return fmt.Errorf("fill rule nonzero=%v, want %v", got.UseNonZeroWinding, want.NonZero)
	}
	if fields&fCap != 0 && got.Join.TrailLineCap != want.Cap {
		return fmt.Errorf("line cap %v, want %v", got.Join.TrailLineCap, want.Cap)
	}
	if fields&fLead != 0 && got.Join.LeadLineCap != want.Lead {
		return fmt.Errorf("lead line cap %v, want %v", got.Join.LeadLineCap, want.Lead)
	}
	if fields&fGap != 0 && got.Join.LineGap != want.Gap {
		return fmt.Errorf("line gap %v, want %v", got.Join.LineGap, want.Gap)
	}
	if fields&fJoin != 0 && got.Join.LineJoin != want.Join {
		return fmt.Errorf("line join %v, want %v", got.Join.LineJoin, want.Join)
	}
	if fields&fMiter != 0 && math.Abs(float64(got.Join.MiterLimit)/64-want.Miter) > 1.2/64 {
		return fmt.Errorf("miter limit %v, want %v", float64(got.Join.MiterLimit)/64, want.Miter)
	}
	if fields&fDash != 0 {
		if len(got.Dash.Dash) != len(want.Dash) {
			return fmt.Errorf("dashes %v, want %v", got.Dash.Dash, want.Dash)
		}
		for i := range want.Dash {
			if !relEq(got.Dash.Dash[i], want.Dash[i], 1e-6) {
				return fmt.Errorf("dashes %v, want %v", got.Dash.Dash, want.Dash)
			}
		}
		if !relEq(got.Dash.DashOffset, want.DashOff, 1e-6) {
			return fmt.Errorf("dash offset %v, want %v", got.Dash.DashOffset, want.DashOff)
		}
	}
	if fields&fMasks != 0 {
		if len(got.Masks) != len(want.Masks) {
			return fmt.Errorf("masks %q, want %q", got.Masks, want.Masks)
		}
		for i := range want.Masks {
			if got.Masks[i] != want.Masks[i] {
				return fmt.Errorf("masks %q, want %q", got.Masks, want.Masks)
			}
		}
	}
	if fields&fXf != 0 && !matNear(toMat(got.Transform), want.M, 1e-6) {
		return fmt.Errorf("transform %v, want %v", got.Transform, want.M)
	}
	return nil
}

// cmpPaths compares the drawn paths with the reference, in document order.
func cmpPaths(got []svg.SvgPath, want []RPath, ev *evaluator, fields int, geometry bool) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d paths drawn, want %d", len(got), len(want))
	}
	for i := range want {
		if err := cmpStyle(got[i].Style, want[i].Style, fields); err != nil {
			return fmt.Errorf("path %d (%s): %v", i, want[i].Shape.Kind, err)
		}
		if geometry {
			if err := matchShape(got[i].Path, ev.resolve(want[i].Shape)); err != nil {
				return fmt.Errorf("path %d (%s): %v", i, want[i].Shape.Kind, err)
			}
		}
	}
	return nil
}

// sameSvg compares two parse results on everything a caller can observe.
func sameSvg(a, b *svg.Svg) error {
	if (a == nil) != (b == nil) {
		return fmt.Errorf("one result is nil: %v / %v", a == nil, b == nil)
	}
	if a == nil {
		return nil
	}
	pub := func(s *svg.Svg) []any {
		return []any{s.ViewBox, s.Titles, s.Descriptions, s.SvgPaths, s.Transform, s.SvgMasks, s.Width, s.Height}
	}
	names := []string{"ViewBox", "Titles", "Descriptions", "SvgPaths", "Transform", "SvgMasks", "Width", "Height"}
	pa, pb := pub(a), pub(b)
	for i := range pa {
		if !deepSame(pa[i], pb[i]) {
			return fmt.Errorf("%s differs:\n %s\n %s", names[i], clip(fmt.Sprintf("%+v", pa[i])), clip(fmt.Sprintf("%+v", pb[i])))
		}
	}
	return nil
}

// deepSame is reflect.DeepEqual that treats NaN as equal to itself and a nil
// slice as equal to an empty one.
func deepSame(a, b any) bool {
	return valueSame(reflect.ValueOf(a), reflect.ValueOf(b))
}

func valueSame(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float64, reflect.Float32:
		x, y := a.Float(), b.Float()
		return x == y || (math.IsNaN(x) && math.IsNaN(y))
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !valueSame(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !valueSame(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !valueSame(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() || !valueSame(a.MapIndex(k), bv) {
				return false
			}
		}
		return true
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return valueSame(a.Elem(), b.Elem())
	case reflect.Func:
		return a.IsNil() == b.IsNil()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
