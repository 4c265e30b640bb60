package zzverif

import (
	"bytes"
	"fmt"
	"math"
)

// TextDraw is a BT ... ET block.
type TextDraw struct {
	X, Y    float64
	Font    string
	Size    float64
	Color   []float64 // nil: not set
	Codes   []int     // two-byte codes in order
	Adjust  []float64 // TJ adjustment before code i
	Rise    []float64 // text rise at code i
	HasRise bool
}

// ImgDraw is a Do of an XObject under a matrix.
type ImgDraw struct {
	M    [6]float64
	Name string
}

// Line is m l s, Rect is re f.
type Line struct{ X1, Y1, X2, Y2 float64 }
type Rect4 struct{ X, Y, W, H float64 }

// Drawn is the content in order; each element is TextDraw, ImgDraw, Line,
// Rect4, LineWidth or Dash.
type LineWidth float64
type Dash string

func Near(a, b float64) bool { return math.Abs(a-b) <= 0.00501+1e-9*math.Abs(b) }

// Draws interprets content the library writes.
func Draws(b []byte) ([]interface{}, error) {
	ops, err := Ops(b)
	if err != nil {
		return nil, err
	}
	var out []interface{}
	var t *TextDraw
	rise, adj := 0.0, 0.0
	type st struct{ m [6]float64 }
	ctm := [6]float64{1, 0, 0, 1, 0, 0}
	var stack [][6]float64
	var mx, my float64
	haveM := false
	var line *Line
	var rect *Rect4
	for i, o := range ops {
		bad := func(f string, a ...interface{}) error {
			return fmt.Errorf("operator %d (%s %v): %s", i, o.Op, o.Args, fmt.Sprintf(f, a...))
		}
		want := func(n int) bool {
			if len(o.Args) != n {
				return false
			}
			return true
		}
		switch o.Op {
		case "q":
			stack = append(stack, ctm)
		case "Q":
			if len(stack) == 0 {
				return nil, bad("nothing saved")
			}
			ctm = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			if !want(6) {
				return nil, bad("operands")
			}
			var m [6]float64
			for k := range m {
				m[k] = o.Num(k)
			}
			ctm = mul(m, ctm)
		case "Do":
			if !want(1) {
				return nil, bad("operands")
			}
			n, ok := o.Args[0].(Name)
			if !ok {
				return nil, bad("name")
			}
			out = append(out, ImgDraw{ctm, string(n)})
		case "BT":
			if t != nil {
				return nil, bad("nested BT")
			}
			t = &TextDraw{}
			rise, adj = 0, 0
		case "ET":
			if t == nil {
				return nil, bad("ET without BT")
			}
			if adj != 0 {
				return nil, bad("adjustment after the last code")
			}
			out = append(out, *t)
			t = nil
		case "TD", "Td":
			if t == nil || !want(2) {
				return nil, bad("operands or place")
			}
			t.X += o.Num(0)
			t.Y += o.Num(1)
		case "Tf":
			if t == nil || !want(2) {
				return nil, bad("operands or place")
			}
			n, ok := o.Args[0].(Name)
			if !ok {
				return nil, bad("font")
			}
			t.Font = string(n)
			t.Size = o.Num(1)
		case "Ts":
			if t == nil || !want(1) {
				return nil, bad("operands or place")
			}
			rise = o.Num(0)
			t.HasRise = true
		case "rg":
			if !want(3) {
				return nil, bad("operands")
			}
			if t != nil {
				t.Color = []float64{o.Num(0), o.Num(1), o.Num(2)}
			}
		case "g", "G", "RG":
		case "TJ":
			if t == nil || !want(1) {
				return nil, bad("operands or place")
			}
			a, ok := o.Args[0].(Array)
			if !ok {
				return nil, bad("array")
			}
			for _, e := range a {
				switch x := e.(type) {
				case int:
					adj += float64(x)
				case float64:
					adj += x
				case []byte:
					if len(x)%2 != 0 {
						return nil, bad("odd number of bytes in a two-byte string")
					}
					for k := 0; k < len(x); k += 2 {
						t.Codes = append(t.Codes, int(x[k])<<8|int(x[k+1]))
						t.Adjust = append(t.Adjust, adj)
						t.Rise = append(t.Rise, rise)
						adj = 0
					}
				default:
					return nil, bad("element %v", e)
				}
			}
		case "m":
			if !want(2) {
				return nil, bad("operands")
			}
			mx, my = o.Num(0), o.Num(1)
			haveM = true
		case "l":
			if !want(2) || !haveM {
				return nil, bad("operands or place")
			}
			line = &Line{mx, my, o.Num(0), o.Num(1)}
		case "s", "S":
			if line == nil {
				return nil, bad("nothing to stroke")
			}
			out = append(out, *line)
			line = nil
			haveM = false
		case "re":
			if !want(4) {
				return nil, bad("operands")
			}
			rect = &Rect4{o.Num(0), o.Num(1), o.Num(2), o.Num(3)}
		case "f":
			if rect == nil {
				return nil, bad("nothing to fill")
			}
			out = append(out, *rect)
			rect = nil
		case "w":
			if !want(1) {
				return nil, bad("operands")
			}
			out = append(out, LineWidth(o.Num(0)))
		case "d":
			if !want(2) {
				return nil, bad("operands")
			}
			out = append(out, Dash(fmt.Sprint(o.Args...)))
		default:
			return nil, bad("unknown operator")
		}
	}
	if t != nil || len(stack) != 0 {
		return nil, fmt.Errorf("content ends inside BT or q")
	}
	return out, nil
}

func mul(a, b [6]float64) [6]float64 {
	return [6]float64{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5],
	}
}

// Appended splits the content of an output page into the original content and
// what was added. The original must be there byte for byte, in front.
func Appended(out, orig []byte) ([]byte, error) {
	if !bytes.HasPrefix(out, orig) {
		return nil, fmt.Errorf("the original content is not preserved: %d bytes, output begins %q, original %q", len(orig), cut(out), cut(orig))
	}
	rest := out[len(orig):]
	if len(rest) > 0 && len(orig) > 0 && !isSpace(rest[0]) && !isSpace(orig[len(orig)-1]) {
		return nil, fmt.Errorf("added content is not separated from the original")
	}
	return rest, nil
}

func cut(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

// Only filters the elements of one kind.
func Texts(d []interface{}) (out []TextDraw) {
	for _, e := range d {
		if t, ok := e.(TextDraw); ok {
			out = append(out, t)
		}
	}
	return
}
func Imgs(d []interface{}) (out []ImgDraw) {
	for _, e := range d {
		if t, ok := e.(ImgDraw); ok {
			out = append(out, t)
		}
	}
	return
}
func Lines(d []interface{}) (out []Line) {
	for _, e := range d {
		if t, ok := e.(Line); ok {
			out = append(out, t)
		}
	}
	return
}
func Rects(d []interface{}) (out []Rect4) {
	for _, e := range d {
		if t, ok := e.(Rect4); ok {
			out = append(out, t)
		}
	}
	return
}
