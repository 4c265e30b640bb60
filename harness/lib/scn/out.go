package scn

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/signintech/pdft"
	zz "github.com/signintech/pdft/zzverif"
)

// Out is a saved and parsed document of a session.
type Out struct {
	S *Sess
	B []byte
	D *zz.Doc
	P []zz.Page
}

// CheckPages: the pages are the expected ones, in order, with their attributes.
func (o *Out) CheckPages() {
	s, c := o.S, o.S.C
	c.Check(len(o.P) == len(s.Pages), "pagecount", "the output has %d pages, expected %d", len(o.P), len(s.Pages))
	for i, p := range o.P {
		in := s.In.Pages[s.Pages[i]]
		tag, _ := p.D["Tag"].(zz.Name)
		c.Check(string(tag) == in.Tag, "pageorder", "page %d of the output is input page %s, expected %s", i+1, tag, in.Tag)
		if in.BoxKnown {
			box, _ := o.D.Inherited(p, "MediaBox").(zz.Array)
			c.Check(len(box) == 4, "mediabox", "page %d: /MediaBox %v", i+1, box)
			for k := 0; k < 4; k++ {
				c.Check(math.Abs(numOf(box[k])-in.Box[k]) < 1e-6, "mediabox", "page %d: /MediaBox %v, expected %v", i+1, box, in.Box)
			}
		}
	}
}

func numOf(v interface{}) float64 {
	switch x := v.(type) {
	case int:
		return float64(x)
	case float64:
		return x
	}
	return math.NaN()
}

// CheckLinks: every reference resolves.
func (o *Out) CheckLinks() {
	d := o.D.Dangling()
	o.S.C.Check(len(d) == 0, "dangling", "references to missing objects %v", d)
}

// CheckObjects: objects of the input that no operation concerns are unchanged.
func (o *Out) CheckObjects() {
	s, c := o.S, o.S.C
	in, err := zz.ReadIn(s.In.B)
	c.NoErr(err, "input")
	// resources, pages and their contents may be edited; bystanders may not
	touch := map[int]bool{}
	var mark func(v interface{})
	mark = func(v interface{}) {
		switch x := v.(type) {
		case zz.Ref:
			if touch[x.Num] {
				return
			}
			touch[x.Num] = true
			mark(in.Get(x))
		case zz.Dict:
			for k, e := range x {
				switch k {
				case "Kids", "Parent", "Resources", "Font", "XObject", "Contents", "Pages", "Root":
					mark(e)
				}
			}
		case zz.Array:
			for _, e := range x {
				mark(e)
			}
		case *zz.Stream:
			mark(x.D)
		}
	}
	mark(in.Trailer)
	for _, n := range s.In.Nums {
		if touch[n] {
			// fonts and forms of the input are reached through /Font and /XObject, compare them too
			dd, ok := in.Objs[n].(zz.Dict)
			st, okS := in.Objs[n].(*zz.Stream)
			if !(ok && dd["BaseFont"] != nil || okS && st.D["BBox"] != nil) {
				continue
			}
		}
		a, b := in.Objs[n], o.D.Objs[n]
		c.Check(b != nil, "lost", "object %d of the input is not in the output", n)
		if as, ok := a.(*zz.Stream); ok {
			bs, ok := b.(*zz.Stream)
			c.Check(ok, "changed", "object %d is no longer a stream", n)
			raw, err := o.D.RawData(bs)
			c.NoErr(err, "stream")
			c.Check(bytes.Equal(raw, as.Raw), "changed", "stream %d changed: %q, was %q", n, cut(raw), cut(as.Raw))
			c.Check(same(as.D, bs.D), "changed", "dictionary of stream %d changed: %v, was %v", n, bs.D, as.D)
			continue
		}
		c.Check(same(a, b), "changed", "object %d changed: %v, was %v", n, b, a)
	}
}

func same(a, b interface{}) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func cut(b []byte) []byte {
	if len(b) > 150 {
		return b[:150]
	}
	return b
}

// CheckContent: the original content of each page is preserved in front, and
// pages nothing was added to are unchanged. It returns what was added.
func (o *Out) CheckContent() [][]byte {
	s, c := o.S, o.S.C
	var out [][]byte
	for i, p := range o.P {
		in := s.In.Pages[s.Pages[i]]
		got, err := o.D.Content(p)
		c.NoErr(err, "content")
		n := 0
		for _, it := range s.Items {
			if pageOf(it) == i+1 {
				n++
			}
		}
		if n == 0 {
			c.Check(bytes.Equal(got, in.Content), "untouched", "page %d was not drawn on but its content changed: %q, was %q", i+1, cut(got), cut(in.Content))
			out = append(out, nil)
			continue
		}
		add, err := zz.Appended(got, in.Content)
		if err != nil {
			c.Fail("original", "page %d: %v", i+1, err)
		}
		out = append(out, add)
	}
	return out
}

func pageOf(it interface{}) int {
	switch x := it.(type) {
	case Text:
		return x.Page
	case Image:
		return x.Page
	}
	return 1
}

// Drawn is what was added to a page, matched to the items of the session.
type Drawn struct {
	Page int
	Item interface{}
	T    zz.TextDraw
	I    zz.ImgDraw
	W    zz.LineWidth
	R    []zz.Rect4
	L    []zz.Line
}

// Match parses the added content and matches it with the items in order. Only
// the number and kind of things is checked here.
func (o *Out) Match() []Drawn {
	s, c := o.S, o.S.C
	added := o.CheckContent()
	var out []Drawn
	for i := range o.P {
		ds, err := zz.Draws(added[i])
		if err != nil {
			c.Fail("operators", "page %d: %v in %q", i+1, err, cut(added[i]))
		}
		k := 0
		next := func(what string) interface{} {
			if k >= len(ds) {
				c.Fail("missing", "page %d: %s is missing, drawn: %v", i+1, what, ds)
			}
			k++
			return ds[k-1]
		}
		for _, it := range s.Items {
			if pageOf(it) != i+1 {
				continue
			}
			d := Drawn{Page: i + 1, Item: it}
			switch x := it.(type) {
			case LineStyle:
				if _, ok := next("dash").(zz.Dash); !ok {
					c.Fail("linestyle", "page %d: no dash pattern where expected: %v", i+1, ds[k-1])
				}
				w, ok := next("line width").(zz.LineWidth)
				c.Check(ok, "linestyle", "page %d: no line width where expected", i+1)
				d.W = w
			case Image:
				im, ok := next("image").(zz.ImgDraw)
				c.Check(ok, "order", "page %d: %v where an image is expected", i+1, ds[k-1])
				d.I = im
			case Text:
				t, ok := next(fmt.Sprintf("text %q", x.Text)).(zz.TextDraw)
				c.Check(ok, "order", "page %d: %v where text %q is expected", i+1, ds[k-1], x.Text)
				d.T = t
				for k < len(ds) {
					if r, ok := ds[k].(zz.Rect4); ok {
						d.R = append(d.R, r)
					} else if l, ok := ds[k].(zz.Line); ok {
						d.L = append(d.L, l)
					} else {
						break
					}
					k++
				}
			}
			out = append(out, d)
		}
		if k < len(ds) {
			c.Fail("extra", "page %d: %v is drawn too", i+1, ds[k])
		}
	}
	return out
}

// CheckCodes: the texts show the glyphs of their characters in order, with
// the kerning and text rise asked for.
func (o *Out) CheckCodes(ds []Drawn) {
	s, c := o.S, o.S.C
	for _, d := range ds {
		t, ok := d.Item.(Text)
		if !ok {
			continue
		}
		m := s.Fonts[t.Font]
		rs := []rune(t.Text)
		var want []int
		for _, r := range rs {
			want = append(want, m.F.Lookup(r))
		}
		c.Check(fmt.Sprint(want) == fmt.Sprint(d.T.Codes), "glyphs", "text %q: glyphs %v, expected %v", t.Text, d.T.Codes, want)
		for i := range rs {
			k := 0
			l := rune(0)
			if i > 0 {
				k = m.Pair(rs[i-1], rs[i])
				l = rs[i-1]
			}
			c.Check(d.T.Adjust[i] == float64(-k), "kern", "text %q: adjustment %v before character %d, kerning %d", t.Text, d.T.Adjust[i], i, k)
			if m.Rise != 0 {
				w := float64(RiseFn(m.Rise, l, rs[i], t.Size, i))
				c.Check(zz.Near(d.T.Rise[i], w), "rise", "text %q: rise %v at character %d, expected %v", t.Text, d.T.Rise[i], i, w)
			} else {
				c.Check(d.T.Rise[i] == 0, "rise", "text %q: rise %v at character %d", t.Text, d.T.Rise[i], i)
			}
		}
		f, _ := s.fontOf(o, d)
		c.Check(f != "" && f == t.Font, "font", "text %q is set in %q, expected %q", t.Text, f, t.Font)
		c.Check(d.T.Size == float64(t.Size), "size", "text %q: size %v, expected %d", t.Text, d.T.Size, t.Size)
	}
}

// fontOf finds which of the session's fonts a drawn text uses.
func (s *Sess) fontOf(o *Out, d Drawn) (string, zz.Dict) {
	v, ok := o.D.Resource(o.P[d.Page-1], "Font", d.T.Font)
	if !ok {
		s.C.Fail("fontresource", "page %d has no font /%s", d.Page, d.T.Font)
	}
	f := o.D.Dict(v)
	for _, n := range s.Names {
		if base, _ := f["BaseFont"].(zz.Name); baseIs(string(base), n) {
			return n, f
		}
	}
	return "", f
}

func baseIs(base, name string) bool {
	i := len(name)
	for _, r := range name {
		_ = r
	}
	_ = i
	return strings.HasSuffix(base, strings.Replace(name, " ", "+", -1)) || strings.HasSuffix(base, name) || strings.HasSuffix(strings.Replace(base, "+", "", -1), strings.Replace(name, " ", "", -1))
}

// CheckGeometry: texts are where alignment and cell say, in the colour, with
// border and underline.
func (o *Out) CheckGeometry(ds []Drawn) {
	s, c := o.S, o.S.C
	for _, d := range ds {
		switch t := d.Item.(type) {
		case LineStyle:
			c.Check(zz.Near(float64(d.W), t.Width), "linewidth", "line width %v, expected %v", d.W, t.Width)
		case Text:
			m := s.Fonts[t.Font]
			tw := m.Width(t.Text, t.Size)
			x := t.X
			if t.Align&pdft.Right == pdft.Right {
				x = t.X + t.W - tw
			} else if t.Align&pdft.Center == pdft.Center {
				x = t.X + t.W/2 - tw/2
			}
			c.Check(zz.Near(d.T.X, x), "x", "text %q (width %.3f) in cell %v %v %v %v align %d: x is %v, expected %v", t.Text, tw, t.X, t.Y, t.W, t.H, t.Align, d.T.X, x)
			em := float64(t.Size) / float64(m.F.UPM)
			asc, desc := float64(m.F.TypoAsc)*em, float64(m.F.TypoDesc)*em
			y := t.PH - t.Y - asc
			if t.Align&pdft.Bottom == pdft.Bottom {
				y = t.PH - t.Y - t.H - desc
			} else if t.Align&pdft.Middle == pdft.Middle {
				y = t.PH - t.Y - t.H/2 - (asc+desc)/2
			}
			c.Check(zz.Near(d.T.Y, y), "y", "text %q in cell %v %v %v %v align %d on a page %v high: y is %v, expected %v", t.Text, t.X, t.Y, t.W, t.H, t.Align, t.PH, d.T.Y, y)
			col := [3]float64{}
			if t.Color != nil {
				col = [3]float64{float64(t.Color.R) / 255, float64(t.Color.G) / 255, float64(t.Color.B) / 255}
			}
			c.Check(len(d.T.Color) == 3, "colour", "text %q: no colour set", t.Text)
			for k := 0; k < 3; k++ {
				c.Check(math.Abs(d.T.Color[k]-col[k]) < 0.0051, "colour", "text %q: colour %v, expected %v", t.Text, d.T.Color, col)
			}
			if strings.Contains(strings.ToUpper(t.Style), "U") {
				c.Check(len(d.R) == 1, "underline", "text %q: %d rectangles for the underline", t.Text, len(d.R))
				r := d.R[0]
				up, ut := float64(m.F.UPos)*em, float64(m.F.UThick)*em
				uy := t.PH - (t.Y - up) - 0.7*float64(t.Size)
				c.Check(zz.Near(r.X, t.X) && zz.Near(r.Y, uy) && zz.Near(r.W, t.W) && zz.Near(r.H, -ut), "underline", "text %q: underline %v, expected %v %v %v %v", t.Text, r, t.X, uy, t.W, -ut)
			} else {
				c.Check(len(d.R) == 0, "underline", "text %q in style %q is underlined", t.Text, t.Style)
			}
			if t.LineWidth > 0 {
				c.Check(len(d.L) == 4, "border", "text %q: %d border lines", t.Text, len(d.L))
				top, bot := t.PH-t.Y, t.PH-t.Y-t.H
				want := []zz.Line{
					{X1: t.X, Y1: top, X2: t.X + t.W, Y2: top}, {X1: t.X, Y1: bot, X2: t.X + t.W, Y2: bot},
					{X1: t.X, Y1: top, X2: t.X, Y2: bot}, {X1: t.X + t.W, Y1: top, X2: t.X + t.W, Y2: bot}}
				used := map[int]bool{}
				for _, w := range want {
					ok := false
					for k, l := range d.L {
						if !used[k] && (nearLine(l, w, t.LineWidth) || nearLine(zz.Line{X1: l.X2, Y1: l.Y2, X2: l.X1, Y2: l.Y1}, w, t.LineWidth)) {
							ok = true
							used[k] = true
							break
						}
					}
					c.Check(ok, "border", "text %q in cell %v %v %v %v: border %v, no line %v", t.Text, t.X, t.Y, t.W, t.H, d.L, w)
				}
			} else {
				c.Check(len(d.L) == 0, "border", "text %q has a border, borders are off", t.Text)
			}
		}
	}
}

// a border line may be longer by half a line width at each end
func nearLine(a, b zz.Line, lw float64) bool {
	h := lw/2 + 0.0051
	f := func(x, y float64) bool { return math.Abs(x-y) <= h }
	return f(a.X1, b.X1) && zz.Near(a.Y1, b.Y1) && f(a.X2, b.X2) && zz.Near(a.Y2, b.Y2)
}

// CheckImages: placement, and that the right pixels are behind the names.
func (o *Out) CheckImages(ds []Drawn, pixels bool) {
	s, c := o.S, o.S.C
	cacheObj := map[string]int{}
	objOf := map[int]*zz.Img{}
	for _, d := range ds {
		t, ok := d.Item.(Image)
		if !ok {
			continue
		}
		want := [6]float64{t.W, 0, 0, t.H, t.X, t.PH - (t.Y + t.H)}
		for k := range want {
			c.Check(zz.Near(d.I.M[k], want[k]), "place", "image on page %d: matrix %v, expected %v (page height %v)", d.Page, d.I.M, want, t.PH)
		}
		in := s.In.Pages[s.Pages[d.Page-1]]
		_, clash := in.XObjs[d.I.Name]
		c.Check(!clash, "name", "page %d: name /%s was in use", d.Page, d.I.Name)
		v, ok := o.D.Resource(o.P[d.Page-1], "XObject", d.I.Name)
		c.Check(ok, "xobject", "page %d has no XObject /%s", d.Page, d.I.Name)
		ref, ok := v.(zz.Ref)
		c.Check(ok, "xobject", "page %d: XObject /%s is %v", d.Page, d.I.Name, v)
		st, ok := o.D.Get(ref).(*zz.Stream)
		c.Check(ok, "xobject", "page %d: XObject /%s is not a stream", d.Page, d.I.Name)
		w, _ := o.D.Get(st.D["Width"]).(int)
		h, _ := o.D.Get(st.D["Height"]).(int)
		c.Check(w == t.Img.W && h == t.Img.H, "image", "page %d: /%s is %dx%d, the image inserted there is %dx%d", d.Page, d.I.Name, w, h, t.Img.W, t.Img.H)
		if prev, ok := objOf[ref.Num]; ok {
			c.Check(bytes.Equal(prev.B, t.Img.B), "image", "page %d: /%s shows another image", d.Page, d.I.Name)
		} else {
			objOf[ref.Num] = t.Img
			if pixels {
				if err := t.Img.CheckEmbedded(o.D, ref); err != nil {
					c.Fail("pixels", "image %s: %v", t.Img.Kind(), err)
				}
			}
		}
		if t.CacheKey != "" {
			if n, ok := cacheObj[t.CacheKey]; ok {
				c.Check(n == ref.Num, "cache", "an image inserted with cache is embedded twice, as objects %d and %d", n, ref.Num)
			}
			cacheObj[t.CacheKey] = ref.Num
		}
	}
}

// CheckResources: what pages had is still there under its name, and the new
// fonts are on every page under free names.
func (o *Out) CheckResources() {
	s, c := o.S, o.S.C
	for i, p := range o.P {
		in := s.In.Pages[s.Pages[i]]
		for n, id := range in.Fonts {
			v, ok := o.D.Resource(p, "Font", n)
			c.Check(ok && v == zz.Ref{Num: id}, "kept", "page %d: font /%s was %d 0 R, is %v", i+1, n, id, v)
		}
		for n, id := range in.XObjs {
			v, ok := o.D.Resource(p, "XObject", n)
			c.Check(ok && v == zz.Ref{Num: id}, "kept", "page %d: XObject /%s was %d 0 R, is %v", i+1, n, id, v)
		}
	}
}

// FontDicts finds the Type0 font of each font of the session (on page 1).
func (o *Out) FontDicts() map[string]zz.Dict {
	s, c := o.S, o.S.C
	out := map[string]zz.Dict{}
	r, _ := o.D.Inherited(o.P[0], "Resources").(zz.Dict)
	fd := o.D.Dict(r["Font"])
	for _, v := range fd {
		f := o.D.Dict(v)
		if f["Subtype"] != zz.Name("Type0") {
			continue
		}
		base, _ := f["BaseFont"].(zz.Name)
		for _, n := range s.Names {
			if baseIs(string(base), n) {
				out[n] = f
			}
		}
	}
	for _, n := range s.Names {
		c.Check(out[n] != nil, "font", "font %q is not in the resources of page 1", n)
	}
	return out
}

// CheckFonts checks the font objects; what selects the part.
func (o *Out) CheckFonts(what string) {
	s, c := o.S, o.S.C
	d := o.D
	for name, f := range o.FontDicts() {
		m := s.Fonts[name]
		if len(m.Used) == 0 {
			continue
		}
		c.Check(f["Encoding"] == zz.Name("Identity-H"), "encoding", "font %q: /Encoding %v", name, f["Encoding"])
		df := d.Arr(f["DescendantFonts"])
		c.Check(len(df) == 1, "descendant", "font %q: /DescendantFonts %v", name, f["DescendantFonts"])
		cid := d.Dict(df[0])
		c.Check(cid["Subtype"] == zz.Name("CIDFontType2"), "descendant", "font %q: descendant %v", name, cid)
		desc := d.Dict(cid["FontDescriptor"])
		c.Check(desc["Type"] == zz.Name("FontDescriptor"), "descriptor", "font %q: descriptor %v", name, desc)
		var used []int
		for r := range m.Used {
			used = append(used, m.F.Lookup(r))
		}
		sort.Ints(used)
		switch what {
		case "program":
			st, ok := d.Get(desc["FontFile2"]).(*zz.Stream)
			c.Check(ok, "fontfile", "font %q: no font program", name)
			b, err := d.Data(st)
			c.NoErr(err, "fontfile")
			l1, _ := d.Get(st.D["Length1"]).(int)
			c.Check(l1 == len(b), "length1", "font %q: /Length1 %v, the program has %d bytes", name, st.D["Length1"], len(b))
			if err := m.F.CheckProgram(b, used); err != nil {
				c.Fail("program", "font %q, glyphs %v: %v", name, used, err)
			}
		case "metrics":
			ws, err := widths(d, cid["W"])
			c.NoErr(err, "w")
			for _, g := range used {
				w, ok := ws[g]
				c.Check(ok && w == float64(m.F.Width(g)), "width", "font %q: width of glyph %d is %v (present %v), the font says %d of %d", name, g, w, ok, m.F.Adv[g], m.F.UPM)
			}
			for g, w := range ws {
				c.Check(g < len(m.F.Adv) && w == float64(m.F.Width(g)), "width", "font %q: width of glyph %d is %v", name, g, w)
			}
			si := d.Dict(cid["CIDSystemInfo"])
			c.Check(si != nil, "systeminfo", "font %q: no CIDSystemInfo", name)
			r3 := func(v int) int {
				x := float64(v) * 1000 / float64(m.F.UPM)
				return int(math.Floor(math.Abs(x)+0.5) * math.Copysign(1, x))
			}
			geti := func(k string) int { v, _ := d.Get(desc[k]).(int); return v }
			c.Check(geti("Ascent") == r3(m.F.WinAsc), "ascent", "font %q: /Ascent %v, the font says %d of %d", name, desc["Ascent"], m.F.WinAsc, m.F.UPM)
			c.Check(geti("Descent") == r3(-m.F.WinDesc), "descent", "font %q: /Descent %v, the font says %d of %d", name, desc["Descent"], -m.F.WinDesc, m.F.UPM)
			if m.F.OS2V >= 2 {
				c.Check(geti("CapHeight") == r3(m.F.Cap), "capheight", "font %q: /CapHeight %v, the font says %d of %d", name, desc["CapHeight"], m.F.Cap, m.F.UPM)
				c.Check(geti("XHeight") == r3(m.F.XH), "xheight", "font %q: /XHeight %v, the font says %d of %d", name, desc["XHeight"], m.F.XH, m.F.UPM)
			}
			c.Check(geti("ItalicAngle") == m.F.Italic, "italic", "font %q: /ItalicAngle %v, the font says %d", name, desc["ItalicAngle"], m.F.Italic)
			bb := d.Arr(desc["FontBBox"])
			c.Check(len(bb) == 4, "bbox", "font %q: /FontBBox %v", name, bb)
			for k := 0; k < 4; k++ {
				c.Check(numOf(bb[k]) == float64(r3(m.F.BBox[k])), "bbox", "font %q: /FontBBox %v, the font says %v of %d", name, bb, m.F.BBox, m.F.UPM)
			}
			c.Check(f["BaseFont"] == cid["BaseFont"] && f["BaseFont"] == desc["FontName"], "name", "font %q: names %v %v %v", name, f["BaseFont"], cid["BaseFont"], desc["FontName"])
		case "unicode":
			st, ok := d.Get(f["ToUnicode"]).(*zz.Stream)
			c.Check(ok, "tounicode", "font %q: no ToUnicode", name)
			b, err := d.Data(st)
			c.NoErr(err, "tounicode")
			mp, err := ToUnicode(b)
			c.NoErr(err, "tounicode")
			byg := map[int][]rune{}
			for r := range m.Used {
				g := m.F.Lookup(r)
				byg[g] = append(byg[g], r)
			}
			for g, rs := range byg {
				got := []rune(mp[g])
				ok := false
				for _, r := range rs {
					if len(got) == 1 && got[0] == r {
						ok = true
					}
				}
				c.Check(ok, "tounicode", "font %q: glyph %d reads %q, it stands for %q", name, g, string(got), string(rs))
			}
			for g, str := range mp {
				rs := []rune(str)
				c.Check(len(rs) == 1 && m.F.Lookup(rs[0]) == g, "tounicode", "font %q: glyph %d reads %q", name, g, str)
			}
		}
	}
}

func widths(d *zz.Doc, v interface{}) (map[int]float64, error) {
	a := d.Arr(v)
	if a == nil {
		return nil, fmt.Errorf("/W is %v", v)
	}
	out := map[int]float64{}
	i := 0
	for i < len(a) {
		g, ok := a[i].(int)
		if !ok || i+1 >= len(a) {
			return nil, fmt.Errorf("/W element %v", a[i])
		}
		if l, ok := d.Get(a[i+1]).(zz.Array); ok {
			for k, w := range l {
				out[g+k] = numOf(w)
			}
			i += 2
			continue
		}
		if i+2 >= len(a) {
			return nil, fmt.Errorf("/W ends early")
		}
		z, _ := a[i+1].(int)
		for k := g; k <= z; k++ {
			out[k] = numOf(a[i+2])
		}
		i += 3
	}
	return out, nil
}

// ToUnicode reads a ToUnicode CMap: code to text.
func ToUnicode(b []byte) (map[int]string, error) {
	out := map[int]string{}
	toks := strings.Fields(strings.NewReplacer("<", " <", ">", "> ", "[", " [ ", "]", " ] ").Replace(string(b)))
	hex := func(s string) (int, int, error) {
		if len(s) < 2 || s[0] != '<' || s[len(s)-1] != '>' {
			return 0, 0, fmt.Errorf("ToUnicode: %q is no code", s)
		}
		v, err := strconv.ParseInt(s[1:len(s)-1], 16, 64)
		return int(v), (len(s) - 2) / 2, err
	}
	text := func(s string) (string, error) {
		if len(s) < 2 || s[0] != '<' || s[len(s)-1] != '>' || (len(s)-2)%4 != 0 {
			return "", fmt.Errorf("ToUnicode: %q is no UTF-16 text", s)
		}
		h := s[1 : len(s)-1]
		var rs []rune
		for i := 0; i < len(h); i += 4 {
			v, err := strconv.ParseInt(h[i:i+4], 16, 32)
			if err != nil {
				return "", err
			}
			if v >= 0xDC00 && v < 0xE000 && len(rs) > 0 && rs[len(rs)-1] >= 0xD800 && rs[len(rs)-1] < 0xDC00 {
				rs[len(rs)-1] = 0x10000 + (rs[len(rs)-1]-0xD800)<<10 + rune(v) - 0xDC00
				continue
			}
			rs = append(rs, rune(v))
		}
		var sb strings.Builder
		for _, r := range rs {
			sb.WriteRune(r)
		}
		return sb.String(), nil
	}
	lo, hi := -1, -1
	for i := 0; i < len(toks); i++ {
		switch toks[i] {
		case "begincodespacerange":
			a, na, err := hex(toks[i+1])
			if err != nil {
				return nil, err
			}
			z, nz, err := hex(toks[i+2])
			if err != nil {
				return nil, err
			}
			if na != 2 || nz != 2 {
				return nil, fmt.Errorf("ToUnicode: codes are not two bytes")
			}
			lo, hi = a, z
		case "beginbfrange", "beginbfchar":
			n, err := strconv.Atoi(toks[i-1])
			if err != nil {
				return nil, err
			}
			end := "endbfrange"
			w := 3
			if toks[i] == "beginbfchar" {
				end, w = "endbfchar", 2
			}
			j := i + 1
			cnt := 0
			for toks[j] != end {
				a, na, err := hex(toks[j])
				if err != nil {
					return nil, err
				}
				z, nz := a, na
				if w == 3 {
					z, nz, err = hex(toks[j+1])
					if err != nil {
						return nil, err
					}
				}
				if na != 2 || nz != 2 {
					return nil, fmt.Errorf("ToUnicode: codes are not two bytes")
				}
				t, err := text(toks[j+w-1])
				if err != nil {
					return nil, err
				}
				for k := a; k <= z; k++ {
					rs := []rune(t)
					rs[len(rs)-1] += rune(k - a)
					if lo > k || hi < k {
						return nil, fmt.Errorf("ToUnicode: code %04X outside the code space %04X..%04X", k, lo, hi)
					}
					out[k] = string(rs)
				}
				j += w
				cnt++
			}
			if cnt != n {
				return nil, fmt.Errorf("ToUnicode: %d entries announced, %d given", n, cnt)
			}
			i = j
		}
	}
	return out, nil
}

// CheckWrap: the lines of wrapped text that were drawn fit the width unless
// they are a single token (the exact layout is checked through the items).
func (o *Out) CheckWrap(ds []Drawn) {
	s, c := o.S, o.S.C
	for i, d := range ds {
		t, ok := d.Item.(Text)
		if !ok || !t.Wrapped {
			continue
		}
		if i > 0 {
			p, ok := ds[i-1].Item.(Text)
			if ok && p.Wrapped && p.Page == t.Page && p.X == t.X && p.W == t.W && p.Y < t.Y {
				c.Check(d.T.Y < ds[i-1].T.Y+1e-9, "lineorder", "line %q is not below %q", t.Text, p.Text)
			}
		}
	}
	_ = s
}
