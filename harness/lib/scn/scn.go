// Package scn drives the exported API of pdft with random sessions and keeps
// beside it what the documentation says must come out.
package scn

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math"
	"strings"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/textbreak"
	zz "github.com/signintech/pdft/zzverif"
)

// Text is one line of text expected on a page.
type Text struct {
	Page       int // 1-based
	Text       string
	X, Y, W, H float64
	Align      int
	Color      *pdft.FontColor
	Font       string
	Size       int
	Style      string
	LineWidth  float64
	PH         float64 // page height
	Wrapped    bool
	WUnits     int // width of the cell in thousandths of the font size when it is that of a text, else -1
}

// Image is one image expected on a page.
type Image struct {
	Page       int
	Img        *zz.Img
	X, Y, W, H float64
	PH         float64
	CacheKey   string // not empty: drawn from the cache
}

// LineStyle is what ShowCellBorder leaves on page 1.
type LineStyle struct{ Width float64 }

// FontM is a font added to the session.
type FontM struct {
	F    *zz.Font
	Kern int // 0: no override, else the seed of the kerning function
	Rise int
	Used map[rune]bool
	Bad  string // set by a callback that got wrong arguments
}

// Opt says what a session does.
type Opt struct {
	Doc                 zz.GenOpt
	PageOps             bool
	Fonts               int // maximum number of fonts
	Texts, Wraps, Imgs  int // maximum numbers
	Borders, Kern, Rise bool
	Protect             bool
	Measure             bool
	BadCalls            bool // calls that must be refused
	ExactFonts          bool
	Single              bool // one page only for all insertions
	Middle              bool
}

// Sess is a running session.
type Sess struct {
	C     *zz.C
	T     *pdft.PDFt
	In    *zz.InDoc
	Pages []int // current pages, as indexes of In.Pages
	Items []interface{}
	Fonts map[string]*FontM
	Names []string
	Prot  bool
	User  []byte
	Owner []byte
	Perm  int

	cur       string
	curStyle  string
	curSize   int
	lineWidth float64
}

// KernFn and RiseFn are the override functions sessions install.
func KernFn(seed int, l, r rune) int16 {
	v := (int(l)*31 + int(r)*17 + seed) % 601
	if v%5 == 0 {
		return 0
	}
	return int16(v - 300)
}
func RiseFn(seed int, l, r rune, size, idx int) float32 {
	return float32((int(r)+int(l)*3+seed+size*7+idx*11)%40)*0.25 - 5
}

// Alphabet is a random set of characters.
func Alphabet(c *zz.C) []rune {
	var rs []rune
	seen := map[rune]bool{}
	add := func(r rune) {
		if !seen[r] {
			seen[r] = true
			rs = append(rs, r)
		}
	}
	add(' ')
	base := rune(c.PickInt('A', 'a', 0x0E01, 0x410, 0x4E00, 0xAC00, 0xE000))
	for i := 0; i < 12; i++ {
		add(base + rune(c.Intn(20)))
	}
	for i := 0; i < 6; i++ {
		add(rune('a' + c.Intn(26)))
	}
	add('-')
	if c.Bool() {
		for i := 0; i < 4; i++ {
			add(0x1F600 + rune(c.Intn(40)))
		}
	}
	if c.Intn(4) == 0 {
		add(0xFFFD)
		add(0xFB01)
	}
	return rs
}

// Open opens a new document in a new session.
func Open(c *zz.C, o Opt) *Sess {
	s := &Sess{C: c, T: &pdft.PDFt{}, Fonts: map[string]*FontM{}}
	s.In = zz.GenDoc(c.R, o.Doc)
	for i := range s.In.Pages {
		s.Pages = append(s.Pages, i)
	}
	c.NoErr(s.T.OpenFrom(bytes.NewReader(s.In.B)), "open")
	s.Items = append(s.Items, LineStyle{0})
	return s
}

// Attach makes a session of a document that was opened otherwise.
func Attach(c *zz.C, in *zz.InDoc, t *pdft.PDFt) *Sess {
	s := &Sess{C: c, T: t, In: in, Fonts: map[string]*FontM{}}
	for i := range s.In.Pages {
		s.Pages = append(s.Pages, i)
	}
	s.Items = append(s.Items, LineStyle{0})
	return s
}

// Layout is what InsertWrapText makes of a text.
func (s *Sess) Layout(t Text, text string, toks []string, single bool) []interface{} {
	t.Wrapped = true
	t.WUnits = -1
	return s.wrapLines(t, text, toks, single)
}

// More adds more content to a running session.
func (s *Sess) More(n int, runes []rune) {
	c := s.C
	for ; n > 0; n-- {
		switch {
		case len(s.Names) > 0 && c.Intn(3) != 0:
			s.Insert(s.RandText(runes, 12), c.Range(1, len(s.Pages)))
		case c.Bool():
			s.Border(c.Bool())
		default:
			s.InsertImage(zz.GenPNG(c.R), c.Range(1, len(s.Pages)))
		}
	}
}

// Height is the height of the current page n (1-based).
func (s *Sess) Height(n int) float64 {
	if n < 1 || n > len(s.Pages) {
		return 841.89
	}
	return s.In.Pages[s.Pages[n-1]].Height()
}

// PageOps does some page operations.
func (s *Sess) PageOps(n int) {
	for ; n > 0; n-- {
		s.PageOp()
	}
}

// PageOp does one page operation, good or bad.
func (s *Sess) PageOp() {
	c := s.C
	k := len(s.Pages)
	num := c.Range(1, k)
	if c.Intn(4) == 0 {
		num = c.PickInt(0, -1, k+1, k+2, -k, math.MaxInt32, -5)
	}
	ok := num >= 1 && num <= k
	var err error
	switch c.Intn(3) {
	case 0:
		if ok && k == 1 {
			return // an empty document is of no use
		}
		c.Desc("RemovePage(%d) of %d", num, k)
		err = s.T.RemovePage(num)
		if ok {
			s.Pages = append(append([]int{}, s.Pages[:num-1]...), s.Pages[num:]...)
		} else {
			c.Check(err == pdft.ErrNoDesiredPageToRemove, "refuse", "RemovePage(%d) of %d pages: error %v", num, k, err)
		}
	case 1:
		if ok && c.Intn(3) != 0 {
			return
		}
		c.Desc("RemoveOtherPages(%d) of %d", num, k)
		err = s.T.RemoveOtherPages(num)
		if ok {
			s.Pages = []int{s.Pages[num-1]}
		} else {
			c.Check(err == pdft.ErrNoDesiredPageToKeep, "refuse", "RemoveOtherPages(%d) of %d pages: error %v", num, k, err)
		}
	case 2:
		if k > 8 {
			return
		}
		pos := c.Range(0, k-1)
		if c.Intn(3) == 0 {
			pos = c.Range(-k, -1)
		}
		if c.Intn(5) == 0 {
			pos = c.PickInt(k, k+1, -k-1, -k-3)
		}
		okp := pos >= -k && pos < k
		if ok {
			p := s.In.Pages[s.Pages[num-1]]
			if !p.HasCont || p.ArrCont {
				return // refused by the library, documented limit
			}
		}
		c.Desc("DuplicatePageAfter(%d, %d) of %d", num, pos, k)
		err = s.T.DuplicatePageAfter(num, pos)
		if ok && okp {
			if pos < 0 {
				pos += k
			}
			src := s.Pages[num-1]
			np := append([]int{}, s.Pages[:pos+1]...)
			np = append(np, src)
			np = append(np, s.Pages[pos+1:]...)
			s.Pages = np
		} else {
			c.Check(err == pdft.ErrNoDesiredPageToCopy, "refuse", "DuplicatePageAfter(%d, %d) of %d pages: error %v", num, pos, k, err)
			ok = false
		}
	}
	if ok {
		c.NoErr(err, "pageop")
	}
	c.Check(s.T.GetNumberOfPage() == len(s.Pages), "count", "GetNumberOfPage()=%d, expected %d", s.T.GetNumberOfPage(), len(s.Pages))
}

// AddFont adds a generated font.
func (s *Sess) AddFont(runes []rune, kern, rise bool) string {
	c := s.C
	name := fmt.Sprintf("%s%d", c.PickStr("f", "My Font", "x-", "ก"), len(s.Names))
	f := zz.GenFont(c.R, runes)
	c.Desc("AddFont(%q)", name)
	c.NoErr(s.T.AddFontFrom(name, bytes.NewReader(f.B)), "addfont")
	m := &FontM{F: f, Used: map[rune]bool{}}
	s.Fonts[name] = m
	s.Names = append(s.Names, name)
	if kern && c.Bool() {
		m.Kern = 1 + c.Intn(1000)
		c.Desc("KernOverride(%d)", m.Kern)
		c.NoErr(s.T.KernOverride(name, func(l, r rune, lp, rp uint, v int16) int16 {
			if int(lp) != f.Lookup(l) || int(rp) != f.Lookup(r) {
				m.Bad = fmt.Sprintf("kern callback got runes %q %q with glyphs %d %d, the font says %d %d", l, r, lp, rp, f.Lookup(l), f.Lookup(r))
			}
			return KernFn(m.Kern, l, r)
		}), "kernoverride")
	}
	if rise && c.Intn(3) == 0 {
		m.Rise = 1 + c.Intn(1000)
		c.Desc("TextriseOverride(%d)", m.Rise)
		c.NoErr(s.T.TextriseOverride(name, func(l, r rune, size int, all string, idx int) float32 {
			rs := []rune(all)
			if idx < 0 || idx >= len(rs) || rs[idx] != r || idx > 0 && rs[idx-1] != l {
				m.Bad = fmt.Sprintf("text rise callback got %q %q at %d of %q", l, r, idx, all)
			}
			return RiseFn(m.Rise, l, r, size, idx)
		}), "riseoverride")
	}
	return name
}

// SetFont picks a font, size and style.
func (s *Sess) SetFont(name string) {
	c := s.C
	st := c.PickStr("", "", "B", "I", "BI", "U", "u", "BU", "iu")
	size := c.Range(4, 40)
	c.Desc("SetFont(%q,%q,%d)", name, st, size)
	c.NoErr(s.T.SetFont(name, st, size), "setfont")
	s.cur, s.curStyle, s.curSize = name, st, size
}

// Border switches borders.
func (s *Sess) Border(on bool) {
	s.C.Desc("ShowCellBorder(%v)", on)
	s.T.ShowCellBorder(on)
	s.lineWidth = 0
	if on {
		s.lineWidth = 0.1
	}
	s.Items = append(s.Items, LineStyle{s.lineWidth})
}

// RandText makes a text of characters the font has (mostly).
func (s *Sess) RandText(runes []rune, max int) string {
	c := s.C
	n := c.Intn(max + 1)
	if c.Intn(10) == 0 {
		n = c.Intn(2)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if c.Intn(12) == 0 {
			b.WriteRune(rune(c.PickInt(0x7F, 0x2603, 0x3000, 'Z'+7, 0xFFFE, 0xFFFF, 0xF00)))
		} else {
			b.WriteRune(runes[c.Intn(len(runes))])
		}
	}
	return b.String()
}

// RandAlign is a random alignment.
func (s *Sess) RandAlign() int {
	c := s.C
	return c.PickInt(0, pdft.Left, pdft.Right, pdft.Center) | c.PickInt(0, pdft.Top, pdft.Bottom, pdft.Middle)
}

// RandColor is a random colour, often a special one.
func (s *Sess) RandColor() *pdft.FontColor {
	c := s.C
	switch c.Intn(5) {
	case 0:
		return nil
	case 1:
		return &pdft.FontColor{}
	case 2:
		return &pdft.FontColor{R: c.PickInt(0, 255, 128, 1), G: c.PickInt(0, 255, 128, 56), B: c.PickInt(0, 128, 200, 255)}
	}
	return &pdft.FontColor{R: c.Intn(256), G: c.Intn(256), B: c.Intn(256)}
}

func (s *Sess) num(max float64) float64 {
	c := s.C
	switch c.Intn(4) {
	case 0:
		return float64(c.Intn(int(max)))
	case 1:
		return 0
	}
	return math.Floor(c.Float(0, max)*100) / 100
}

// Insert inserts a text.
func (s *Sess) Insert(text string, page int) {
	c := s.C
	t := Text{Page: page, Text: text, X: s.num(600), Y: s.num(800), W: s.num(300), H: s.num(60), Align: s.RandAlign(), Color: s.RandColor(),
		Font: s.cur, Size: s.curSize, Style: s.curStyle, LineWidth: s.lineWidth, PH: s.Height(page)}
	c.Desc("Insert(%q,page %d,%.2f,%.2f,%.2f,%.2f,align %d,%v)", text, page, t.X, t.Y, t.W, t.H, t.Align, t.Color)
	var col *pdft.FontColor
	if t.Color != nil {
		cp := *t.Color
		col = &cp
	}
	err := s.T.Insert(text, page, t.X, t.Y, t.W, t.H, t.Align, col)
	if s.unset(text) {
		c.Check(err != nil, "noerror", "Insert of a character the font does not have gave no error")
		return
	}
	c.NoErr(err, "insert")
	s.use(text)
	s.Items = append(s.Items, t)
}

func (s *Sess) unset(text string) bool {
	for _, r := range text {
		if s.Fonts[s.cur].F.Lookup(r) < 0 {
			return true
		}
	}
	return false
}

func (s *Sess) use(text string) {
	for _, r := range text {
		s.Fonts[s.cur].Used[r] = true
	}
}

// Units is the width of text in thousandths of the font size.
func (m *FontM) Units(text string) int {
	sum := 0
	prev := rune(0)
	for i, r := range text {
		if i > 0 {
			sum += m.Pair(prev, r)
		}
		sum += m.F.Width(m.F.Lookup(r))
		prev = r
	}
	return sum
}

// Pair is the kerning of two characters in thousandths of the font size.
func (m *FontM) Pair(l, r rune) int {
	if m.Kern == 0 {
		return 0
	}
	return int(KernFn(m.Kern, l, r)) * 1000 / m.F.UPM
}

// Width is the width of a text in points.
func (m *FontM) Width(text string, size int) float64 {
	return float64(m.Units(text)) * float64(size) / 1000
}

// Measure measures a text.
func (s *Sess) Measure(text string) {
	c := s.C
	c.Desc("MeasureTextWidth(%q)", text)
	w, err := s.T.MeasureTextWidth(text)
	if s.unset(text) {
		c.Check(err != nil, "noerror", "measuring a character the font does not have gave no error")
		return
	}
	c.NoErr(err, "measure")
	want := s.Fonts[s.cur].Width(text, s.curSize)
	c.Check(math.Abs(w-want) < 1e-6*(1+math.Abs(want)), "measure", "MeasureTextWidth(%q)=%v at size %d, the advances add up to %v", text, w, s.curSize, want)
}

// Wrap inserts wrapped text; b nil: the basic breaker.
func (s *Sess) Wrap(text string, page int) {
	c := s.C
	t := Text{Page: page, X: s.num(600), Y: s.num(800), W: c.Float(5, 250), H: s.num(60), Align: s.RandAlign(), Color: s.RandColor(),
		Font: s.cur, Size: s.curSize, Style: s.curStyle, LineWidth: s.lineWidth, PH: s.Height(page), Wrapped: true}
	var br textbreak.TextBreaker
	var toks []string
	kind := c.Intn(4)
	switch kind {
	case 0: // no breaker: one line
	case 1:
		fb := &fixedBreaker{}
		rs := []rune(text)
		for len(rs) > 0 {
			k := 1 + c.Intn(4)
			if k > len(rs) {
				k = len(rs)
			}
			if c.Intn(6) == 0 {
				fb.toks = append(fb.toks, "")
			}
			fb.toks = append(fb.toks, string(rs[:k]))
			rs = rs[k:]
		}
		br, toks = fb, fb.toks
	default:
		br = textbreak.BasicTextbreak{}
		var err error
		toks, err = br.BreakTextToToken(text)
		c.NoErr(err, "break")
	}
	t.WUnits = -1
	if k := len(toks); k > 0 && c.Intn(4) == 0 && !s.unset(text) { // as wide as some text that is to go on a line
		i := c.Intn(k)
		part := strings.Join(toks[i:i+1+c.Intn(k-i)], "")
		w, err := s.T.MeasureTextWidth(part)
		c.NoErr(err, "measure")
		t.W, t.WUnits = w, s.Fonts[s.cur].Units(part)
		s.use(part)
	}
	c.Desc("InsertWrapText(%q,page %d,%.2f,%.2f,%.2f,%.2f,align %d,%v, breaker %T %q)", text, page, t.X, t.Y, t.W, t.H, t.Align, t.Color, br, toks)
	err := s.T.InsertWrapText(text, page, t.X, t.Y, t.W, t.H, t.Align, t.Color, br)
	if s.unset(text) {
		c.Check(err != nil, "noerror", "InsertWrapText of a character the font does not have gave no error")
		return
	}
	c.NoErr(err, "wrap")
	s.use(text)
	s.Items = append(s.Items, s.wrapLines(t, text, toks, br == nil)...)
}

type fixedBreaker struct{ toks []string }

func (f *fixedBreaker) BreakTextToToken(text string) ([]string, error) {
	return append([]string{}, f.toks...), nil
}

// wrapLines is the layout InsertWrapText promises: tokens are put on a line as
// long as they fit, lines are 1.2 font sizes apart, and the block is centred
// around the cell for Middle.
func (s *Sess) wrapLines(t Text, text string, toks []string, single bool) []interface{} {
	if single {
		t.Text = text
		t.Wrapped = false
		return []interface{}{t}
	}
	m := s.Fonts[t.Font]
	var lines []string
	cur := ""
	for _, k := range toks {
		if k == "" {
			continue
		}
		over := m.Width(cur+k, t.Size) > t.W
		if t.WUnits >= 0 {
			over = m.Units(cur+k) > t.WUnits
		}
		if over {
			lines = append(lines, cur) // may be empty: the first token alone is too wide
			cur = k
		} else {
			cur += k
		}
	}
	if cur != "" {
		lines = append(lines, cur)
	}
	step := float64(t.Size) * 1.2
	off := 0.0
	if t.Align&pdft.Middle == pdft.Middle {
		off = float64(len(lines))*step/2 - float64(t.Size)/2
	}
	var out []interface{}
	for i, l := range lines {
		x := t
		x.Text = strings.TrimSpace(l)
		x.Y = t.Y + float64(i)*step - off
		out = append(out, x)
	}
	return out
}

// InsertImage inserts an image by one of the three ways.
func (s *Sess) InsertImage(m *zz.Img, page int) {
	c := s.C
	im := Image{Page: page, Img: m, X: s.num(600), Y: s.num(800), W: s.num(300), H: s.num(300), PH: s.Height(page)}
	var err error
	switch c.Intn(3) {
	case 0:
		c.Desc("InsertImg(%s, page %d, %.2f %.2f %.2f %.2f)", m.Kind(), page, im.X, im.Y, im.W, im.H)
		err = s.T.InsertImg(append([]byte{}, m.B...), page, im.X, im.Y, im.W, im.H)
	case 1:
		c.Desc("InsertImgBase64(%s, page %d, %.2f %.2f %.2f %.2f)", m.Kind(), page, im.X, im.Y, im.W, im.H)
		err = s.T.InsertImgBase64(base64.StdEncoding.EncodeToString(m.B), page, im.X, im.Y, im.W, im.H)
	case 2:
		c.Desc("InsertImgWithCache(%s, page %d, %.2f %.2f %.2f %.2f)", m.Kind(), page, im.X, im.Y, im.W, im.H)
		im.CacheKey = string(m.B)
		err = s.T.InsertImgWithCache(append([]byte{}, m.B...), page, im.X, im.Y, im.W, im.H)
	}
	c.NoErr(err, "insertimg")
	s.Items = append(s.Items, im)
}

// Protect sets random protection.
func (s *Sess) Protect() {
	c := s.C
	rb := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.Intn(256))
		}
		return b
	}
	s.User = rb(c.PickInt(0, 1, 5, 16, 31, 32, 33, 40))
	if c.Intn(3) != 0 {
		s.Owner = rb(c.PickInt(1, 5, 16, 31, 32, 33, 40))
	}
	s.Perm = c.PickInt(0, 4, 8, 16, 32, 4|8, 60, 4|32, 16|32, 8|16|32)
	s.Prot = true
	c.Desc("SetProtection(%d, %x, %x)", s.Perm, s.User, s.Owner)
	u, o := append([]byte{}, s.User...), append([]byte{}, s.Owner...)
	c.NoErr(s.T.SetProtection(s.Perm, u, o), "setprotection")
	c.Check(bytes.Equal(u, s.User) && bytes.Equal(o, s.Owner), "passwords", "SetProtection changed the caller's password")
}

// Random runs a whole session up to the save.
func Random(c *zz.C, o Opt) *Sess {
	s := Open(c, o)
	if o.PageOps {
		s.PageOps(c.Intn(5))
	}
	runes := Alphabet(c)
	nf := 0
	if o.Fonts > 0 {
		nf = 1 + c.Intn(o.Fonts)
	}
	for i := 0; i < nf; i++ {
		s.AddFont(runes, o.Kern, o.Rise)
	}
	if nf > 0 {
		s.SetFont(s.Names[c.Intn(nf)])
	}
	if o.Protect && c.Bool() {
		s.Protect()
	}
	var imgs []*zz.Img
	type act func()
	var acts []act
	page := func() int {
		if o.Single {
			return 1
		}
		return c.Range(1, len(s.Pages))
	}
	if nf > 0 {
		for i := 0; i < o.Texts; i++ {
			acts = append(acts, func() { s.Insert(s.RandText(runes, 20), page()) })
		}
		for i := 0; i < o.Wraps; i++ {
			acts = append(acts, func() { s.Wrap(s.RandText(runes, 60), page()) })
		}
		if o.Measure {
			acts = append(acts, func() { s.Measure(s.RandText(runes, 30)) }, func() { s.Measure(s.RandText(runes, 10)) })
		}
		acts = append(acts, func() { s.SetFont(s.Names[c.Intn(nf)]) }, func() { s.SetFont(s.Names[c.Intn(nf)]) })
	}
	for i := 0; i < o.Imgs; i++ {
		acts = append(acts, func() {
			var m *zz.Img
			if len(imgs) > 0 && c.Bool() {
				m = imgs[c.Intn(len(imgs))]
				if !m.JPEG && c.Bool() {
					m = m.Twin()
				}
			} else if c.Intn(4) == 0 {
				m = zz.GenJPEG(c.R)
			} else {
				m = zz.GenPNG(c.R)
			}
			imgs = append(imgs, m)
			s.InsertImage(m, page())
		})
	}
	if o.Borders {
		acts = append(acts, func() { s.Border(true) }, func() { s.Border(c.Bool()) })
	}
	c.R.Shuffle(len(acts), func(i, j int) { acts[i], acts[j] = acts[j], acts[i] })
	for _, a := range acts {
		if c.Intn(5) != 0 {
			a()
		}
	}
	if o.Protect && !s.Prot && c.Bool() {
		s.Protect()
	}
	return s
}

// Save saves and reads the output.
func (s *Sess) Save() *Out {
	c := s.C
	var b bytes.Buffer
	c.NoErr(s.T.SaveTo(&b), "save")
	for _, m := range s.Fonts {
		c.Check(m.Bad == "", "callback", "%s", m.Bad)
	}
	return s.ReadOut(b.Bytes())
}

// ReadOut reads an output file of the session.
func (s *Sess) ReadOut(b []byte) *Out {
	c := s.C
	d, err := zz.Read(b)
	c.NoErr(err, "structure")
	if s.Prot {
		c.NoErr(d.SetUserPassword(s.User), "userpassword")
	} else {
		c.Check(d.Trailer["Encrypt"] == nil, "encrypt", "the output is marked as encrypted")
	}
	pg, err := d.Pages()
	c.NoErr(err, "pages")
	return &Out{S: s, B: b, D: d, P: pg}
}
