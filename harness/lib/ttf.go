package zzverif

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
)

// Glyph of a generated font.
type Glyph struct {
	Data  []byte
	Comps []int // components of a composite glyph
}

// Font is a generated TrueType font together with everything it says.
type Font struct {
	UPM               int
	Glyphs            []Glyph
	Adv               []int // advance widths in font units, one per glyph
	NumHM             int
	BMP               map[rune]int // format 4
	High              map[rune]int // format 12, above U+FFFF
	Long              bool
	TypoAsc, TypoDesc int
	WinAsc, WinDesc   int
	HAsc, HDesc       int
	Cap, XH           int
	BBox              [4]int
	UPos, UThick      int
	Italic            int
	OS2V              int
	Tables            map[string][]byte
	segs              []seg4
	symbolTrap        bool
	B                 []byte
}

type seg4 struct {
	start, end int
	gids       []int // rangeoffset form when not nil
	delta      int
}

func be16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }
func be32(v int) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// Lookup is what the cmap says: 0 when a BMP character is not mapped, -1 when
// a character above U+FFFF is not mapped.
func (f *Font) Lookup(r rune) int {
	if r <= 0xFFFF {
		return f.BMP[r]
	}
	if g, ok := f.High[r]; ok {
		return g
	}
	return -1
}

// Width is the advance of a glyph in thousandths of an em, rounded down.
func (f *Font) Width(gid int) int { return f.Adv[gid] * 1000 / f.UPM }

// Closure is the set of glyphs needed to draw gids.
func (f *Font) Closure(gids []int) map[int]bool {
	out := map[int]bool{}
	var add func(g int)
	add = func(g int) {
		if out[g] || g < 0 || g >= len(f.Glyphs) {
			return
		}
		out[g] = true
		for _, c := range f.Glyphs[g].Comps {
			add(c)
		}
	}
	add(0)
	for _, g := range gids {
		add(g)
	}
	return out
}

func simpleGlyph(r *rand.Rand, id int) []byte {
	// one contour; the bytes matter, the shape does not
	n := 3 + r.Intn(4)
	var b []byte
	b = append(b, be16(1)...)
	for i := 0; i < 4; i++ {
		b = append(b, be16(r.Intn(1000))...)
	}
	b = append(b, be16(n-1)...)
	b = append(b, be16(0)...)
	for i := 0; i < n; i++ {
		b = append(b, 1)
	}
	for i := 0; i < 2*n; i++ {
		b = append(b, be16(r.Intn(1000))...)
	}
	b = append(b, be16(id)...) // make glyphs differ
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	if r.Intn(3) == 0 {
		b = append(b, 0, 0) // 2-byte alignment only
	}
	return b
}

func compositeGlyph(r *rand.Rand, comps []int) []byte {
	var b []byte
	b = append(b, be16(0xFFFF)...)
	for i := 0; i < 4; i++ {
		b = append(b, be16(r.Intn(1000))...)
	}
	for i, c := range comps {
		flags := 0
		var arg []byte
		if r.Intn(2) == 0 {
			flags |= 1
			arg = append(arg, be16(r.Intn(500))...)
			arg = append(arg, be16(r.Intn(500))...)
		} else {
			arg = append(arg, byte(r.Intn(100)), byte(r.Intn(100)))
		}
		switch r.Intn(4) {
		case 0:
			flags |= 8
			arg = append(arg, be16(0x4000)...)
		case 1:
			flags |= 0x40
			arg = append(arg, be16(0x4000)...)
			arg = append(arg, be16(0x3000)...)
		case 2:
			flags |= 0x80
			for k := 0; k < 4; k++ {
				arg = append(arg, be16(r.Intn(0x4000))...)
			}
		}
		if i < len(comps)-1 {
			flags |= 0x20
		}
		b = append(b, be16(flags)...)
		b = append(b, be16(c)...)
		b = append(b, arg...)
	}
	for len(b)%2 != 0 {
		b = append(b, 0)
	}
	return b
}

// GenFont makes a random font that maps (at least) the runes given.
func GenFont(r *rand.Rand, runes []rune) *Font {
	f := &Font{BMP: map[rune]int{}, High: map[rune]int{}, Tables: map[string][]byte{}}
	f.UPM = []int{1000, 2048, 1024, 512, 1200, 2000, 4096, 750}[r.Intn(8)]
	n := 20 + r.Intn(120)
	if n < len(runes)+5 {
		n = len(runes) + 5 + r.Intn(20)
	}
	f.Long = r.Intn(2) == 0
	f.Glyphs = make([]Glyph, n)
	f.Adv = make([]int, n)
	for i := range f.Glyphs {
		f.Adv[i] = r.Intn(3 * f.UPM / 2)
		if r.Intn(10) == 0 {
			f.Adv[i] = 0
		}
		switch {
		case i > 3 && r.Intn(4) == 0:
			k := 1 + r.Intn(3)
			var comps []int
			for j := 0; j < k; j++ {
				c := r.Intn(i)
				if c != i {
					comps = append(comps, c)
				}
			}
			f.Glyphs[i] = Glyph{compositeGlyph(r, comps), comps}
		case i > 0 && r.Intn(8) == 0: // empty
		default:
			f.Glyphs[i] = Glyph{Data: simpleGlyph(r, i)}
		}
	}
	f.NumHM = n
	if r.Intn(2) == 0 {
		f.NumHM = 1 + r.Intn(n)
	}
	for i := f.NumHM; i < n; i++ {
		f.Adv[i] = f.Adv[f.NumHM-1]
	}
	f.TypoAsc = 1 + r.Intn(f.UPM)
	f.TypoDesc = -1 - r.Intn(f.UPM/2)
	f.WinAsc = 1 + r.Intn(f.UPM)
	f.WinDesc = 1 + r.Intn(f.UPM/2)
	f.HAsc = 1 + r.Intn(f.UPM)
	f.HDesc = -1 - r.Intn(f.UPM/2)
	f.Cap = 1 + r.Intn(f.UPM)
	f.XH = 1 + r.Intn(f.UPM)
	f.BBox = [4]int{-r.Intn(500), -r.Intn(500), r.Intn(2000), r.Intn(2000)}
	f.UPos = -r.Intn(f.UPM / 4)
	f.UThick = 1 + r.Intn(f.UPM/8)
	f.Italic = -r.Intn(30)
	f.OS2V = []int{1, 2, 3, 4}[r.Intn(4)]

	// characters
	sort.Slice(runes, func(i, j int) bool { return runes[i] < runes[j] })
	var bmp, high []rune
	for _, c := range runes {
		if c <= 0xFFFF {
			bmp = append(bmp, c)
		} else {
			high = append(high, c)
		}
	}
	// segments of consecutive or near characters
	i := 0
	for i < len(bmp) {
		j := i
		for j+1 < len(bmp) && bmp[j+1]-bmp[j] <= 2 && r.Intn(6) != 0 {
			j++
		}
		s, e := int(bmp[i]), int(bmp[j])
		if r.Intn(2) == 0 && e-s+1 < n-2 { // delta
			g0 := 1 + r.Intn(n-(e-s+1)-1)
			for c := s; c <= e; c++ {
				f.BMP[rune(c)] = g0 + c - s
			}
			f.segs = append(f.segs, seg4{s, e, nil, (g0 - s) & 0xFFFF})
		} else { // glyph id array, possibly with a delta and holes
			var gids []int
			d := 0
			if r.Intn(2) == 0 {
				d = r.Intn(0x10000)
			}
			for c := s; c <= e; c++ {
				g := 1 + r.Intn(n-1)
				if r.Intn(8) == 0 {
					g = 0
				}
				if g != 0 {
					f.BMP[rune(c)] = g
					a := (g - d) & 0xFFFF
					if a == 0 {
						f.BMP[rune(c)] = 0 // an entry of 0 means no glyph
					}
					gids = append(gids, a)
				} else {
					gids = append(gids, 0)
				}
			}
			f.segs = append(f.segs, seg4{s, e, gids, d})
		}
		i = j + 1
	}
	f.segs = append(f.segs, seg4{0xFFFF, 0xFFFF, nil, 1})
	i = 0
	type grp struct{ s, e, g int }
	var groups []grp
	for i < len(high) {
		j := i
		for j+1 < len(high) && high[j+1] == high[j]+1 && r.Intn(5) != 0 {
			j++
		}
		g0 := 1 + r.Intn(n-(j-i+1)-1)
		for c := i; c <= j; c++ {
			f.High[high[c]] = g0 + c - i
		}
		groups = append(groups, grp{int(high[i]), int(high[j]), g0})
		i = j + 1
	}

	// tables
	T := f.Tables
	var glyf, loca []byte
	off := 0
	for i := 0; i <= n; i++ {
		if f.Long {
			loca = append(loca, be32(off)...)
		} else {
			loca = append(loca, be16(off/2)...)
		}
		if i < n {
			glyf = append(glyf, f.Glyphs[i].Data...)
			off += len(f.Glyphs[i].Data)
		}
	}
	T["glyf"] = glyf
	T["loca"] = loca
	head := make([]byte, 54)
	copy(head[0:], be32(0x10000))
	copy(head[12:], be32(0x5F0F3CF5))
	copy(head[18:], be16(f.UPM))
	for k := 0; k < 16; k++ {
		head[20+k] = byte(r.Intn(256))
	}
	for k := 0; k < 4; k++ {
		copy(head[36+2*k:], be16(f.BBox[k]))
	}
	copy(head[44:], be16(r.Intn(4)))
	copy(head[46:], be16(8))
	copy(head[48:], be16(2))
	if f.Long {
		copy(head[50:], be16(1))
	}
	T["head"] = head
	hhea := make([]byte, 36)
	copy(hhea, be32(0x10000))
	copy(hhea[4:], be16(f.HAsc))
	copy(hhea[6:], be16(f.HDesc))
	for k := 8; k < 34; k++ {
		hhea[k] = byte(r.Intn(256))
	}
	copy(hhea[34:], be16(f.NumHM))
	T["hhea"] = hhea
	maxp := make([]byte, 32)
	copy(maxp, be32(0x10000))
	copy(maxp[4:], be16(n))
	for k := 6; k < 32; k++ {
		maxp[k] = byte(r.Intn(8))
	}
	T["maxp"] = maxp
	var hmtx []byte
	for i := 0; i < n; i++ {
		if i < f.NumHM {
			hmtx = append(hmtx, be16(f.Adv[i])...)
		}
		hmtx = append(hmtx, be16(r.Intn(200))...)
	}
	T["hmtx"] = hmtx
	// cmap
	sc := len(f.segs)
	var endc, startc, delta, ro, gida []byte
	for k, s := range f.segs {
		endc = append(endc, be16(s.end)...)
		startc = append(startc, be16(s.start)...)
		delta = append(delta, be16(s.delta)...)
		if s.gids == nil {
			ro = append(ro, 0, 0)
		} else {
			// distance from this entry to its glyphs
			ro = append(ro, be16(2*(sc-k)+len(gida))...)
			for _, g := range s.gids {
				gida = append(gida, be16(g)...)
			}
		}
	}
	var sub4 []byte
	sub4 = append(sub4, be16(4)...)
	sub4 = append(sub4, be16(16+8*sc+len(gida))...)
	sub4 = append(sub4, be16(0)...)
	sub4 = append(sub4, be16(2*sc)...)
	sub4 = append(sub4, be16(0)...)
	sub4 = append(sub4, be16(0)...)
	sub4 = append(sub4, be16(0)...)
	sub4 = append(sub4, endc...)
	sub4 = append(sub4, 0, 0)
	sub4 = append(sub4, startc...)
	sub4 = append(sub4, delta...)
	sub4 = append(sub4, ro...)
	sub4 = append(sub4, gida...)
	for len(sub4)%4 != 0 {
		sub4 = append(sub4, 0)
	}
	var sub12 []byte
	sub12 = append(sub12, be16(12)...)
	sub12 = append(sub12, be16(0)...)
	sub12 = append(sub12, be32(16+12*len(groups))...)
	sub12 = append(sub12, be32(0)...)
	sub12 = append(sub12, be32(len(groups))...)
	for _, g := range groups {
		sub12 = append(sub12, be32(g.s)...)
		sub12 = append(sub12, be32(g.e)...)
		sub12 = append(sub12, be32(g.g)...)
	}
	// a decoy subtable of another platform comes first or last
	decoy := append(append(append([]byte{}, be16(0)...), be16(262)...), make([]byte, 258)...)
	for len(decoy)%4 != 0 {
		decoy = append(decoy, 0)
	}
	type rec struct {
		p, e int
		b    []byte
	}
	recs := []rec{{1, 0, decoy}, {3, 1, sub4}}
	if len(high) > 0 {
		recs = append(recs, rec{3, 10, sub12})
	}
	hdr := 4 + 8*len(recs)
	cm := append(append([]byte{}, be16(0)...), be16(len(recs))...)
	pos := hdr
	for _, x := range recs {
		cm = append(cm, be16(x.p)...)
		cm = append(cm, be16(x.e)...)
		cm = append(cm, be32(pos)...)
		pos += len(x.b)
	}
	for _, x := range recs {
		cm = append(cm, x.b...)
	}
	T["cmap"] = cm
	// name
	ps := "VerifFont"
	nm := append(append(append([]byte{}, be16(0)...), be16(2)...), be16(6+24)...)
	for _, id := range []int{1, 6} {
		nm = append(nm, be16(3)...)
		nm = append(nm, be16(1)...)
		nm = append(nm, be16(0x409)...)
		nm = append(nm, be16(id)...)
		nm = append(nm, be16(2*len(ps))...)
		nm = append(nm, be16(0)...)
	}
	for _, c := range ps {
		nm = append(nm, 0, byte(c))
	}
	T["name"] = nm
	os2 := make([]byte, 96)
	copy(os2, be16(f.OS2V))
	for k := 2; k < 68; k++ {
		os2[k] = byte(r.Intn(256))
	}
	copy(os2[8:], be16(0))
	copy(os2[68:], be16(f.TypoAsc))
	copy(os2[70:], be16(f.TypoDesc))
	copy(os2[72:], be16(r.Intn(100)))
	copy(os2[74:], be16(f.WinAsc))
	copy(os2[76:], be16(f.WinDesc))
	copy(os2[86:], be16(f.XH))
	copy(os2[88:], be16(f.Cap))
	T["OS/2"] = os2
	post := make([]byte, 32)
	copy(post, be32(0x30000))
	copy(post[4:], be16(f.Italic))
	copy(post[8:], be16(f.UPos))
	copy(post[10:], be16(f.UThick))
	T["post"] = post
	for _, t := range []string{"cvt ", "fpgm", "prep"} {
		if r.Intn(4) != 0 {
			b := make([]byte, 2*(1+r.Intn(40)))
			r.Read(b)
			T[t] = b
		}
	}
	var tags []string
	for t := range T {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	order := append([]string{}, tags...)
	r.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
	posOf := map[string]int{}
	p := 12 + 16*len(tags)
	var body []byte
	for _, t := range order {
		posOf[t] = p
		body = append(body, T[t]...)
		p += len(T[t])
		for p%4 != 0 {
			body = append(body, 0)
			p++
		}
	}
	var out []byte
	out = append(out, be32(0x10000)...)
	out = append(out, be16(len(tags))...)
	out = append(out, make([]byte, 6)...)
	for _, t := range tags {
		out = append(out, t...)
		out = append(out, be32(int(tableSum(T[t])))...)
		out = append(out, be32(posOf[t])...)
		out = append(out, be32(len(T[t]))...)
	}
	out = append(out, body...)
	f.B = out
	return f
}

func tableSum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		s += binary.BigEndian.Uint32(w[:])
	}
	return s
}

// CheckFont checks an embedded font program against the font it was made from.
func (f *Font) CheckProgram(b []byte, used []int) error {
	if len(b) < 12 || !bytes.Equal(b[:4], []byte{0, 1, 0, 0}) {
		return fmt.Errorf("not a TrueType font")
	}
	n := int(binary.BigEndian.Uint16(b[4:]))
	// searchRange etc.
	sel := 0
	for 1<<(sel+1) <= n {
		sel++
	}
	if int(binary.BigEndian.Uint16(b[6:])) != (1<<sel)*16 || int(binary.BigEndian.Uint16(b[8:])) != sel || int(binary.BigEndian.Uint16(b[10:])) != n*16-(1<<sel)*16 {
		return fmt.Errorf("searchRange, entrySelector, rangeShift are %x", b[6:12])
	}
	T := map[string][]byte{}
	prev := ""
	if len(b) < 12+16*n {
		return fmt.Errorf("table directory cut off")
	}
	type span struct {
		lo, hi int
		tag    string
	}
	var spans []span
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		tag := string(e[:4])
		if tag <= prev {
			return fmt.Errorf("tables not in order: %q after %q", tag, prev)
		}
		prev = tag
		sum := binary.BigEndian.Uint32(e[4:])
		off := int(binary.BigEndian.Uint32(e[8:]))
		ln := int(binary.BigEndian.Uint32(e[12:]))
		if off+ln > len(b) || off%4 != 0 || off < 12+16*n && ln > 0 {
			return fmt.Errorf("table %q at %d, length %d: outside the file or not aligned", tag, off, ln)
		}
		T[tag] = b[off : off+ln]
		if s := tableSum(b[off : off+ln]); s != sum && tag != "head" {
			return fmt.Errorf("table %q: checksum %08x, directory says %08x", tag, s, sum)
		}
		if ln > 0 {
			spans = append(spans, span{off, off + ln, tag})
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
	for i := 1; i < len(spans); i++ {
		if spans[i].lo < spans[i-1].hi {
			return fmt.Errorf("tables %q and %q overlap", spans[i-1].tag, spans[i].tag)
		}
	}
	for _, t := range []string{"head", "hhea", "hmtx", "maxp", "cvt ", "fpgm", "prep"} {
		if !bytes.Equal(T[t], f.Tables[t]) {
			return fmt.Errorf("table %q differs from the font's", t)
		}
	}
	loca := T["loca"]
	glyf := T["glyf"]
	ng := len(f.Glyphs)
	at := func(i int) int {
		if f.Long {
			return int(binary.BigEndian.Uint32(loca[4*i:]))
		}
		return 2 * int(binary.BigEndian.Uint16(loca[2*i:]))
	}
	w := 2
	if f.Long {
		w = 4
	}
	if len(loca) < w*(ng+1) {
		return fmt.Errorf("loca has %d bytes, %d glyphs", len(loca), ng)
	}
	need := f.Closure(used)
	for i := 0; i < ng; i++ {
		a, z := at(i), at(i+1)
		if a > z || z > len(glyf) {
			return fmt.Errorf("loca of glyph %d: %d..%d, glyf has %d bytes", i, a, z, len(glyf))
		}
		if need[i] {
			if !bytes.Equal(glyf[a:z], f.Glyphs[i].Data) {
				return fmt.Errorf("outline of glyph %d differs (%d bytes, font has %d)", i, z-a, len(f.Glyphs[i].Data))
			}
		} else if z != a && !bytes.Equal(glyf[a:z], f.Glyphs[i].Data) {
			return fmt.Errorf("outline of unused glyph %d is neither empty nor the font's", i)
		}
	}
	return nil
}
