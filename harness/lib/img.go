package zzverif

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/jpeg"
	"math/rand"
)

// Img is a generated image and its samples.
type Img struct {
	B       []byte
	JPEG    bool
	W, H    int
	CT, BPC int
	Samples [][]int // [pixel][component], without alpha
	Alpha   []int   // nil: none
	Pal     []byte
	Trns    []int // colour key: one value per component, nil: none
	Space   string
	seed    int64
}

func chunk(b *bytes.Buffer, typ string, data []byte) {
	b.Write(be32(len(data)))
	b.WriteString(typ)
	b.Write(data)
	h := crc32.NewIEEE()
	h.Write([]byte(typ))
	h.Write(data)
	b.Write(be32(int(h.Sum32())))
}

func paeth(a, b, c int) int {
	p := a + b - c
	pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func filterRow(ft int, cur, prev []byte, bpp int) []byte {
	out := make([]byte, len(cur))
	for i := range cur {
		var a, b, c int
		if i >= bpp {
			a = int(cur[i-bpp])
			c = int(prev[i-bpp])
		}
		b = int(prev[i])
		p := 0
		switch ft {
		case 1:
			p = a
		case 2:
			p = b
		case 3:
			p = (a + b) / 2
		case 4:
			p = paeth(a, b, c)
		}
		out[i] = byte(int(cur[i]) - p)
	}
	return out
}

func unfilter(data []byte, rowLen, rows, bpp int) ([][]byte, error) {
	if len(data) < rows*(rowLen+1) {
		return nil, fmt.Errorf("%d bytes of pixels, %d needed", len(data), rows*(rowLen+1))
	}
	prev := make([]byte, rowLen)
	var out [][]byte
	for y := 0; y < rows; y++ {
		ft := data[y*(rowLen+1)]
		cur := append([]byte{}, data[y*(rowLen+1)+1:(y+1)*(rowLen+1)]...)
		for i := range cur {
			var a, b, c int
			if i >= bpp {
				a = int(cur[i-bpp])
				c = int(prev[i-bpp])
			}
			b = int(prev[i])
			p := 0
			switch ft {
			case 0:
			case 1:
				p = a
			case 2:
				p = b
			case 3:
				p = (a + b) / 2
			case 4:
				p = paeth(a, b, c)
			default:
				return nil, fmt.Errorf("row filter %d", ft)
			}
			cur[i] = byte(int(cur[i]) + p)
		}
		out = append(out, cur)
		prev = cur
	}
	return out, nil
}

// GenPNG makes a random PNG the library supports.
func GenPNG(r *rand.Rand) *Img { return genPNG(r.Int63(), false) }

// Twin is an image that differs from a PNG in its last pixel only.
func (m *Img) Twin() *Img { return genPNG(m.seed, true) }

func genPNG(seed int64, twin bool) *Img {
	r := rand.New(rand.NewSource(seed))
	m := &Img{W: 1 + r.Intn(40), H: 1 + r.Intn(12), seed: seed}
	switch r.Intn(12) {
	case 0:
		m.W = 200 + r.Intn(200) // several IDAT chunks, rows longer than 255
	case 1:
		m.W, m.H = 1, 1
	}
	m.CT = []int{0, 2, 3, 4, 6}[r.Intn(5)]
	m.BPC = 8
	if m.CT == 0 || m.CT == 3 {
		m.BPC = []int{1, 2, 4, 8}[r.Intn(4)]
	}
	nc := map[int]int{0: 1, 2: 3, 3: 1, 4: 1, 6: 3}[m.CT]
	m.Space = map[int]string{0: "DeviceGray", 2: "DeviceRGB", 3: "Indexed", 4: "DeviceGray", 6: "DeviceRGB"}[m.CT]
	max := 1 << m.BPC
	np := 0
	if m.CT == 3 {
		np = 1 + r.Intn(max)
		m.Pal = make([]byte, 3*np)
		r.Read(m.Pal)
		if np == 1 && m.Pal[0] <= ' ' {
			m.Pal[0] = 'x'
		}
		max = np
	}
	hasA := m.CT >= 4
	for i := 0; i < m.W*m.H; i++ {
		s := make([]int, nc)
		for k := range s {
			s[k] = r.Intn(max)
		}
		m.Samples = append(m.Samples, s)
		if hasA {
			m.Alpha = append(m.Alpha, r.Intn(256))
		}
	}
	if twin {
		last := m.Samples[len(m.Samples)-1]
		last[nc-1] = (last[nc-1] + 1) % max
	}
	var trns []byte
	if r.Intn(3) == 0 {
		switch m.CT {
		case 0:
			v := r.Intn(1 << m.BPC)
			trns = []byte{0, byte(v)}
			m.Trns = []int{v}
		case 2:
			v := m.Samples[r.Intn(len(m.Samples))]
			for _, x := range v {
				trns = append(trns, 0, byte(x))
				m.Trns = append(m.Trns, x)
			}
		case 3:
			// one fully transparent entry, the rest opaque
			v := r.Intn(np)
			n := v + 1 + r.Intn(np-v)
			for i := 0; i < n; i++ {
				trns = append(trns, 255)
			}
			trns[v] = 0
			m.Trns = []int{v}
		}
	}
	// rows
	comps := nc
	if hasA {
		comps++
	}
	bits := comps * m.BPC
	rowLen := (m.W*bits + 7) / 8
	bpp := (bits + 7) / 8
	prev := make([]byte, rowLen)
	var data []byte
	mode := r.Intn(7)
	for y := 0; y < m.H; y++ {
		cur := make([]byte, rowLen)
		pos := 0
		put := func(v int) {
			for k := m.BPC - 1; k >= 0; k-- {
				if v>>uint(k)&1 == 1 {
					cur[pos/8] |= 0x80 >> uint(pos%8)
				}
				pos++
			}
		}
		for x := 0; x < m.W; x++ {
			for _, v := range m.Samples[y*m.W+x] {
				put(v)
			}
			if hasA {
				put(m.Alpha[y*m.W+x])
			}
		}
		ft := mode
		if ft > 4 {
			ft = r.Intn(5)
		}
		data = append(data, byte(ft))
		data = append(data, filterRow(ft, cur, prev, bpp)...)
		prev = cur
	}
	z := Deflate(data)
	if r.Intn(3) == 0 {
		z = store(data)
	}
	var b bytes.Buffer
	b.WriteString("\x89PNG\r\n\x1a\n")
	var ih []byte
	ih = append(ih, be32(m.W)...)
	ih = append(ih, be32(m.H)...)
	ih = append(ih, byte(m.BPC), byte(m.CT), 0, 0, 0)
	chunk(&b, "IHDR", ih)
	anc := func() {
		switch r.Intn(8) {
		case 0:
			chunk(&b, "gAMA", be32(45455))
		case 1:
			chunk(&b, "tEXt", []byte("Comment\x00hello IDAT PLTE IEND"))
		case 2:
			big := make([]byte, 33000+r.Intn(40000))
			copy(big, "Comment\x00")
			for i := 8; i < len(big); i++ {
				big[i] = 'a'
			}
			chunk(&b, "tEXt", big)
		case 3:
			chunk(&b, "prVt", nil)
		}
	}
	if r.Intn(2) == 0 {
		anc()
	}
	if m.CT == 3 {
		chunk(&b, "PLTE", m.Pal)
	}
	if trns != nil {
		chunk(&b, "tRNS", trns)
	}
	if r.Intn(4) == 0 {
		anc()
	}
	for len(z) > 0 {
		n := len(z)
		if r.Intn(2) == 0 {
			n = 1 + r.Intn(len(z))
		}
		chunk(&b, "IDAT", z[:n])
		z = z[n:]
	}
	if r.Intn(6) == 0 {
		anc()
	}
	chunk(&b, "IEND", nil)
	m.B = b.Bytes()
	return m
}

// store is zlib data without compression.
func store(data []byte) []byte {
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, zlib.NoCompression)
	w.Write(data)
	w.Close()
	return b.Bytes()
}

// GenJPEG makes a random JPEG.
func GenJPEG(r *rand.Rand) *Img {
	m := &Img{JPEG: true, W: 1 + r.Intn(60), H: 1 + r.Intn(60), BPC: 8}
	var b bytes.Buffer
	rc := image.Rect(0, 0, m.W, m.H)
	if r.Intn(2) == 0 {
		g := image.NewGray(rc)
		r.Read(g.Pix)
		jpeg.Encode(&b, g, nil)
		m.Space = "DeviceGray"
	} else {
		g := image.NewRGBA(rc)
		for i := range g.Pix {
			g.Pix[i] = byte(r.Intn(256))
		}
		g.Set(0, 0, color.RGBA{1, 2, 3, 255})
		jpeg.Encode(&b, g, nil)
		m.Space = "DeviceRGB"
	}
	m.B = b.Bytes()
	return m
}

// CheckEmbedded compares an image XObject with the image it was made from.
func (m *Img) CheckEmbedded(d *Doc, v interface{}) error {
	s, ok := d.Get(v).(*Stream)
	if !ok {
		return fmt.Errorf("not a stream")
	}
	if d.Get(s.D["Subtype"]) != Name("Image") {
		return fmt.Errorf("/Subtype %v", s.D["Subtype"])
	}
	if w, h := d.Get(s.D["Width"]), d.Get(s.D["Height"]); w != m.W || h != m.H {
		return fmt.Errorf("/Width %v /Height %v, image is %dx%d", w, h, m.W, m.H)
	}
	if bp := d.Get(s.D["BitsPerComponent"]); bp != m.BPC {
		return fmt.Errorf("/BitsPerComponent %v, image has %d", bp, m.BPC)
	}
	raw, err := d.RawData(s)
	if err != nil {
		return err
	}
	fs := d.filters(s)
	cs := d.Get(s.D["ColorSpace"])
	if m.JPEG {
		if len(fs) != 1 || fs[0] != "DCTDecode" {
			return fmt.Errorf("/Filter %v", s.D["Filter"])
		}
		if cs != Name(m.Space) {
			return fmt.Errorf("/ColorSpace %v, image is %s", cs, m.Space)
		}
		if !bytes.Equal(raw, m.B) {
			return fmt.Errorf("JPEG data differs (%d bytes, file has %d)", len(raw), len(m.B))
		}
		return nil
	}
	nc := len(m.Samples[0])
	if m.Space == "Indexed" {
		a, ok := cs.(Array)
		if !ok || len(a) != 4 || d.Get(a[0]) != Name("Indexed") || d.Get(a[1]) != Name("DeviceRGB") || d.Get(a[2]) != len(m.Pal)/3-1 {
			return fmt.Errorf("/ColorSpace %v, palette has %d colours", cs, len(m.Pal)/3)
		}
		var pal []byte
		switch p := d.Get(a[3]).(type) {
		case *Stream:
			pal, err = d.Data(p)
			if err != nil {
				return err
			}
		case []byte:
			pal = p
		default:
			return fmt.Errorf("palette is %v", p)
		}
		if !bytes.Equal(pal, m.Pal) {
			return fmt.Errorf("palette differs")
		}
	} else if cs != Name(m.Space) {
		return fmt.Errorf("/ColorSpace %v, image is %s", cs, m.Space)
	}
	px, err := pixels(d, s, raw, nc, m.W, m.H, m.BPC)
	if err != nil {
		return err
	}
	for i := range px {
		for k := range px[i] {
			if px[i][k] != m.Samples[i][k] {
				return fmt.Errorf("pixel %d (x=%d y=%d) component %d is %d, image has %d", i, i%m.W, i/m.W, k, px[i][k], m.Samples[i][k])
			}
		}
	}
	if m.Alpha == nil {
		if _, have := s.D["SMask"]; have {
			return fmt.Errorf("SMask for an image without alpha")
		}
	} else {
		sm, ok := d.Get(s.D["SMask"]).(*Stream)
		if !ok {
			return fmt.Errorf("/SMask is %v", s.D["SMask"])
		}
		if d.Get(sm.D["ColorSpace"]) != Name("DeviceGray") || d.Get(sm.D["Width"]) != m.W || d.Get(sm.D["Height"]) != m.H || d.Get(sm.D["BitsPerComponent"]) != 8 {
			return fmt.Errorf("SMask is %v", sm.D)
		}
		raw, err := d.RawData(sm)
		if err != nil {
			return err
		}
		ap, err := pixels(d, sm, raw, 1, m.W, m.H, 8)
		if err != nil {
			return fmt.Errorf("SMask: %v", err)
		}
		for i := range ap {
			if ap[i][0] != m.Alpha[i] {
				return fmt.Errorf("alpha of pixel %d is %d, image has %d", i, ap[i][0], m.Alpha[i])
			}
		}
	}
	mask, have := d.Get(s.D["Mask"]).(Array)
	if m.Trns == nil {
		if have {
			return fmt.Errorf("/Mask %v for an image without transparent colour", mask)
		}
	} else {
		if len(mask) != 2*len(m.Trns) {
			return fmt.Errorf("/Mask %v, transparent colour is %v", s.D["Mask"], m.Trns)
		}
		for k, v := range m.Trns {
			if mask[2*k] != v || mask[2*k+1] != v {
				return fmt.Errorf("/Mask %v, transparent colour is %v", mask, m.Trns)
			}
		}
	}
	return nil
}

func pixels(d *Doc, s *Stream, raw []byte, nc, w, h, bpc int) ([][]int, error) {
	fs := d.filters(s)
	if len(fs) != 1 || fs[0] != "FlateDecode" {
		return nil, fmt.Errorf("/Filter %v", s.D["Filter"])
	}
	data, err := Inflate(raw)
	if err != nil {
		return nil, fmt.Errorf("pixel data: %v", err)
	}
	rowLen := (w*nc*bpc + 7) / 8
	var rows [][]byte
	dp := d.Dict(s.D["DecodeParms"])
	pred, _ := d.Get(dp["Predictor"]).(int)
	get := func(k string, def int) int {
		if n, ok := d.Get(dp[k]).(int); ok {
			return n
		}
		return def
	}
	if pred >= 10 {
		if get("Colors", 1) != nc || get("BitsPerComponent", 8) != bpc || get("Columns", 1) != w {
			return nil, fmt.Errorf("/DecodeParms %v, image has %d components of %d bits, %d columns", dp, nc, bpc, w)
		}
		rows, err = unfilter(data, rowLen, h, (nc*bpc+7)/8)
		if err != nil {
			return nil, err
		}
	} else {
		if pred > 1 {
			return nil, fmt.Errorf("/Predictor %d", pred)
		}
		if len(data) < rowLen*h {
			return nil, fmt.Errorf("not enough pixels")
		}
		for y := 0; y < h; y++ {
			rows = append(rows, data[y*rowLen:(y+1)*rowLen])
		}
	}
	var out [][]int
	for y := 0; y < h; y++ {
		pos := 0
		for x := 0; x < w; x++ {
			p := make([]int, nc)
			for k := range p {
				v := 0
				for b := 0; b < bpc; b++ {
					v = v<<1 | int(rows[y][pos/8]>>uint(7-pos%8)&1)
					pos++
				}
				p[k] = v
			}
			out = append(out, p)
		}
	}
	return out, nil
}

// Kind describes an image.
func (m *Img) Kind() string {
	if m.JPEG {
		return fmt.Sprintf("JPEG %dx%d %s", m.W, m.H, m.Space)
	}
	return fmt.Sprintf("PNG %dx%d type %d depth %d tRNS %v", m.W, m.H, m.CT, m.BPC, m.Trns != nil)
}
