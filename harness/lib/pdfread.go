package zzverif

import (
	"bytes"
	"compress/zlib"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
	"io"
	"strconv"
)

type Name string
type Ref struct{ Num, Gen int }
type Dict map[string]interface{}
type Array []interface{}
type Stream struct {
	D   Dict
	Raw []byte // exactly /Length bytes, as in the file
	Num int
}
type Null struct{}

// Doc is a PDF file read strictly by its cross-reference table.
type Doc struct {
	B       []byte
	Trailer Dict
	Offs    map[int]int
	Objs    map[int]interface{}
	Size    int
	XrefAt  int
	EncKey  []byte
	EncNum  int
	lax     bool
	Keys    map[int][]string // order of keys of dictionary objects
}

type lexer struct {
	b    []byte
	p    int
	doc  *Doc
	dupe string
}

type lexErr struct{ s string }

func (l *lexer) errf(f string, a ...interface{}) {
	lo, hi := l.p-20, l.p+20
	if lo < 0 {
		lo = 0
	}
	if hi > len(l.b) {
		hi = len(l.b)
	}
	panic(lexErr{fmt.Sprintf("at %d (%q): %s", l.p, l.b[lo:hi], fmt.Sprintf(f, a...))})
}

func isSpace(c byte) bool {
	return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == 0 || c == '\f'
}
func isDelim(c byte) bool { return bytes.IndexByte([]byte("()<>[]{}/%"), c) >= 0 }

func (l *lexer) ws() {
	for l.p < len(l.b) {
		if isSpace(l.b[l.p]) {
			l.p++
		} else if l.b[l.p] == '%' {
			for l.p < len(l.b) && l.b[l.p] != '\n' && l.b[l.p] != '\r' {
				l.p++
			}
		} else {
			return
		}
	}
}

func (l *lexer) has(s string) bool { return bytes.HasPrefix(l.b[l.p:], []byte(s)) }

func (l *lexer) want(s string) {
	if !l.has(s) {
		l.errf("want %q", s)
	}
	l.p += len(s)
}

func (l *lexer) word() string {
	s := l.p
	for l.p < len(l.b) && !isSpace(l.b[l.p]) && !isDelim(l.b[l.p]) {
		l.p++
	}
	return string(l.b[s:l.p])
}

type keyword string

func (l *lexer) value() interface{} {
	l.ws()
	if l.p >= len(l.b) {
		l.errf("end of data")
	}
	switch {
	case l.has("<<"):
		l.p += 2
		d := Dict{}
		for {
			l.ws()
			if l.has(">>") {
				l.p += 2
				return d
			}
			if l.p >= len(l.b) || l.b[l.p] != '/' {
				l.errf("dictionary key expected")
			}
			k := l.value().(Name)
			v := l.value()
			if _, bad := v.(keyword); bad {
				l.errf("keyword %v as value of /%s", v, k)
			}
			if _, have := d[string(k)]; have {
				l.errf("dictionary key /%s twice", k)
			}
			d[string(k)] = v
		}
	case l.b[l.p] == '[':
		l.p++
		a := Array{}
		for {
			l.ws()
			if l.p < len(l.b) && l.b[l.p] == ']' {
				l.p++
				return a
			}
			v := l.value()
			if _, bad := v.(keyword); bad {
				l.errf("keyword %v in array", v)
			}
			a = append(a, v)
		}
	case l.b[l.p] == '/':
		l.p++
		return Name(l.word())
	case l.b[l.p] == '(':
		return l.litString()
	case l.b[l.p] == '<':
		l.p++
		var h []byte
		for {
			if l.p >= len(l.b) {
				l.errf("end in hex string")
			}
			c := l.b[l.p]
			l.p++
			if c == '>' {
				break
			}
			if isSpace(c) {
				continue
			}
			if bytes.IndexByte([]byte("0123456789abcdefABCDEF"), c) < 0 {
				l.errf("bad hex digit %q", c)
			}
			h = append(h, c)
		}
		if len(h)%2 == 1 {
			h = append(h, '0')
		}
		out := make([]byte, len(h)/2)
		for i := range out {
			n, _ := strconv.ParseUint(string(h[2*i:2*i+2]), 16, 8)
			out[i] = byte(n)
		}
		return out
	}
	w := l.word()
	if w == "" {
		l.errf("token expected")
	}
	if n, err := strconv.Atoi(w); err == nil {
		// reference?
		save := l.p
		if n >= 0 {
			l.ws()
			g := l.word()
			if gn, err := strconv.Atoi(g); err == nil && gn >= 0 {
				l.ws()
				if r := l.word(); r == "R" {
					return Ref{n, gn}
				}
			}
		}
		l.p = save
		return n
	}
	if f, err := strconv.ParseFloat(w, 64); err == nil {
		return f
	}
	switch w {
	case "true":
		return true
	case "false":
		return false
	case "null":
		return Null{}
	}
	return keyword(w)
}

func (l *lexer) litString() []byte {
	l.p++
	depth := 1
	out := []byte{}
	for {
		if l.p >= len(l.b) {
			l.errf("end in string")
		}
		c := l.b[l.p]
		l.p++
		switch c {
		case '(':
			depth++
			out = append(out, c)
		case ')':
			depth--
			if depth == 0 {
				return out
			}
			out = append(out, c)
		case '\r':
			if l.p < len(l.b) && l.b[l.p] == '\n' {
				l.p++
			}
			out = append(out, '\n')
		case '\\':
			if l.p >= len(l.b) {
				l.errf("end in string")
			}
			c = l.b[l.p]
			l.p++
			switch c {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case '\n':
			case '\r':
				if l.p < len(l.b) && l.b[l.p] == '\n' {
					l.p++
				}
			default:
				if c >= '0' && c <= '7' {
					n := int(c - '0')
					for k := 0; k < 2 && l.p < len(l.b) && l.b[l.p] >= '0' && l.b[l.p] <= '7'; k++ {
						n = n*8 + int(l.b[l.p]-'0')
						l.p++
					}
					out = append(out, byte(n))
				} else {
					out = append(out, c)
				}
			}
		default:
			out = append(out, c)
		}
	}
}

func guard(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(lexErr); ok {
				err = fmt.Errorf("%s", e.s)
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// Read reads a file strictly: the xref table must be exact.
func Read(b []byte) (*Doc, error) { return readDoc(b, false) }

// ReadIn reads a file whose xref table may have subsections.
func ReadIn(b []byte) (*Doc, error) { return readDoc(b, true) }

func readDoc(b []byte, lax bool) (d *Doc, err error) {
	d = &Doc{B: b, lax: lax, Offs: map[int]int{}, Objs: map[int]interface{}{}, EncNum: -1}
	err = guard(func() { d.read() })
	if err != nil {
		return nil, err
	}
	return d, nil
}

func (d *Doc) read() {
	l := &lexer{b: d.B, doc: d}
	l.want("%PDF-1.")
	tail := bytes.TrimRight(d.B, "\r\n \t")
	if !bytes.HasSuffix(tail, []byte("%%EOF")) {
		l.errf("file does not end in %%%%EOF")
	}
	sx := bytes.LastIndex(d.B, []byte("startxref"))
	if sx < 0 {
		l.errf("no startxref")
	}
	l.p = sx + len("startxref")
	l.ws()
	n, err := strconv.Atoi(l.word())
	if err != nil || n < 0 || n >= len(d.B) {
		l.errf("bad startxref")
	}
	l.ws()
	if l.p < len(d.B) {
		l.errf("garbage after startxref")
	}
	l.p = n
	for l.p < len(d.B) && isSpace(d.B[l.p]) {
		l.p++
	}
	d.XrefAt = l.p
	l.want("xref")
	l.p = skipEOL(d.B, l.p)
	next := 0
	for {
		save := l.p
		l.ws()
		if l.has("trailer") {
			break
		}
		l.p = save
		start, e1 := strconv.Atoi(l.word())
		l.ws()
		cnt, e2 := strconv.Atoi(l.word())
		if e1 != nil || e2 != nil {
			l.errf("bad xref subsection")
		}
		if start != next && !d.lax {
			l.errf("xref subsection starts at %d, not %d", start, next)
		}
		l.p = skipEOL(d.B, l.p)
		frees := map[int]int{}
		for i := 0; i < cnt; i++ {
			if l.p+20 > len(d.B) {
				l.errf("xref table cut off")
			}
			e := d.B[l.p : l.p+20]
			off, e1 := strconv.Atoi(string(e[:10]))
			_, e2 := strconv.Atoi(string(e[11:16]))
			if e1 != nil || e2 != nil || e[10] != ' ' || e[16] != ' ' || !(e[18] == ' ' || e[18] == '\r') || !(e[19] == '\n' || e[19] == '\r') {
				l.errf("xref entry %d is %q", start+i, e)
			}
			switch e[17] {
			case 'n':
				d.Offs[start+i] = off
			case 'f':
				frees[start+i] = off
			default:
				l.errf("xref entry %d is %q", start+i, e)
			}
			l.p += 20
		}
		// the free list starts at 0, visits every free entry once and ends at 0
		if start == 0 {
			if _, ok := frees[0]; !ok {
				l.errf("entry 0 is not free")
			}
			seen := map[int]bool{}
			k := 0
			for {
				if seen[k] {
					l.errf("free list loops at %d", k)
				}
				seen[k] = true
				nx, ok := frees[k]
				if !ok {
					l.errf("free list visits %d, which is not free", k)
				}
				if nx == 0 {
					break
				}
				k = nx
			}
			if len(seen) != len(frees) {
				l.errf("free list has %d of %d entries", len(seen), len(frees))
			}
		}
		next = start + cnt
	}
	l.want("trailer")
	v := l.value()
	tr, ok := v.(Dict)
	if !ok {
		l.errf("no trailer dictionary")
	}
	d.Trailer = tr
	sz, ok := tr["Size"].(int)
	if !ok || sz != next {
		l.errf("/Size %v, xref table has %d entries", tr["Size"], next)
	}
	d.Size = sz
	if _, ok := tr["Root"].(Ref); !ok {
		l.errf("/Root is %v", tr["Root"])
	}
	if e, ok := tr["Encrypt"]; ok {
		r, ok := e.(Ref)
		if !ok {
			l.errf("/Encrypt is %v", e)
		}
		d.EncNum = r.Num
	}
	for num, off := range d.Offs {
		d.readObj(num, off)
	}
	// no object of the file body is missing from the table
	if c := bytes.Count(d.B, []byte("%%EOF")); c < 1 {
		l.errf("no EOF")
	}
}

func skipEOL(b []byte, p int) int {
	for p < len(b) && (b[p] == ' ' || b[p] == '\r' || b[p] == '\n') {
		p++
	}
	return p
}

func (d *Doc) readObj(num, off int) interface{} {
	if v, ok := d.Objs[num]; ok {
		return v
	}
	l := &lexer{b: d.B, p: off, doc: d}
	if off < 0 || off >= len(d.B) {
		l.p = 0
		l.errf("object %d: offset %d outside the file", num, off)
	}
	for l.p < len(l.b) && isSpace(l.b[l.p]) {
		l.p++
	}
	w := l.word()
	if w != strconv.Itoa(num) {
		l.errf("object %d: offset %d does not point at it", num, off)
	}
	l.ws()
	if g := l.word(); g != "0" {
		l.errf("object %d: generation %s", num, g)
	}
	l.ws()
	if o := l.word(); o != "obj" {
		l.errf("object %d: no obj", num)
	}
	v := l.value()
	if _, bad := v.(keyword); bad {
		l.errf("object %d is %v", num, v)
	}
	l.ws()
	if l.has("stream") {
		dict, ok := v.(Dict)
		if !ok {
			l.errf("stream without dictionary")
		}
		l.p += len("stream")
		if l.has("\r\n") {
			l.p += 2
		} else if l.has("\n") {
			l.p++
		} else {
			l.errf("object %d: no end of line after stream", num)
		}
		n := -1
		switch x := dict["Length"].(type) {
		case int:
			n = x
		case Ref:
			o, ok := d.Offs[x.Num]
			if !ok {
				l.errf("object %d: /Length %d 0 R is not there", num, x.Num)
			}
			if v, ok := d.readObj(x.Num, o).(int); ok {
				n = v
			}
		}
		if n < 0 || l.p+n > len(l.b) {
			l.errf("object %d: bad /Length %v", num, dict["Length"])
		}
		s := &Stream{D: dict, Raw: l.b[l.p : l.p+n], Num: num}
		l.p += n
		q := l.p
		for q < len(l.b) && (l.b[q] == '\r' || l.b[q] == '\n') && q < l.p+2 {
			q++
		}
		l.p = q
		if !l.has("endstream") {
			l.errf("object %d: /Length %d does not lead to endstream", num, n)
		}
		l.p += len("endstream")
		v = s
		l.ws()
	}
	if !l.has("endobj") {
		l.errf("object %d: no endobj", num)
	}
	d.Objs[num] = v
	return v
}

// Get resolves references.
func (d *Doc) Get(v interface{}) interface{} {
	for i := 0; i < 50; i++ {
		r, ok := v.(Ref)
		if !ok {
			return v
		}
		v = d.Objs[r.Num]
		if v == nil {
			return Null{}
		}
	}
	return Null{}
}

func (d *Doc) Dict(v interface{}) Dict {
	switch x := d.Get(v).(type) {
	case Dict:
		return x
	case *Stream:
		return x.D
	}
	return nil
}

func (d *Doc) Arr(v interface{}) Array {
	if a, ok := d.Get(v).(Array); ok {
		return a
	}
	return nil
}

func (d *Doc) Root() Dict { return d.Dict(d.Trailer["Root"]) }

// Data is the decoded data of a stream (decrypted with the key of SetPassword,
// then FlateDecode without predictor).
func (d *Doc) Data(s *Stream) ([]byte, error) {
	raw, err := d.RawData(s)
	if err != nil {
		return nil, err
	}
	for _, f := range d.filters(s) {
		if f != "FlateDecode" {
			return nil, fmt.Errorf("filter %s", f)
		}
		raw, err = Inflate(raw)
		if err != nil {
			return nil, err
		}
	}
	return raw, nil
}

func (d *Doc) filters(s *Stream) []string {
	switch f := d.Get(s.D["Filter"]).(type) {
	case Name:
		return []string{string(f)}
	case Array:
		var out []string
		for _, x := range f {
			n, _ := d.Get(x).(Name)
			out = append(out, string(n))
		}
		return out
	}
	return nil
}

// RawData is the data of a stream, decrypted but not decompressed.
func (d *Doc) RawData(s *Stream) ([]byte, error) {
	if d.EncNum < 0 {
		return s.Raw, nil
	}
	if d.EncKey == nil {
		return nil, fmt.Errorf("encrypted, no password given")
	}
	k := append(append([]byte{}, d.EncKey...), byte(s.Num), byte(s.Num>>8), byte(s.Num>>16), 0, 0)
	m := md5.Sum(k)
	return rc4x(m[:len(d.EncKey)+5], s.Raw), nil
}

func Inflate(b []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func Deflate(b []byte) []byte {
	var o bytes.Buffer
	w := zlib.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func rc4x(key, b []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, len(b))
	c.XORKeyStream(o, b)
	return o
}

var padding = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

func pad32(p []byte) []byte {
	o := append(append([]byte{}, p...), padding...)
	return o[:32]
}

// SetUserPassword computes the key from the user password (PDF 32000-1, 7.6.3,
// algorithms 2 and 4) and checks it against /U.
func (d *Doc) SetUserPassword(pw []byte) error {
	e := d.Dict(Ref{d.EncNum, 0})
	if e == nil {
		return fmt.Errorf("/Encrypt object missing")
	}
	if f, _ := d.Get(e["Filter"]).(Name); f != "Standard" {
		return fmt.Errorf("/Filter %v", e["Filter"])
	}
	if v, _ := e["V"].(int); v != 1 {
		return fmt.Errorf("/V %v", e["V"])
	}
	if v, _ := e["R"].(int); v != 2 {
		return fmt.Errorf("/R %v", e["R"])
	}
	o, _ := e["O"].([]byte)
	u, _ := e["U"].([]byte)
	p, ok := e["P"].(int)
	if len(o) != 32 || len(u) != 32 || !ok {
		return fmt.Errorf("/O has %d bytes, /U %d, /P %v", len(o), len(u), e["P"])
	}
	var id []byte
	if a := d.Arr(d.Trailer["ID"]); len(a) > 0 {
		id, _ = a[0].([]byte)
	}
	h := md5.New()
	h.Write(pad32(pw))
	h.Write(o)
	h.Write([]byte{byte(p), byte(p >> 8), byte(p >> 16), byte(p >> 24)})
	h.Write(id)
	key := h.Sum(nil)[:5]
	if !bytes.Equal(rc4x(key, padding), u) {
		return fmt.Errorf("user password is not accepted")
	}
	d.EncKey = key
	return nil
}

// SetOwnerPassword recovers the user password from /O and uses it.
func (d *Doc) SetOwnerPassword(pw []byte) error {
	e := d.Dict(Ref{d.EncNum, 0})
	if e == nil {
		return fmt.Errorf("/Encrypt object missing")
	}
	o, _ := e["O"].([]byte)
	k := md5.Sum(pad32(pw))
	return d.SetUserPassword(rc4x(k[:5], o))
}

// Permissions is /P.
func (d *Doc) Permissions() int {
	e := d.Dict(Ref{d.EncNum, 0})
	p, _ := e["P"].(int)
	return p
}

// Page is a leaf of the page tree.
type Page struct {
	Num  int // object number
	D    Dict
	Path []Dict // ancestors, root first
}

// Pages walks the page tree, checking Type, Count and that it is a tree.
func (d *Doc) Pages() ([]Page, error) {
	var out []Page
	seen := map[int]bool{}
	var walk func(v interface{}, path []Dict) (int, error)
	walk = func(v interface{}, path []Dict) (int, error) {
		r, ok := v.(Ref)
		if !ok {
			return 0, fmt.Errorf("page tree node is %v, not a reference", v)
		}
		if seen[r.Num] {
			return 0, fmt.Errorf("page tree node %d is used twice", r.Num)
		}
		seen[r.Num] = true
		n, ok := d.Get(r).(Dict)
		if !ok {
			return 0, fmt.Errorf("page tree node %d is not a dictionary", r.Num)
		}
		switch d.Get(n["Type"]) {
		case Name("Page"):
			out = append(out, Page{r.Num, n, path})
			return 1, nil
		case Name("Pages"):
			kids, ok := d.Get(n["Kids"]).(Array)
			if !ok {
				return 0, fmt.Errorf("node %d: /Kids is %v", r.Num, n["Kids"])
			}
			sum := 0
			for _, k := range kids {
				c, err := walk(k, append(append([]Dict{}, path...), n))
				if err != nil {
					return 0, err
				}
				sum += c
			}
			if cnt, _ := d.Get(n["Count"]).(int); cnt != sum {
				return 0, fmt.Errorf("node %d: /Count %v, %d pages below it", r.Num, n["Count"], sum)
			}
			return sum, nil
		}
		return 0, fmt.Errorf("node %d: /Type %v", r.Num, n["Type"])
	}
	root := d.Root()
	if root == nil {
		return nil, fmt.Errorf("no catalog")
	}
	_, err := walk(root["Pages"], nil)
	return out, err
}

// Inherited is an attribute of a page, or of the nearest ancestor (by /Parent) that has it.
func (d *Doc) Inherited(p Page, key string) interface{} {
	n := p.D
	for i := 0; i < 50 && n != nil; i++ {
		if v, ok := n[key]; ok {
			return d.Get(v)
		}
		n = d.Dict(n["Parent"])
	}
	return nil
}

// Content is the concatenated decoded content of a page.
func (d *Doc) Content(p Page) ([]byte, error) {
	v, ok := p.D["Contents"]
	if !ok {
		return nil, nil
	}
	var list Array
	switch x := d.Get(v).(type) {
	case Array:
		list = x
	case *Stream:
		list = Array{x}
	default:
		return nil, fmt.Errorf("page %d: /Contents is %v", p.Num, v)
	}
	var out []byte
	for i, e := range list {
		s, ok := d.Get(e).(*Stream)
		if !ok {
			return nil, fmt.Errorf("page %d: content %v is not a stream", p.Num, e)
		}
		b, err := d.Data(s)
		if err != nil {
			return nil, fmt.Errorf("page %d: content: %v", p.Num, err)
		}
		if i > 0 {
			out = append(out, '\n')
		}
		out = append(out, b...)
	}
	return out, nil
}

// Resource looks up /Resources/<cat>/<name> of a page.
func (d *Doc) Resource(p Page, cat, name string) (interface{}, bool) {
	r, _ := d.Inherited(p, "Resources").(Dict)
	if r == nil {
		return nil, false
	}
	c := d.Dict(r[cat])
	v, ok := c[name]
	return v, ok
}

// Dangling lists references reachable from the trailer that have no object.
func (d *Doc) Dangling() []int {
	var bad []int
	seen := map[int]bool{}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case Ref:
			if seen[x.Num] {
				return
			}
			seen[x.Num] = true
			o, ok := d.Objs[x.Num]
			if !ok {
				bad = append(bad, x.Num)
				return
			}
			walk(o)
		case Dict:
			for _, e := range x {
				walk(e)
			}
		case Array:
			for _, e := range x {
				walk(e)
			}
		case *Stream:
			walk(x.D)
		}
	}
	walk(d.Trailer)
	return bad
}

// Op is a content stream operator with its operands.
type Op struct {
	Op   string
	Args []interface{}
}

func (o Op) Num(i int) float64 {
	if i >= len(o.Args) {
		return -1e99
	}
	switch x := o.Args[i].(type) {
	case int:
		return float64(x)
	case float64:
		return x
	}
	return -1e99
}

// Ops tokenizes a content stream.
func Ops(b []byte) (ops []Op, err error) {
	err = guard(func() {
		l := &lexer{b: b}
		var args []interface{}
		for {
			l.ws()
			if l.p >= len(l.b) {
				if len(args) > 0 {
					l.errf("operands without operator")
				}
				return
			}
			v := l.value()
			if k, ok := v.(keyword); ok {
				ops = append(ops, Op{string(k), args})
				args = nil
				continue
			}
			args = append(args, v)
		}
	})
	return
}
