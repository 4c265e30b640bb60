package zzverif

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// InPage is what the generated file says about a page.
type InPage struct {
	Content  []byte // decoded, streams joined by a line end
	HasCont  bool
	NStreams int
	Box      [4]float64 // effective media box
	BoxKnown bool       // false: no media box anywhere
	Fonts    map[string]int
	XObjs    map[string]int
	Tag      string // value of a marker entry /Tag of the page
	Shared   bool   // shares its content stream with another page
	ArrCont  bool
}

// InDoc is a generated input file.
type InDoc struct {
	B     []byte
	Pages []InPage
	Nums  []int          // object numbers in use
	Raw   map[int]string // body text of objects, as written
	Strms map[int][]byte // raw stream data
}

// GenOpt restricts what is generated.
type GenOpt struct {
	MinPages, MaxPages int
	Flat               bool // no nested page tree
	NoBlank            bool // every page has contents
	NoArray            bool // contents is one stream
	NoShare            bool // no shared content streams
	NoBoxless          bool // every page has a media box
	HighNums           bool // object numbers may go beyond 65535
}

type genDoc struct {
	r    *rand.Rand
	o    GenOpt
	objs map[int]string
	strm map[int][]byte
	free []int
	max  int
	d    *InDoc
	eol  string
	comp bool
}

func (g *genDoc) num() int {
	g.max++
	if g.r.Intn(6) == 0 { // leave a gap
		g.max += 1 + g.r.Intn(3)
	}
	if g.o.HighNums && g.max < 65000 && g.r.Intn(12) == 0 {
		g.max += 65500 + g.r.Intn(70)
		if g.r.Intn(2) == 0 {
			g.max += g.r.Intn(1 << 16)
		}
	}
	return g.max
}

func (g *genDoc) add(body string) int {
	n := g.num()
	g.objs[n] = body
	return n
}

func (g *genDoc) stream(data []byte, extra string, flate bool) int {
	n := g.num()
	if flate {
		data = Deflate(data)
		if g.r.Intn(2) == 0 {
			extra += "/Filter/FlateDecode"
		} else {
			extra += "/Filter [/FlateDecode]"
		}
	}
	var ln string
	if g.r.Intn(4) == 0 {
		ln = fmt.Sprintf("%d 0 R", g.add(strconv.Itoa(len(data))))
	} else {
		ln = strconv.Itoa(len(data))
	}
	if g.r.Intn(2) == 0 {
		g.objs[n] = fmt.Sprintf("<< /Length %s %s >>", ln, extra)
	} else {
		g.objs[n] = fmt.Sprintf("<<%s/Length %s>>", extra, ln)
	}
	g.strm[n] = data
	return n
}

func (g *genDoc) content() []byte {
	var b bytes.Buffer
	if g.r.Intn(6) == 0 { // white space at the start and the end matters to no one, but must stay
		b.WriteString(pickS(g.r, " ", "\n", "\r\n", "\t "))
	}
	for i := g.r.Intn(6); i >= 0; i-- {
		switch g.r.Intn(5) {
		case 0:
			fmt.Fprintf(&b, "%d %d m %d %d l S\n", g.r.Intn(500), g.r.Intn(500), g.r.Intn(500), g.r.Intn(500))
		case 1:
			fmt.Fprintf(&b, "q 1 0 0 1 %d %d cm Q\r\n", g.r.Intn(500), g.r.Intn(500))
		case 2:
			fmt.Fprintf(&b, "BT /F1 %d Tf (t%d) Tj ET ", 1+g.r.Intn(20), g.r.Intn(1000))
		case 3:
			fmt.Fprintf(&b, "%0.3f g\n", g.r.Float64())
		case 4:
			fmt.Fprintf(&b, "%d %d %d %d re f", g.r.Intn(500), g.r.Intn(500), g.r.Intn(500), g.r.Intn(500))
			b.WriteString("\n")
		}
	}
	if g.r.Intn(3) == 0 {
		b.WriteString(pickS(g.r, "\n", "\r\n", " ", "\n\n"))
	}
	return b.Bytes()
}

func pickS(r *rand.Rand, v ...string) string { return v[r.Intn(len(v))] }

func (g *genDoc) box() ([4]float64, string) {
	b := [4]float64{0, 0, float64(100 + g.r.Intn(900)), float64(100 + g.r.Intn(900))}
	if g.r.Intn(3) == 0 {
		b[2] += 0.28
		b[3] += 0.89
	}
	f := func(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) }
	sep := pickS(g.r, " ", "  ", " ")
	pre := pickS(g.r, "", " ")
	return b, "[" + pre + f(b[0]) + sep + f(b[1]) + sep + f(b[2]) + sep + f(b[3]) + pre + "]"
}

type resInfo struct {
	text  string // value of /Resources
	fonts map[string]int
	xobjs map[string]int
}

func (g *genDoc) resources() resInfo {
	ri := resInfo{fonts: map[string]int{}, xobjs: map[string]int{}}
	var parts []string
	if g.r.Intn(4) != 0 {
		var e []string
		for i := g.r.Intn(4); i > 0; i-- {
			nm := pickS(g.r, "F1", "F2", "F7", "TT0", "F10", "Helv", "F1_2", "A__1", "C2_0")
			if _, have := ri.fonts[nm]; have {
				continue
			}
			id := g.add("<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>")
			ri.fonts[nm] = id
			e = append(e, fmt.Sprintf("/%s %d 0 R", nm, id))
		}
		parts = append(parts, "/Font "+g.maybeRef("<<"+strings.Join(e, pickS(g.r, "", " ", "\n"))+">>"))
	}
	if g.r.Intn(2) == 0 {
		var e []string
		for i := g.r.Intn(4); i > 0; i-- {
			nm := pickS(g.r, "I1", "I2", "Im0", "X9", "Fm", "Img", "Im12", "I5")
			if _, have := ri.xobjs[nm]; have {
				continue
			}
			id := g.stream([]byte("0 g"), "/Type/XObject/Subtype/Form/BBox[0 0 1 1]", false)
			ri.xobjs[nm] = id
			e = append(e, fmt.Sprintf("/%s %d 0 R", nm, id))
		}
		parts = append(parts, "/XObject "+g.maybeRef("<<"+strings.Join(e, pickS(g.r, "", " ", "\n"))+">>"))
	}
	if g.r.Intn(2) == 0 {
		parts = append(parts, "/ProcSet [/PDF /Text]")
	}
	g.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	ri.text = g.maybeRef("<<" + strings.Join(parts, pickS(g.r, " ", "\n", "")) + ">>")
	return ri
}

func (g *genDoc) maybeRef(s string) string {
	if g.r.Intn(3) == 0 {
		return fmt.Sprintf("%d 0 R", g.add(s))
	}
	return s
}

// GenDoc makes a random well-formed file.
func GenDoc(r *rand.Rand, o GenOpt) *InDoc {
	if o.MaxPages == 0 {
		o.MaxPages = 5
	}
	if o.MinPages == 0 {
		o.MinPages = 1
	}
	g := &genDoc{r: r, o: o, objs: map[int]string{}, strm: map[int][]byte{}, d: &InDoc{}}
	n := o.MinPages + r.Intn(o.MaxPages-o.MinPages+1)
	root := g.num()
	rootPages := g.num()
	g.objs[root] = fmt.Sprintf("<< /Type /Catalog /Pages %d 0 R >>", rootPages)

	rootBox, rootBoxS := g.box()
	haveRootBox := r.Intn(3) == 0
	haveRootRes := r.Intn(4) == 0
	var rootRes resInfo
	if haveRootRes {
		rootRes = g.resources()
	}
	shared := []struct {
		num  int
		data []byte
		page int
	}{}
	mk := func(parent int, parentBox *[4]float64) int {
		num := g.num()
		p := InPage{Fonts: map[string]int{}, XObjs: map[string]int{}}
		p.Tag = fmt.Sprintf("P%d", len(g.d.Pages))
		var e []string
		e = append(e, "/Type /Page", fmt.Sprintf("/Parent %d 0 R", parent), "/Tag /"+p.Tag)
		need := parentBox == nil && o.NoBoxless
		if need || r.Intn(3) != 0 {
			b, s := g.box()
			p.Box, p.BoxKnown = b, true
			e = append(e, "/MediaBox "+s)
		} else if parentBox != nil {
			p.Box, p.BoxKnown = *parentBox, true
		}
		if !haveRootRes || r.Intn(2) == 0 {
			if r.Intn(8) != 0 {
				ri := g.resources()
				p.Fonts, p.XObjs = ri.fonts, ri.xobjs
				e = append(e, "/Resources "+ri.text)
			} else if haveRootRes {
				p.Fonts, p.XObjs = rootRes.fonts, rootRes.xobjs
			}
		} else {
			p.Fonts, p.XObjs = rootRes.fonts, rootRes.xobjs
		}
		switch {
		case !o.NoBlank && r.Intn(6) == 0:
		case !o.NoShare && len(shared) > 0 && r.Intn(5) == 0:
			s := shared[r.Intn(len(shared))]
			p.Content, p.HasCont, p.NStreams, p.Shared = s.data, true, 1, true
			g.d.Pages[s.page].Shared = true
			e = append(e, fmt.Sprintf("/Contents %d 0 R", s.num))
		case !o.NoArray && r.Intn(5) == 0:
			k := 1 + r.Intn(3)
			var ids []string
			for i := 0; i < k; i++ {
				c := g.content()
				if i > 0 {
					p.Content = append(p.Content, '\n')
				}
				p.Content = append(p.Content, c...)
				ids = append(ids, fmt.Sprintf("%d 0 R", g.stream(c, "", r.Intn(2) == 0)))
			}
			p.HasCont, p.NStreams, p.ArrCont = true, k, true
			e = append(e, "/Contents ["+strings.Join(ids, " ")+"]")
		default:
			c := g.content()
			id := g.stream(c, "", r.Intn(2) == 0)
			p.Content, p.HasCont, p.NStreams = c, true, 1
			e = append(e, fmt.Sprintf("/Contents %d 0 R", id))
			shared = append(shared, struct {
				num  int
				data []byte
				page int
			}{id, c, len(g.d.Pages)})
		}
		if r.Intn(3) == 0 {
			e = append(e, "/Rotate 0")
		}
		if r.Intn(4) == 0 {
			e = append(e, "/Group <</Type/Group/S/Transparency/CS/DeviceRGB>>")
		}
		rest := e[1:]
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		g.objs[num] = "<<" + strings.Join(e, pickS(r, " ", "\n", "\r\n", "")) + pickS(r, "", " ", "\n") + ">>"
		g.d.Pages = append(g.d.Pages, p)
		return num
	}
	var build func(parent, k int, box *[4]float64, depth int) []int
	build = func(parent, k int, box *[4]float64, depth int) []int {
		var kids []int
		for k > 0 {
			if !o.Flat && depth < 3 && k >= 1 && r.Intn(4) == 0 {
				m := 1 + r.Intn(k)
				num := g.num()
				var b2 = box
				bs := ""
				if r.Intn(2) == 0 {
					b, s := g.box()
					b2, bs = &b, "/MediaBox "+s
				}
				sub := build(num, m, b2, depth+1)
				g.objs[num] = fmt.Sprintf("<</Type /Pages /Parent %d 0 R /Kids [%s] /Count %d %s>>", parent, refs(sub), m, bs)
				kids = append(kids, num)
				k -= m
				continue
			}
			kids = append(kids, mk(parent, box))
			k--
		}
		return kids
	}
	var pb *[4]float64
	ex := ""
	if haveRootBox {
		pb = &rootBox
		ex += " /MediaBox " + rootBoxS
	}
	if haveRootRes {
		ex += " /Resources " + rootRes.text
	}
	kids := build(rootPages, n, pb, 0)
	g.objs[rootPages] = fmt.Sprintf("<< /Type /Pages /Kids [%s] /Count %d%s >>", refs(kids), n, ex)
	// bystanders
	for i := r.Intn(3); i > 0; i-- {
		g.add(fmt.Sprintf("<< /Info %d /Note [1 2 %d] >>", r.Intn(100), r.Intn(100)))
	}
	g.write(root)
	return g.d
}

func refs(a []int) string {
	var s []string
	for _, n := range a {
		s = append(s, fmt.Sprintf("%d 0 R", n))
	}
	return strings.Join(s, " ")
}

func (g *genDoc) write(root int) {
	var nums []int
	for n := range g.objs {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	order := append([]int{}, nums...)
	g.r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	offs := map[int]int{}
	var b bytes.Buffer
	b.WriteString("%PDF-1.5\n%\xe2\xe3\xcf\xd3\n")
	eol := pickS(g.r, "\n", "\r\n")
	for _, n := range order {
		offs[n] = b.Len()
		fmt.Fprintf(&b, "%d 0 obj%s%s", n, pickS(g.r, "\n", " "), g.objs[n])
		if s, ok := g.strm[n]; ok {
			fmt.Fprintf(&b, "%sstream%s", pickS(g.r, "\n", ""), eol)
			b.Write(s)
			fmt.Fprintf(&b, "%sendstream", pickS(g.r, "\n", "\r\n"))
		}
		b.WriteString("\nendobj\n")
	}
	x := b.Len()
	size := g.max + 1
	if size > 60000 { // subsections
		fmt.Fprintf(&b, "xref\n0 1\n0000000000 65535 f \n")
		for i := 0; i < len(nums); {
			j := i
			for j+1 < len(nums) && nums[j+1] == nums[j]+1 {
				j++
			}
			fmt.Fprintf(&b, "%d %d\n", nums[i], j-i+1)
			for ; i <= j; i++ {
				fmt.Fprintf(&b, "%010d 00000 n \n", offs[nums[i]])
			}
		}
		size = 0
	} else {
		fmt.Fprintf(&b, "xref\n0 %d\n", size)
	}
	var free []int
	for i := 0; i < size; i++ {
		if _, ok := offs[i]; !ok {
			free = append(free, i)
		}
	}
	next := map[int]int{}
	for i, f := range free {
		if i+1 < len(free) {
			next[f] = free[i+1]
		}
	}
	for i := 0; i < size; i++ {
		if o, ok := offs[i]; ok {
			fmt.Fprintf(&b, "%010d 00000 n \n", o)
		} else {
			fmt.Fprintf(&b, "%010d 65535 f \n", next[i])
		}
	}
	fmt.Fprintf(&b, "trailer\n<< /Size %d /Root %d 0 R >>\nstartxref\n%d\n%%%%EOF\n", g.max+1, root, x)
	g.d.B = b.Bytes()
	g.d.Nums = nums
	g.d.Raw = g.objs
	g.d.Strms = g.strm
}

// PageHeight is what the library documents: the height of the page's media
// box, A4 when there is none.
func (p InPage) Height() float64 {
	if p.BoxKnown {
		return p.Box[3]
	}
	return 841.89
}
