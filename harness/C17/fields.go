// pkg: render
package render_test

import (
	"encoding/base64"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"

	"github.com/signintech/pdft/render"
	"github.com/signintech/pdft/textbreak"
	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Fields: text and images go where the field says, in its font and size;
// unknown keys draw nothing and are no error.
func TestVerifFields(t *testing.T) {
	log.SetOutput(io.Discard)
	zz.Run(t, "C17.fields", 120, func(c *zz.C) {
		in := zz.GenDoc(c.R, zz.GenOpt{MaxPages: 4})
		file := filepath.Join(zz.Scratch(), "in.pdf")
		os.WriteFile(file, in.B, 0644)
		nf := 1 + c.Intn(2)
		runes := scn.Alphabet(c)
		var fis render.FieldInfos
		fontName := make([]string, nf)
		last := map[string]render.FieldInfo{}
		var keys []string
		// font names are known only after the fonts are added: scn numbers them
		prefix := "f"
		for i := range fontName {
			fontName[i] = fmt.Sprintf("%s%d", prefix, i)
		}
		for i := 2 + c.Intn(5); i > 0; i-- {
			k := c.PickStr("name", "date", "sum", "addr", "x")
			fi := render.FieldInfo{Key: k, PageNum: c.Range(1, len(in.Pages)), X: float64(c.Intn(500)), Y: float64(c.Intn(500)), W: float64(20 + c.Intn(200)), H: float64(c.Intn(50)),
				Align: c.PickInt(0, 2, 4, 8, 16, 32, 33-32, 2|32, 16|1, 8|4), Font: fontName[c.Intn(nf)], Size: c.Range(5, 30), IsWrapText: c.Intn(3) == 0}
			fis = append(fis, fi)
			if _, ok := last[k]; !ok {
				keys = append(keys, k)
			}
			last[k] = fi // the last one of a key counts
		}
		c.Desc("fields %+v", fis)
		rd, err := render.NewRender(file, fis)
		c.NoErr(err, "newrender")
		s := scn.Attach(c, in, &rd.PDFt)
		for i := range fontName {
			f := zz.GenFont(c.R, runes)
			wr := filepath.Join(zz.Scratch(), "f.ttf")
			os.WriteFile(wr, f.B, 0644)
			c.NoErr(rd.AddFont(fontName[i], wr), "addfont")
			s.Fonts[fontName[i]] = &scn.FontM{F: f, Used: map[rune]bool{}}
			s.Names = append(s.Names, fontName[i])
		}
		var tb textbreak.TextBreaker
		if c.Intn(4) != 0 {
			tb = textbreak.BasicTextbreak{}
			rd.SetTextBreaker(tb)
		}
		height := func(p int) float64 { return in.Pages[p-1].Height() }
		lw := 0.0
		text := func(fi render.FieldInfo, txt string, wrap bool) {
			x := scn.Text{Page: fi.PageNum, Text: txt, X: fi.X, Y: fi.Y, W: fi.W, H: fi.H, Align: fi.Align, Font: fi.Font, Size: fi.Size, LineWidth: lw, PH: height(fi.PageNum)}
			for _, r := range txt {
				s.Fonts[fi.Font].Used[r] = true
			}
			if wrap && tb != nil {
				toks, _ := tb.BreakTextToToken(txt)
				s.Items = append(s.Items, s.Layout(x, txt, toks, false)...)
				return
			}
			s.Items = append(s.Items, x)
		}
		if c.Intn(4) == 0 {
			c.Desc("ShowCellBorder(true)")
			rd.ShowCellBorder(true)
			lw = 0.1
			s.Items = append(s.Items, scn.LineStyle{Width: 0.1})
		}
		for i := 1 + c.Intn(6); i > 0; i-- {
			k := c.PickStr("name", "date", "sum", "addr", "x", "nokey", "Name", "")
			fi, ok := last[k]
			if c.Intn(4) == 0 {
				m := zz.GenPNG(c.R)
				c.Desc("ImgBase64(%q)", k)
				c.NoErr(rd.ImgBase64(k, base64.StdEncoding.EncodeToString(m.B)), "imgbase64")
				if ok {
					s.Items = append(s.Items, scn.Image{Page: fi.PageNum, Img: m, X: fi.X, Y: fi.Y, W: fi.W, H: fi.H, PH: height(fi.PageNum)})
				}
				continue
			}
			txt := s.RandText(runes, 25)
			if txt == "" && fi.IsWrapText {
				txt = "a"
			}
			bad := false
			if ok {
				for _, r := range txt {
					if s.Fonts[fi.Font].F.Lookup(r) < 0 {
						bad = true
					}
				}
			}
			c.Desc("Text(%q,%q)", k, txt)
			err := rd.Text(k, txt)
			if bad {
				c.Check(err != nil, "noerror", "no error for a character the font does not have")
				continue
			}
			c.NoErr(err, "text")
			if ok {
				text(fi, txt, fi.IsWrapText)
			}
		}
		c.Check(rd.GetNumberOfPage() == len(in.Pages), "pages", "GetNumberOfPage() = %d", rd.GetNumberOfPage())
		o := s.Save()
		ds := o.Match()
		o.CheckCodes(ds)
		o.CheckGeometry(ds)
		o.CheckImages(ds, true)
		os.Remove(file)
	})
}

// A field whose font was not added is an error and draws nothing.
func TestVerifNoFont(t *testing.T) {
	log.SetOutput(io.Discard)
	zz.Run(t, "C17.nofont", 10, func(c *zz.C) {
		in := zz.GenDoc(c.R, zz.GenOpt{MaxPages: 2})
		file := filepath.Join(zz.Scratch(), "in2.pdf")
		os.WriteFile(file, in.B, 0644)
		rd, err := render.NewRender(file, render.FieldInfos{{Key: "k", PageNum: 1, Font: "none", Size: 10, IsWrapText: c.Bool()}})
		c.NoErr(err, "newrender")
		c.Check(rd.Text("k", "abc") != nil, "noerror", "no error for a font that was not added")
		s := scn.Attach(c, in, &rd.PDFt)
		s.Save().Match()
		_, err = render.NewRender(file+".missing", nil)
		c.Check(err != nil, "noerror", "no error for a template that does not exist")
		os.Remove(file)
	})
}

// The design view shows every field's key in its place, framed.
func TestVerifDesign(t *testing.T) {
	log.SetOutput(io.Discard)
	zz.Run(t, "C17.design", 15, func(c *zz.C) {
		in := zz.GenDoc(c.R, zz.GenOpt{MaxPages: 3, MinPages: 3})
		file := filepath.Join(zz.Scratch(), "in3.pdf")
		os.WriteFile(file, in.B, 0644)
		var fis render.FieldInfos
		for i := 0; i < 3; i++ { // one per page: the order of keys is not defined
			fis = append(fis, render.FieldInfo{Key: fmt.Sprintf("k%d", i), PageNum: i + 1, X: float64(c.Intn(300)), Y: float64(c.Intn(300)), W: 50, H: 20, Align: c.PickInt(0, 2, 16|32), Font: "f0", Size: c.Range(5, 20)})
		}
		rd, err := render.NewRender(file, fis)
		c.NoErr(err, "newrender")
		s := scn.Attach(c, in, &rd.PDFt)
		f := zz.GenFont(c.R, []rune("#k012"))
		wr := filepath.Join(zz.Scratch(), "f.ttf")
		os.WriteFile(wr, f.B, 0644)
		c.NoErr(rd.AddFont("f0", wr), "addfont")
		s.Fonts["f0"] = &scn.FontM{F: f, Used: map[rune]bool{}}
		s.Names = []string{"f0"}
		rd.ShowDesignView()
		s.Items = append(s.Items, scn.LineStyle{Width: 0.1})
		for _, fi := range fis {
			s.Items = append(s.Items, scn.Text{Page: fi.PageNum, Text: "#" + fi.Key, X: fi.X, Y: fi.Y, W: fi.W, H: fi.H, Align: fi.Align, Font: fi.Font, Size: fi.Size, LineWidth: 0.1, PH: in.Pages[fi.PageNum-1].Height()})
		}
		o := s.Save()
		ds := o.Match()
		o.CheckCodes(ds)
		o.CheckGeometry(ds)
		os.Remove(file)
	})
}
