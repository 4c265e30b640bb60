package pdft_test

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Saving changes nothing: a document can be saved again, to a file or a
// writer, with the same result, and edited further in between.
func TestVerifAgain(t *testing.T) {
	zz.Run(t, "C15.again", 100, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{PageOps: c.Intn(3) == 0, Fonts: c.Intn(3), Texts: 3, Imgs: 2, Borders: c.Bool(), Protect: c.Intn(3) == 0})
		check := func(o *scn.Out) {
			o.CheckPages()
			o.CheckLinks()
			ds := o.Match()
			o.CheckCodes(ds)
			o.CheckGeometry(ds)
			o.CheckImages(ds, true)
			o.CheckResources()
			if len(s.Names) > 0 {
				o.CheckFonts("program")
				o.CheckFonts("unicode")
				o.CheckFonts("metrics")
			}
		}
		a := s.Save()
		check(a)
		b := s.Save()
		check(b)
		if len(s.Names) <= 1 {
			c.Check(bytes.Equal(a.B, b.B), "same", "the second save differs from the first (%d and %d bytes)", len(a.B), len(b.B))
		}
		f := filepath.Join(zz.Scratch(), "out.pdf")
		os.WriteFile(f, bytes.Repeat([]byte("x"), 200000), 0644) // an older, longer file
		c.Desc("Save(file)")
		c.NoErr(s.T.Save(f), "save")
		fb, err := os.ReadFile(f)
		c.NoErr(err, "file")
		os.Remove(f)
		if len(s.Names) <= 1 {
			c.Check(bytes.Equal(a.B, fb), "file", "Save to a file differs from SaveTo")
		}
		check(s.ReadOut(fb))
		c.Desc("more")
		s.More(1+c.Intn(4), []rune("ab "))
		check(s.Save())
		if c.Intn(3) == 0 {
			check(s.Save())
		}
	})
}

// A failing writer is an error, and the document can still be saved.
type limited struct{ n int }

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.n {
		return l.n, os.ErrClosed
	}
	l.n -= len(b)
	return len(b), nil
}

func TestVerifWriteError(t *testing.T) {
	zz.Run(t, "C15.writeerror", 20, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{Fonts: c.Intn(2), Texts: 2, Imgs: 1})
		n := c.Intn(400)
		c.Check(s.T.SaveTo(&limited{n}) != nil, "noerror", "SaveTo a writer that fails after %d bytes gives no error", n)
		c.Check(s.T.Save(filepath.Join(zz.Scratch(), "no", "such", "dir", "x.pdf")) != nil, "noerror", "Save to a directory that does not exist gives no error")
		s.Save().Match()
	})
}
