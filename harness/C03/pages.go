package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Page operations: exactly the pages asked for, in order; bad numbers are
// refused and change nothing; sizes follow the pages.
func TestVerifPages(t *testing.T) {
	zz.Run(t, "C03.pages", 120, func(c *zz.C) {
		s := scn.Open(c, scn.Opt{Doc: zz.GenOpt{MaxPages: 6}})
		s.PageOps(1 + c.Intn(8))
		runes := []rune{'a', 'b', ' '}
		s.AddFont(runes, false, false)
		s.SetFont(s.Names[0])
		for i := range s.Pages {
			if c.Bool() {
				s.Insert(s.RandText(runes, 5), i+1)
			}
		}
		o := s.Save()
		o.CheckPages()
		o.CheckLinks()
		o.CheckGeometry(o.Match())
	})
}
