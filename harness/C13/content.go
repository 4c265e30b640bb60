package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Content goes to the page it was meant for, after what was there.
func TestVerifContent(t *testing.T) {
	zz.Run(t, "C13.content", 200, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{PageOps: c.Intn(3) == 0, Fonts: c.Intn(2), Texts: 4, Imgs: 2, Borders: c.Bool(), Protect: c.Intn(5) == 0})
		o := s.Save()
		o.CheckPages()
		o.Match()
		o.CheckResources()
	})
}
