package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Objects added have fresh numbers, nothing that was there is lost or
// overwritten, every reference resolves to the object meant.
func TestVerifLinks(t *testing.T) {
	zz.Run(t, "C02.links", 60, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{Doc: zz.GenOpt{HighNums: c.Intn(8) == 0}, PageOps: c.Bool(), Fonts: 3, Texts: 3, Imgs: 4, Protect: c.Intn(4) == 0})
		o := s.Save()
		o.CheckLinks()
		o.CheckObjects()
		if len(s.Names) > 0 {
			o.CheckFonts("links")
		}
		ds := o.Match()
		o.CheckImages(ds, false)
	})
}
