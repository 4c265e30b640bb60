package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Images are where they were put, under names of their own; what the pages
// had in their resources stays.
func TestVerifPlace(t *testing.T) {
	zz.Run(t, "C11.place", 150, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{PageOps: c.Intn(3) == 0, Fonts: c.Intn(3), Texts: 2, Imgs: 6})
		o := s.Save()
		o.CheckImages(o.Match(), false)
		o.CheckResources()
	})
}
