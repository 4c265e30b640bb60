package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Images keep their pixels, transparency, palette.
func TestVerifPixels(t *testing.T) {
	zz.Run(t, "C10.pixels", 200, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{Doc: zz.GenOpt{MaxPages: 2}, Imgs: 4})
		o := s.Save()
		o.CheckImages(o.Match(), true)
	})
}
