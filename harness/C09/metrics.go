package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// ToUnicode, widths and descriptor say what the font says.
func TestVerifMetrics(t *testing.T) {
	zz.Run(t, "C09.metrics", 120, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{Doc: zz.GenOpt{MaxPages: 1}, Fonts: 2, Texts: 4, Protect: c.Intn(5) == 0})
		o := s.Save()
		o.CheckFonts("metrics")
		o.CheckFonts("unicode")
	})
}
