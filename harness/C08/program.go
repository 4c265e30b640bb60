package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// The embedded font program is the part of the font that is needed, intact.
func TestVerifProgram(t *testing.T) {
	zz.Run(t, "C08.program", 120, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{Doc: zz.GenOpt{MaxPages: 1}, Fonts: 2, Texts: 4, Measure: c.Bool(), Protect: c.Intn(5) == 0})
		o := s.Save()
		o.CheckFonts("program")
	})
}
