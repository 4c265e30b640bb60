package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Position, colour, border and underline of text.
func TestVerifGeometry(t *testing.T) {
	zz.Run(t, "C06.geometry", 150, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{Doc: zz.GenOpt{MaxPages: 3}, Fonts: 2, Texts: 8, Wraps: 2, Kern: c.Bool(), Borders: true})
		o := s.Save()
		o.CheckGeometry(o.Match())
	})
}
