package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Glyph codes in order, kerning, text rise, measured widths.
func TestVerifCodes(t *testing.T) {
	zz.Run(t, "C05.codes", 150, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{Doc: zz.GenOpt{MaxPages: 2}, Fonts: 2, Texts: 6, Wraps: 1, Kern: true, Rise: true, Measure: true, Borders: c.Bool()})
		o := s.Save()
		o.CheckCodes(o.Match())
	})
}
