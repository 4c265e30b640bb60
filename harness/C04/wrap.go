package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Wrapped text: no character but white space at line ends is lost, lines fit.
func TestVerifWrap(t *testing.T) {
	zz.Run(t, "C04.wrap", 120, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{Doc: zz.GenOpt{MaxPages: 2}, Fonts: 2, Wraps: 4, Texts: 1, Kern: true})
		o := s.Save()
		ds := o.Match()
		o.CheckCodes(ds)
		o.CheckWrap(ds)
	})
}
