package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Any session: the saved file has an exact cross-reference table, free list,
// trailer, startxref and stream lengths (zz.Read is strict about all of it).
func TestVerifSave(t *testing.T) {
	zz.Run(t, "C01.save", 60, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{Doc: zz.GenOpt{HighNums: c.Intn(8) == 0}, PageOps: true, Fonts: 2, Texts: 3, Wraps: 1, Imgs: 2, Borders: true, Protect: true})
		o := s.Save()
		root := o.D.Root()
		c.Check(root["Type"] == zz.Name("Catalog"), "root", "the trailer's /Root is %v", root)
	})
}
