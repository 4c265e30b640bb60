package pdft_test

import (
	"testing"

	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// Every character gets the glyph the font's cmap names.
func TestVerifLookup(t *testing.T) {
	zz.Run(t, "C07.lookup", 120, func(c *zz.C) {
		s := scn.Open(c, scn.Opt{Doc: zz.GenOpt{MaxPages: 1}})
		runes := scn.Alphabet(c)
		s.AddFont(runes, false, false)
		s.SetFont(s.Names[0])
		s.Insert(string(runes), 1)
		var around []rune
		for _, r := range runes {
			for _, k := range []rune{r - 1, r + 1} {
				if k > 0xFFFF || k < 0xD800 || k > 0xDFFF {
					if k <= 0xFFFF || s.Fonts[s.Names[0]].F.Lookup(k) >= 0 {
						around = append(around, k)
					}
				}
			}
		}
		s.Insert(string(around), 1)
		for i := 0; i < 3; i++ {
			s.Insert(string([]rune{runes[c.Intn(len(runes))], 0x10000 + rune(c.Intn(0x100000))}), 1)
		}
		o := s.Save()
		o.CheckCodes(o.Match())
	})
}
