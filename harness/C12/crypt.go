package pdft_test

import (
	"bytes"
	"testing"

	"github.com/signintech/pdft"
	zz "github.com/signintech/pdft/zzverif"
	"github.com/signintech/pdft/zzverif/scn"
)

// A protected file opens with either password, grants the permissions asked
// for, and decrypts to what an unprotected file would hold.
func TestVerifCrypt(t *testing.T) {
	zz.Run(t, "C12.crypt", 150, func(c *zz.C) {
		s := scn.Random(c, scn.Opt{Doc: zz.GenOpt{HighNums: c.Intn(8) == 0}, PageOps: c.Intn(4) == 0, Fonts: c.Intn(3), Texts: 3, Imgs: 2})
		s.Protect()
		o := s.Save() // opens with the user password
		c.Check(o.D.Trailer["Encrypt"] != nil, "encrypt", "the output is not marked as encrypted")
		p := o.D.Permissions()
		want := -((192 | s.Perm) ^ 255) - 1
		c.Check(p == want, "permissions", "/P is %d, permissions %d asked for: expected %d", p, s.Perm, want)
		check := func(o *scn.Out) {
			ds := o.Match()
			o.CheckCodes(ds)
			o.CheckObjects()
			o.CheckImages(ds, true)
			if len(s.Names) > 0 {
				o.CheckFonts("program")
				o.CheckFonts("unicode")
			}
		}
		check(o)
		if len(s.Owner) > 0 {
			d, err := zz.Read(o.B)
			c.NoErr(err, "structure")
			c.NoErr(d.SetOwnerPassword(s.Owner), "ownerpassword")
			pg, err := d.Pages()
			c.NoErr(err, "pages")
			check(&scn.Out{S: s, B: o.B, D: d, P: pg})
		}
		// another password does not open it
		d, err := zz.Read(o.B)
		c.NoErr(err, "structure")
		bad := append([]byte("x"), s.User...)
		if !bytes.Equal(trunc32(bad), trunc32(s.User)) {
			c.Check(d.SetUserPassword(bad) != nil, "wrongpassword", "password %x opens the file, the user password is %x", bad, s.User)
		}
		// nothing of a long stream of the input is left in clear
		for n, raw := range s.In.Strms {
			if len(raw) >= 24 && o.D.Objs[n] != nil {
				c.Check(!bytes.Contains(o.B, raw), "clear", "stream %d is in the output in clear", n)
			}
		}
	})
}

func trunc32(b []byte) []byte {
	if len(b) > 32 {
		return b[:32]
	}
	return b
}

// Without a password for the owner a random one is used: the user password
// must not then open the file as owner.
func TestVerifOwner(t *testing.T) {
	zz.Run(t, "C12.owner", 15, func(c *zz.C) {
		in := zz.GenDoc(c.R, zz.GenOpt{})
		var p pdft.PDFt
		c.NoErr(p.OpenFrom(bytes.NewReader(in.B)), "open")
		user := []byte("user")
		c.NoErr(p.SetProtection(c.PickInt(0, 4, 60), user, nil), "setprotection")
		var b bytes.Buffer
		c.NoErr(p.SaveTo(&b), "save")
		d, err := zz.Read(b.Bytes())
		c.NoErr(err, "structure")
		c.NoErr(d.SetUserPassword(user), "userpassword")
		d2, _ := zz.Read(b.Bytes())
		c.Check(d2.SetOwnerPassword(user) != nil && d2.SetOwnerPassword(nil) != nil, "owner", "the owner password is guessable")
	})
}
