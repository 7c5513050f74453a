package ggfnt_test

//overlay fontgen.go

import (
	"testing"

	"github.com/tinne26/ggfnt"
)

func TestVerifC09(t *testing.T) {
	le := func(b []byte, o, n int) (v uint64) {
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | uint64(b[o+i])
		}
		return v
	}
	verifRun(t, 20000, vCase{"header", 1, func(g *vG) {
		f := vGenFont(g, "header")
		copy(f.font.Data[0:4], g.Bytes(4))
		f.Log(g)
		d := f.font.Data
		h := f.Font().Header()
		g.Check(uint64(h.FormatVersion()) == le(d, 0, 4), "FormatVersion %d", h.FormatVersion())
		g.Check(h.ID() == le(d, 4, 8), "ID %d", h.ID())
		g.Check(uint64(h.VersionMajor()) == le(d, 12, 2) && uint64(h.VersionMinor()) == le(d, 14, 2), "version %d.%d", h.VersionMajor(), h.VersionMinor())
		for i, x := range []ggfnt.Date{h.FirstVersionDate(), h.MajorVersionDate(), h.MinorVersionDate()} {
			o := 16 + 4*i
			g.Check(uint64(x.Year) == le(d, o, 2) && x.Month == d[o+2] && x.Day == d[o+3], "date %d is %v", i, x)
		}
		g.Check(h.Name() == f.texts[0], "Name %q, stored %q", h.Name(), f.texts[0])
		g.Check(h.Family() == f.texts[1], "Family %q, stored %q", h.Family(), f.texts[1])
		g.Check(h.Author() == f.texts[2], "Author %q, stored %q", h.Author(), f.texts[2])
		g.Check(h.About() == f.about, "About %q, stored %q", h.About(), f.about)
	}})
}
