package ggfnt_test

//overlay fontgen.go

import (
	"testing"

	"github.com/tinne26/ggfnt"
)

func TestVerifC13(t *testing.T) {
	verifRun(t, 20000, vCase{"names", 1, func(g *vG) {
		f := vGenFont(g, "names")
		f.Log(g)
		x := f.Font().Glyphs()
		g.Check(int(x.NamedCount()) == len(f.gnames), "NamedCount %d, stored %d", x.NamedCount(), len(f.gnames))
		var ks []string
		ids := map[string]uint16{}
		for _, n := range f.gnames {
			ids[n.name] = n.id
			ks = append(ks, n.name)
		}
		for _, n := range f.gnames {
			for _, s := range []string{n.name + "a", n.name + "-", n.name[:len(n.name)-1], "a" + n.name, n.name[:len(n.name)-1] + string(rune(n.name[len(n.name)-1]+1)), n.name[:len(n.name)-1] + string(rune(n.name[len(n.name)-1]-1))} {
				ks = append(ks, s)
			}
		}
		ks = append(ks, "", "a", "-", "zzzzz", "\x00", "\xff\xff", vName(g, 32), vText(g, 40))
		for _, s := range ks {
			want := ggfnt.GlyphMissing
			if id, ok := ids[s]; ok {
				want = ggfnt.GlyphIndex(id)
			}
			got := x.FindIndexByName(s)
			g.Check(got == want, "names %v: FindIndexByName(%q) is %d, expected %d", f.gnames, s, got, want)
		}
	}})
}
