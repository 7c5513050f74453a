package ggfnt_test

//overlay fontgen.go

import (
	"testing"

	"github.com/tinne26/ggfnt"
)

func (f *vFont) find(cp rune) *vMapEntry {
	for i := range f.maps {
		if f.maps[i].cp == cp {
			return &f.maps[i]
		}
	}
	return nil
}

// group is the expected group of an entry.
func (f *vFont) group(e *vMapEntry, s []uint8) (vGroup, int) {
	switch e.sw {
	case 255:
		return vGroup{glyphs: []uint16{e.direct}}, 0
	case 254:
		return e.groups[0], 0
	}
	c := f.caseOf(f.switches[e.sw], s)
	return e.groups[c], c
}

func vCheckGroup(g *vG, what string, x *ggfnt.GlyphMappingGroup, w vGroup, c int) {
	g.Check(int(x.Size()) == len(w.glyphs), "%s: group of %d glyphs, expected %d", what, x.Size(), len(w.glyphs))
	g.Check(int(x.CaseBranch()) == c, "%s: case %d, expected %d", what, x.CaseBranch(), c)
	fl := w.flags
	if len(w.glyphs) == 1 {
		fl = 0
	}
	g.Check(byte(x.AnimationFlags()) == fl, "%s: flags %d, expected %d", what, x.AnimationFlags(), fl)
	for i := 0; i < 256; i++ {
		if i < 255 && i > len(w.glyphs)+1 && !g.P(3) {
			continue
		}
		var id ggfnt.GlyphIndex
		p := g.Panics(func() { id = x.Select(uint8(i)) })
		g.Check(p == (i >= len(w.glyphs)), "%s: Select(%d) of %d panics %v", what, i, len(w.glyphs), p)
		if !p {
			g.Check(uint16(id) == w.glyphs[i], "%s: Select(%d) is %d, expected %d", what, i, id, w.glyphs[i])
		}
	}
}

func TestVerifC16(t *testing.T) {
	verifRun(t, 20000, vCase{"mapping", 1, func(g *vG) {
		f := vGenFont(g, "mapping")
		f.Log(g)
		x := f.Font().Mapping()
		g.Check(int(x.NumEntries()) == len(f.maps), "NumEntries %d, stored %d", x.NumEntries(), len(f.maps))
		cps := []rune{0, -1, 0x10FFFF, 0x110000, 255, 256, -1 << 31, 1<<31 - 1}
		for _, e := range f.maps {
			cps = append(cps, e.cp, e.cp-1, e.cp+1, e.cp+256, e.cp^0x10000, -e.cp)
		}
		for k := 0; k < 30; k++ {
			cp := cps[g.N(len(cps))]
			if g.P(3) {
				cp = rune(g.N(256))
			}
			s := f.randSettings(g)
			e := f.find(cp)
			gr, ok := x.Utf8(cp, s)
			g.Check(ok == (e != nil), "code point %d: found %v, stored %v", cp, ok, e != nil)
			if ok {
				w, c := f.group(e, s)
				vCheckGroup(g, vSprint("code point", cp, "settings", s), &gr, w, c)
			}
			if cp >= 0 && cp < 256 {
				gr2, ok2 := x.Ascii(byte(cp), s)
				g.Check(ok2 == ok && gr2 == gr, "Ascii(%d) differs from Utf8", cp)
			}
		}
	}})
}
