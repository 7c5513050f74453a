package ggfnt_test

//overlay fontgen.go

import (
	"testing"

	"github.com/tinne26/ggfnt"
)

func TestVerifC18(t *testing.T) {
	verifRun(t, 20000, vCase{"kerning", 1, func(g *vG) {
		f := vGenFont(g, "kerning")
		f.Log(g)
		x := f.Font().Kerning()
		g.Check(int(x.NumPairs()) == len(f.hk) && int(x.NumVertPairs()) == len(f.vk), "%d and %d pairs, stored %d and %d", x.NumPairs(), x.NumVertPairs(), len(f.hk), len(f.vk))
		one := func(what string, ks []vKern, get func(a, b ggfnt.GlyphIndex) int8) {
			m := map[uint32]int8{}
			ps := []uint32{0, 0xFFFFFFFF, 0xFFFF, 0xFFFF0000}
			for _, k := range ks {
				m[k.pair] = k.val
			}
			for k := 0; k < 20; k++ {
				if len(ks) > 0 {
					p := ks[g.N(len(ks))].pair
					ps = append(ps, p, p, p+1, p-1, p<<16|p>>16, p+0x10000, p-0x10000)
				}
			}
			for _, p := range ps {
				got := get(ggfnt.GlyphIndex(p>>16), ggfnt.GlyphIndex(p&0xFFFF))
				g.Check(got == m[p], "%s pair (%d, %d): %d, expected %d", what, p>>16, p&0xFFFF, got, m[p])
			}
		}
		one("horizontal", f.hk, x.Get)
		one("vertical", f.vk, x.GetVert)
	}})
}
