package ggfnt_test

//overlay fontgen.go

import (
	"testing"

	"github.com/tinne26/ggfnt"
)

func TestVerifC12(t *testing.T) {
	verifRun(t, 10000,
		vCase{"glyphs", 4, func(g *vG) {
			f := vGenFont(g, "glyphs")
			f.Log(g)
			x := f.Font().Glyphs()
			g.Check(int(x.Count()) == f.nGlyphs, "Count %d", x.Count())
			for k := 0; k < 12; k++ {
				i := g.Pick(0, f.nGlyphs-1, g.N(f.nGlyphs))
				id := ggfnt.GlyphIndex(i)
				w := f.place[i]
				g.Check(x.Advance(id) == w[0], "Advance(%d) is %d, stored %d", i, x.Advance(id), w[0])
				if !f.vert {
					w[1], w[2], w[3] = 0, 0, 0
				}
				p := x.Placement(id)
				g.Check([4]byte{p.Advance, p.TopAdvance, p.BottomAdvance, p.HorzCenter} == w, "Placement(%d) is %v, stored %v", i, p, w)
				px, ok := vRaster(f.masks[i])
				g.Check(ok, "generator")
				g.Logf("glyph %d mask %v", i, f.masks[i])
				vSameMask(g, x.RasterizeMask(id), px)
			}
			for _, i := range []int{f.nGlyphs, min2(f.nGlyphs+1, 65535), 65535} {
				if i == f.nGlyphs-1 || i > 65535 {
					continue
				}
				g.Check(g.Panics(func() { x.Advance(ggfnt.GlyphIndex(i)) }), "Advance(%d) accepted", i)
				g.Check(g.Panics(func() { x.Placement(ggfnt.GlyphIndex(i)) }), "Placement(%d) accepted", i)
			}
		}},
		vCase{"ranges", 1, func(g *vG) {
			for k := 0; k < 50; k++ {
				a, b, c := g.Edge(65535), g.Edge(65535), g.Edge(65535)
				if g.P(30) {
					b = min2(65535, a+g.N(3))
				}
				if g.P(30) {
					c = min2(65535, b+g.N(3))
				}
				g.Logf("range %d..%d value %d", a, b, c)
				r := ggfnt.GlyphRange{First: ggfnt.GlyphIndex(a), Last: ggfnt.GlyphIndex(b)}
				g.Check(r.Contains(ggfnt.GlyphIndex(c)) == (a <= c && c <= b), "Contains is %v", r.Contains(ggfnt.GlyphIndex(c)))
				g.Check((r.Validate(uint16(c)) == nil) == (a <= b && b < c), "Validate is %v", r.Validate(uint16(c)))
				g.Check(g.Panics(func() { g.Check(ggfnt.NewRange(ggfnt.GlyphIndex(a), ggfnt.GlyphIndex(b)) == r, "NewRange") }) == (b < a), "NewRange refusal")
			}
		}},
	)
}
