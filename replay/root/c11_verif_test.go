package ggfnt_test

//overlay fontgen.go

import (
	"bytes"
	"image/color"
	"testing"

	"github.com/tinne26/ggfnt"
)

func TestVerifC11(t *testing.T) {
	verifRun(t, 20000, vCase{"colors", 1, func(g *vG) {
		f := vGenFont(g, "color")
		f.Log(g)
		c := f.Font().Color()
		g.Check(int(c.NumDyes()) == len(f.dyes) && int(c.NumPalettes()) == len(f.pals), "NumDyes %d NumPalettes %d", c.NumDyes(), c.NumPalettes())
		want := color.Palette{color.RGBA{}}
		nd, np := 0, 0
		for _, d := range f.dyes {
			nd += len(d.data)
			for _, a := range d.data {
				want = append(want, color.RGBA{a, a, a, a})
			}
		}
		for _, d := range f.pals {
			np += len(d.data) / 4
			for i := 0; i < len(d.data); i += 4 {
				want = append(want, color.RGBA{d.data[i], d.data[i+1], d.data[i+2], d.data[i+3]})
			}
		}
		g.Check(int(c.NumDyeIndices()) == nd, "NumDyeIndices %d, stored %d", c.NumDyeIndices(), nd)
		g.Check(int(c.NumPaletteIndices()) == np, "NumPaletteIndices %d, stored %d", c.NumPaletteIndices(), np)
		g.Check(int(c.Count()) == nd+np, "Count %d, stored %d", c.Count(), nd+np)
		i := 0
		c.EachDye(func(k ggfnt.DyeKey, name string) {
			g.Check(i < len(f.dyes) && int(k) == i && name == f.dyes[i].name, "dye %d is key %d %q", i, k, name)
			i++
		})
		g.Check(i == len(f.dyes), "EachDye made %d calls", i)
		i = 0
		c.EachPalette(func(k ggfnt.PaletteKey, name string) {
			g.Check(i < len(f.pals) && int(k) == i && name == f.pals[i].name, "palette %d is key %d %q", i, k, name)
			i++
		})
		g.Check(i == len(f.pals), "EachPalette made %d calls", i)
		for k, d := range f.dyes {
			g.Check(int(c.NumDyeAlphas(ggfnt.DyeKey(k))) == len(d.data), "NumDyeAlphas(%d) is %d", k, c.NumDyeAlphas(ggfnt.DyeKey(k)))
			var got []byte
			c.EachDyeAlpha(ggfnt.DyeKey(k), func(a uint8) { got = append(got, a) })
			g.Check(bytes.Equal(got, d.data), "alphas of dye %d are %v, stored %v", k, got, d.data)
		}
		for k, d := range f.pals {
			g.Check(int(c.NumPaletteColors(ggfnt.PaletteKey(k)))*4 == len(d.data), "NumPaletteColors(%d) is %d", k, c.NumPaletteColors(ggfnt.PaletteKey(k)))
			var got []byte
			c.EachPaletteColor(ggfnt.PaletteKey(k), func(x color.RGBA) { got = append(got, x.R, x.G, x.B, x.A) })
			g.Check(bytes.Equal(got, d.data), "colors of palette %d are %v, stored %v", k, got, d.data)
		}
		if k := len(f.dyes); k < 256 {
			g.Check(g.Panics(func() { c.NumDyeAlphas(ggfnt.DyeKey(k)) }), "NumDyeAlphas(%d) accepted", k)
			g.Check(g.Panics(func() { c.EachDyeAlpha(ggfnt.DyeKey(k), func(uint8) {}) }), "EachDyeAlpha(%d) accepted", k)
		}
		if k := len(f.pals); k < 256 {
			g.Check(g.Panics(func() { c.NumPaletteColors(ggfnt.PaletteKey(k)) }), "NumPaletteColors(%d) accepted", k)
			g.Check(g.Panics(func() { c.EachPaletteColor(ggfnt.PaletteKey(k), func(color.RGBA) {}) }), "EachPaletteColor(%d) accepted", k)
		}
		p := c.GoColorPalette()
		g.Check(len(p) == len(want), "GoColorPalette has %d colors, expected %d", len(p), len(want))
		for i := range p {
			g.Check(p[i] == want[i], "GoColorPalette[%d] is %v, expected %v", i, p[i], want[i])
		}
		g.Check(c.Validate(ggfnt.FmtDefault) == nil, "Validate refuses the colors")
	}})
}
