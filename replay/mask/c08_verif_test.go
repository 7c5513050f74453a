package mask_test

//overlay fontgen.go

import (
	"image"
	"testing"

	"github.com/tinne26/ggfnt/mask"
)

// c08mask draws a mask of rectangles, lines, diagonals, dots and noise.
func c08mask(g *vG, x0, y0, w, h int) *image.Alpha {
	m := image.NewAlpha(image.Rect(x0, y0, x0+w, y0+h))
	if w == 0 || h == 0 {
		return m
	}
	vals := []byte{255, 255, byte(g.R(1, 254)), byte(g.R(1, 254))}
	if g.P(40) {
		vals = vals[:1]
	}
	put := func(x, y int, v byte) {
		if x >= 0 && x < w && y >= 0 && y < h {
			m.Pix[y*m.Stride+x] = v
		}
	}
	for n := g.Pick(0, 1, 2, 3, g.N(10)); n > 0; n-- {
		v := vals[g.N(len(vals))]
		if g.P(15) {
			v = 0
		}
		x, y := g.N(w), g.N(h)
		switch k := g.N(6); k {
		case 0:
			dx, dy := g.N(w), g.N(h)
			for i := 0; i <= dx; i++ {
				for j := 0; j <= dy; j++ {
					put(x+i, y+j, v)
				}
			}
		case 1:
			for i := g.N(w); i >= 0; i-- {
				put(x+i, y, v)
			}
		case 2:
			for i := g.N(h); i >= 0; i-- {
				put(x, y+i, v)
			}
		case 3, 4:
			for i := g.N(min(w, h)); i >= 0; i-- {
				put(x+i, y+i*(2*k-7), v)
			}
		case 5:
			p := g.R(1, 99)
			for i := range m.Pix {
				if g.P(p) {
					m.Pix[i] = vals[g.N(len(vals))]
				}
			}
		}
	}
	return m
}

func TestVerifC08(t *testing.T) {
	size := func(g *vG, top int) int { return g.Pick(0, 1, 2, 3, 4, 5, 8, g.R(1, 12), g.R(1, 12), g.R(1, top)) }
	verifRun(t, 6000,
		vCase{"encoding", 3, func(g *vG) {
			var enc mask.Encoder // the same one for several masks
			for n := g.R(1, 4); n > 0; n-- {
				w, h := size(g, g.Pick(20, 20, 20, 128)), size(g, g.Pick(20, 20, 20, 128))
				x0, y0 := g.Pick(0, -w, -w/2, 128-w, -128, g.R(-128, 128-w)), g.Pick(0, -h, -h/2, 128-h, -128, g.R(-128, 128-h))
				m := c08mask(g, x0, y0, w, h)
				g.Logf("mask %v, pixels %v", m.Rect, m.Pix)
				in := append([]byte(nil), m.Pix...)
				rect := m.Rect
				head := g.Bytes(g.Pick(0, 1, 5))
				room := append([]byte(nil), head...)
				if g.Bool() {
					room = append(make([]byte, 0, len(head)+g.N(40)), head...)
				}
				out := enc.AppendRasterOps(room, m)
				g.Check(string(in) == string(m.Pix) && m.Rect == rect && m.Stride == w, "the mask was changed")
				g.Check(len(out) >= len(head) && string(out[:len(head)]) == string(head), "the data before was changed")
				ops := out[len(head):]
				g.Logf("operations %v", ops)
				px, ok := vRaster(ops)
				g.Check(ok, "the operations are invalid")
				for y := y0; y < y0+h; y++ {
					for x := x0; x < x0+w; x++ {
						g.Check(px[vPt{x, y}] == m.AlphaAt(x, y).A, "pixel (%d, %d) is %d, expected %d", x, y, px[vPt{x, y}], m.AlphaAt(x, y).A)
					}
				}
				for p, v := range px {
					g.Check(v == 0 || image.Pt(p.x, p.y).In(rect), "pixel %v drawn outside the mask", p)
				}
				r, err := mask.Rasterize(append([]byte(nil), ops...))
				g.Check(err == nil, "Rasterize: %v", err)
				vSameMask(g, r, px)
			}
		}},
		vCase{"rectangles", 1, func(g *vG) {
			w, h := size(g, 40), size(g, 40)
			m := c08mask(g, g.R(-1000, 1000), g.R(-1000, 1000), w, h)
			if g.P(30) && w > 0 && h > 0 { // part of a bigger picture
				a, b := g.N(w), g.N(h)
				m = m.SubImage(image.Rect(a, b, g.R(a, w), g.R(b, h)).Add(m.Rect.Min)).(*image.Alpha)
			}
			g.Logf("mask %v stride %d, pixels %v", m.Rect, m.Stride, m.Pix)
			want := image.Rectangle{}
			for y := m.Rect.Min.Y; y < m.Rect.Max.Y; y++ {
				for x := m.Rect.Min.X; x < m.Rect.Max.X; x++ {
					if m.AlphaAt(x, y).A != 0 {
						want = want.Union(image.Rect(x, y, x+1, y+1))
					}
				}
			}
			in := append([]byte(nil), m.Pix...)
			r := mask.ComputeRect(m)
			g.Check(string(in) == string(m.Pix), "the mask was changed")
			g.Check(r == want, "ComputeRect is %v, expected %v", r, want)
		}})
}
