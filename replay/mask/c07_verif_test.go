package mask_test

//overlay fontgen.go

import (
	"testing"

	"github.com/tinne26/ggfnt/mask"
)

func TestVerifC07(t *testing.T) {
	judge := func(g *vG, ops []byte) {
		g.Logf("ops %v", ops)
		px, ok := vRaster(ops)
		if ok {
			x0, y0, x1, y1 := 1<<30, 1<<30, -(1 << 30), -(1 << 30)
			for p := range px {
				x0, y0, x1, y1 = min(x0, p.x), min(y0, p.y), max(x1, p.x+1), max(y1, p.y+1)
			}
			if len(px) > 0 && (x1-x0)*(y1-y0) > 1<<23 {
				g.Trivial()
				return
			}
		}
		in := append([]byte(nil), ops...)
		m, err := mask.Rasterize(in[:len(in):len(in)])
		g.Check(string(in) == string(ops), "the operations were changed")
		g.Check((err == nil) == ok, "error %v, operations valid %v", err, ok)
		if !ok {
			g.Check(m == nil, "a mask with error %v", err)
			return
		}
		vSameMask(g, m, px)
	}
	verifRun(t, 20000,
		vCase{"operations", 4, func(g *vG) {
			judge(g, vMaskOps(g, g.Pick(0, 1, 1, 2, 3, g.N(12), g.N(60))))
		}},
		vCase{"altered operations", 3, func(g *vG) {
			ops := vMaskOps(g, g.R(1, 6))
			switch g.N(4) {
			case 0:
				ops = ops[:g.N(len(ops)+1)]
			case 1:
				ops = append(ops, g.Bytes(g.R(1, 2))...)
			default:
				ops[g.N(len(ops))] = byte(g.N(256))
			}
			judge(g, ops)
		}},
		vCase{"bytes", 2, func(g *vG) {
			judge(g, g.Bytes(g.N(10)))
		}},
	)
}
