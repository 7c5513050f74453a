package internal_test

import (
	"testing"

	"github.com/tinne26/ggfnt/internal"
)

func TestVerifC05(t *testing.T) {
	verifRun(t, 20000,
		vCase{"flags", 1, func(g *vG) {
			n := g.Pick(0, g.N(9), g.N(40), g.N(256), 255, 256, -1)
			l := internal.NewBoolList(n)
			g.Logf("new %d", n)
			m := make([]bool, max(n, 0))
			same := func() {
				for i, b := range m {
					g.Check(l.Get(i) == b && l.IsSet(i) == b && l.IsUnset(i) == !b, "flag %d", i)
					if i < 256 {
						w, mask := l.GetWordAndBitMaskU8(uint8(i))
						g.Check(l.GetU8(uint8(i)) == b && l.IsSetU8(uint8(i)) == b && l.IsUnsetU8(uint8(i)) == !b && l.RawGetU8(w, mask) == b, "flag %d (8-bit)", i)
					}
				}
				for _, i := range []int{-1, len(m), len(m) + 1 + g.N(20), -1 - g.N(100)} {
					g.Check(g.Panics(func() { l.Get(i) }) && g.Panics(func() { l.Set(i, true) }), "index %d of %d accepted", i, len(m))
				}
			}
			same()
			for k := g.R(1, 25); k > 0; k-- {
				switch g.N(6) {
				case 0:
					v := g.Bool()
					g.Logf("push %v", v)
					l.Push(v)
					m = append(m, v)
				case 1, 2, 3, 4:
					if len(m) == 0 {
						continue
					}
					i, v := g.N(len(m)), g.Bool()
					g.Logf("set %d %v", i, v)
					if i < 256 && g.Bool() {
						l.SetU8(uint8(i), v)
					} else {
						l.Set(i, v)
					}
					m[i] = v
				case 5:
					if g.P(70) {
						continue
					}
					v := g.Bool()
					g.Logf("all %v", v)
					if v {
						l.SetAllTrue()
					} else {
						l.SetAllFalse()
					}
					for i := range m {
						m[i] = v
					}
				}
				if g.P(30) {
					same()
				}
			}
			same()
		}},
	)
}
