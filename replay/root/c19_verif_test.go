package ggfnt_test

//overlay fontgen.go

import "testing"

func TestVerifC19(t *testing.T) {
	verifRun(t, 20000, vCase{"conditions", 1, func(g *vG) {
		f := vGenFont(g, "conditions")
		f.Log(g)
		x := f.Font().Rewrites()
		g.Check(int(x.NumConditions()) == len(f.conds), "NumConditions %d, stored %d", x.NumConditions(), len(f.conds))
		for k := 0; k < 12; k++ {
			s := f.randSettings(g)
			if g.P(50) {
				for i := range s {
					s[i] = uint8(g.N(5))
				}
			}
			key := g.Pick(g.N(len(f.conds)+1), g.N(len(f.conds)+1), len(f.conds), g.N(256))
			if key > 255 {
				continue
			}
			var got bool
			p := g.Panics(func() { got = x.EvaluateCondition(uint8(key), s) })
			g.Check(p == (key >= len(f.conds)), "EvaluateCondition(%d) of %d: panics %v", key, len(f.conds), p)
			if !p {
				_, want := vEvalCond(f.conds[key], s)
				g.Check(got == want, "condition %x with settings %v: %v, expected %v", f.conds[key], s, got, want)
			}
		}
	}})
}
