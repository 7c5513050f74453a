package ggfnt_test

//overlay fontgen.go

import "testing"

func TestVerifC15(t *testing.T) {
	verifRun(t, 20000, vCase{"switches", 1, func(g *vG) {
		f := vGenFont(g, "switches")
		f.Log(g)
		x := f.Font().Mapping()
		g.Check(int(x.NumSwitchTypes()) == len(f.switches), "NumSwitchTypes %d, stored %d", x.NumSwitchTypes(), len(f.switches))
		for k := 0; k < 12; k++ {
			s := f.randSettings(g)
			key := g.Pick(g.N(len(f.switches)+1), g.N(len(f.switches)+1), len(f.switches), g.N(256))
			if key > 255 {
				continue
			}
			var got uint8
			p := g.Panics(func() { got = x.EvaluateSwitch(uint8(key), s) })
			g.Check(p == (key >= len(f.switches)), "EvaluateSwitch(%d) of %d: panics %v", key, len(f.switches), p)
			if !p {
				want := f.caseOf(f.switches[key], s)
				g.Check(int(got) == want, "switch %d over %v with options %v, settings %v: case %d, expected %d", key, f.switches[key], f.options(), s, got, want)
			}
		}
	}})
}
