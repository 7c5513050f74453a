package ggfnt_test

//overlay fontgen.go

import (
	"testing"

	"github.com/tinne26/ggfnt"
)

func TestVerifC10(t *testing.T) {
	var base *vFont
	verifRun(t, 100000, vCase{"metrics", 1, func(g *vG) {
		if base == nil || g.P(2) {
			base = vGenFont(g, "metrics")
		}
		d := base.font.Data
		o := int(base.font.OffsetToMetrics)
		m := d[o : o+15]
		copy(m, g.Bytes(15))
		if g.Bool() {
			m[2] = byte(g.Pick(0, 1, 1, 2))
			m[5] = byte(g.Pick(0, 1, int(m[4]), int(m[4])+1))
			m[11] = byte(g.Pick(0, 0, 3))
		}
		if g.P(20) {
			m[0], m[1] = byte(g.Pick(0, 0, 1)), byte(g.Pick(0, 0, 1))
		}
		if g.P(10) {
			m[3], m[4] = byte(g.Pick(0, 1)), byte(g.Pick(0, 1))
		}
		g.Logf("font of %d bytes, metrics at %d: %v", len(d), o, m)
		x := base.Font().Metrics()
		for _, c := range []struct {
			name string
			got  int
			want int
		}{
			{"NumGlyphs", int(x.NumGlyphs()), int(m[0]) + int(m[1])<<8},
			{"MonoWidth", int(x.MonoWidth()), int(m[3])},
			{"Ascent", int(x.Ascent()), int(m[4])},
			{"ExtraAscent", int(x.ExtraAscent()), int(m[5])},
			{"Descent", int(x.Descent()), int(m[6])},
			{"ExtraDescent", int(x.ExtraDescent()), int(m[7])},
			{"UppercaseAscent", int(x.UppercaseAscent()), int(m[8])},
			{"MidlineAscent", int(x.MidlineAscent()), int(m[9])},
			{"HorzInterspacing", int(x.HorzInterspacing()), int(m[10])},
			{"VertInterspacing", int(x.VertInterspacing()), int(m[11])},
			{"LineGap", int(x.LineGap()), int(m[12])},
			{"VertLineWidth", int(x.VertLineWidth()), int(m[13])},
			{"VertLineGap", int(x.VertLineGap()), int(m[14])},
			{"LineHeight", x.LineHeight(), int(m[4]) + int(m[6]) + int(m[12])},
			{"VertLineFullWidth", x.VertLineFullWidth(), int(m[13]) + int(m[14])},
		} {
			g.Check(c.got == c.want, "%s is %d, expected %d", c.name, c.got, c.want)
		}
		g.Check(x.HasVertLayout() == (m[2] == 1), "HasVertLayout %v", x.HasVertLayout())
		g.Check(x.Monospaced() == (m[3] != 0), "Monospaced %v", x.Monospaced())
		valid := (m[0] != 0 || m[1] != 0) && m[2] <= 1 && m[4] != 0 && m[5] <= m[4] && (m[11] == 0 || m[2] == 1)
		g.Check((x.Validate(ggfnt.FmtDefault) == nil) == valid, "Validate returns %v", x.Validate(ggfnt.FmtDefault))
	}})
}
