package ggfnt_test

import (
	"strings"
	"testing"
	"time"

	"github.com/tinne26/ggfnt"
)

func TestVerifC03(t *testing.T) {
	verifRun(t, 200000,
		vCase{"date", 1, func(g *vG) {
			y := g.Pick(0, 0, g.N(65536), g.N(65536)/4*4, g.N(656)*100, g.N(164)*400, g.R(1900, 2100))
			m := g.Pick(0, 2, 2, g.N(13), g.N(13), g.N(256))
			d := g.Pick(0, 1, 28, 29, 30, 31, 32, g.N(32), g.N(256))
			g.Logf("date %d-%d-%d", y, m, d)
			dt := ggfnt.Date{Year: uint16(y), Month: uint8(m), Day: uint8(d)}
			valid := true
			switch {
			case y == 0:
				valid = m == 0 && d == 0
			case m == 0:
				valid = d == 0
			case m > 12:
				valid = false
			case d > 0:
				tm := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
				valid = tm.Day() == d && int(tm.Month()) == m
			}
			g.Check(dt.IsValid() == valid, "IsValid is %v", !valid)
			g.Check(dt.IsComplete() == (y != 0 && m != 0 && d != 0), "IsComplete")
			g.Check(dt.HasYear() == (y != 0) && dt.HasMonth() == (m != 0) && dt.HasDay() == (d != 0), "Has*")
			name := "????"
			if m >= 1 && m <= 12 {
				name = time.Month(m).String()
			}
			g.Check(dt.MonthName() == name, "month name %q", dt.MonthName())
			s := dt.String()
			if m != 0 {
				g.Check(strings.Contains(s, name), "string %q", s)
			}
		}},
	)
}
