package internal_test

import (
	"regexp"
	"strings"
	"testing"

	"github.com/tinne26/ggfnt/internal"
)

var c02basic = regexp.MustCompile(`^[a-zA-Z0-9]+(-[a-zA-Z0-9]+)*$`)
var c02spaced = regexp.MustCompile(`^[a-zA-Z0-9 -]+$`)

func TestVerifC02(t *testing.T) {
	verifRun(t, 150000,
		vCase{"names", 1, func(g *vG) {
			var b []byte
			n := g.Pick(g.N(6), g.N(12), g.R(28, 36), 31, 32, 33, 0)
			for len(b) < n {
				switch g.N(14) {
				case 0, 1:
					b = append(b, '-')
				case 2:
					b = append(b, "-- /09:@AZ[`az{_\n\x00\x7f\xc3\xa9"[g.N(21)])
				default:
					b = append(b, "abcxyzABCXYZ0123456789"[g.N(22)])
				}
			}
			if g.P(20) {
				for i := range b {
					if g.P(10) {
						b[i] = byte(g.U64())
					}
				}
			}
			s := string(b)
			g.Logf("%q", s)
			ok := len(s) <= 32 && c02basic.MatchString(s) && !strings.Contains(s, "\n")
			err := internal.ValidateBasicName(s)
			g.Check((err == nil) == ok, "ValidateBasicName: %v", err)
			var p internal.ParsingBuffer
			g.Check((p.ValidateBasicName(s) == nil) == ok, "ParsingBuffer.ValidateBasicName")
			sp := len(s) <= 32 && c02spaced.MatchString(s) && !strings.Contains(s, "\n")
			err = p.ValidateBasicSpacedName(s)
			g.Check((err == nil) == sp, "ValidateBasicSpacedName: %v", err)
		}},
		vCase{"near misses", 1, func(g *vG) {
			// a valid name with one edit
			n := g.R(1, 33)
			b := make([]byte, n)
			for i := range b {
				b[i] = "azAZ09mM5"[g.N(9)]
				if i > 0 && i < n-1 && b[i-1] != '-' && g.P(15) {
					b[i] = '-'
				}
			}
			if g.P(70) {
				b[g.N(n)] = byte(g.Pick('-', ' ', '_', g.N(256), '/', ':', '@', '[', '`', '{'))
			}
			s := string(b)
			g.Logf("%q", s)
			ok := len(s) <= 32 && c02basic.MatchString(s) && !strings.Contains(s, "\n")
			g.Check((internal.ValidateBasicName(s) == nil) == ok, "ValidateBasicName")
			var p internal.ParsingBuffer
			sp := len(s) <= 32 && c02spaced.MatchString(s) && !strings.Contains(s, "\n")
			g.Check((p.ValidateBasicSpacedName(s) == nil) == sp, "ValidateBasicSpacedName")
		}},
	)
}
