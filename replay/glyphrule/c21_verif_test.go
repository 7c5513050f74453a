package glyphrule_test

import (
	"testing"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/internal/rerules/glyphrule"
)

type c21elem struct {
	set bool
	val uint32
}

// c21parse reads a rule by the format's definition: the elements before the
// first problem, and whether there is none.
func c21parse(d []byte) (es []c21elem, ok bool) {
	const w = 2
	if len(d) < 5 || d[4] == 0 || d[4] > d[2] || int(d[1])+int(d[2])+int(d[3]) > 255 || len(d) < 11 {
		return nil, false
	}
	i := 5 + w*int(d[4])
	for b := 0; b < 3; b++ {
		n := int(d[1+b])
		if b == 2 && n == 0 && i == len(d) { // the last zero fragment may be missing
			return es, true
		}
		for first := true; first || n > 0; first = false {
			if i >= len(d) {
				return es, false
			}
			s, g := int(d[i]>>4), int(d[i]&15)
			i++
			if s+g > n || (s+g == 0 && n > 0) {
				return es, false
			}
			n -= s + g
			for ; s > 0; s-- {
				if i >= len(d) || d[i] == 255 {
					return es, false
				}
				es = append(es, c21elem{true, uint32(d[i])})
				i++
			}
			for ; g > 0; g-- {
				if i+w > len(d) {
					return es, false
				}
				v := uint32(0)
				for k := w - 1; k >= 0; k-- {
					v = v<<8 | uint32(d[i+k])
				}
				if v >= 56789 {
					return es, false
				}
				es = append(es, c21elem{false, v})
				i += w
			}
		}
	}
	return es, i == len(d)
}

func c21gen(g *vG) []byte {
	const w = 2
	l := [3]int{g.Pick(0, g.N(4), g.N(60)), g.Pick(1, 1+g.N(5), 1+g.N(80)), g.Pick(0, g.N(4), g.N(60))}
	out := g.Pick(1, 1+g.N(l[1]))
	if out > l[1] {
		out = l[1]
	}
	if g.P(4) {
		out = g.Pick(0, l[1]+1)
	}
	d := []byte{byte(g.Edge(255)), byte(l[0]), byte(l[1]), byte(l[2]), byte(out)}
	if g.P(4) {
		d[1+g.N(3)] = byte(g.Pick(0, 255, 200, g.N(256)))
	}
	val := func() {
		v := uint32(g.Pick(g.N(60), g.N(56789), 56788))
		if w == 4 {
			v = uint32(g.Pick(g.N(128), g.N(0x110000), 0xFFFC, 0xFFFE))
		}
		if g.P(1) {
			v = uint32(g.Pick(56789, 65535, 0xFFFD, 60000))
		}
		for k := 0; k < w; k++ {
			d = append(d, byte(v>>(8*k)))
		}
	}
	for k := 0; k < out; k++ {
		val()
	}
	for b := 0; b < 3; b++ {
		n := l[b]
		if n == 0 {
			d = append(d, 0)
		}
		for n > 0 {
			s, e := 0, 0
			switch g.N(3) {
			case 0:
				e = 1 + g.N(15)
			case 1:
				s = 1 + g.N(15)
			default:
				s, e = g.N(16), g.N(16)
			}
			if s > n {
				s = n
			}
			if e > n-s {
				e = n - s
			}
			if s+e == 0 {
				continue
			}
			n -= s + e
			if g.P(1) {
				s++
			}
			d = append(d, byte(s<<4|e&15))
			for ; s > 0; s-- {
				if g.P(1) {
					d = append(d, 255)
				} else {
					d = append(d, byte(g.Edge(254)))
				}
			}
			for ; e > 0; e-- {
				val()
			}
		}
	}
	switch {
	case g.P(12):
		d = d[:g.N(len(d)+1)]
	case g.P(8):
		d = append(d, g.Bytes(1+g.N(4))...)
	case g.P(6):
		d = append(d, make([]byte, 1+g.N(3))...)
	case g.P(5) && len(d) > 0:
		d = d[:len(d)-1]
	case g.P(12):
		d[g.N(len(d))] ^= byte(1 << g.N(8))
	}
	return d
}

func TestVerifC21(t *testing.T) {
	verifRun(t, 60000, vCase{"glyphrule", 1, func(g *vG) {
		d := c21gen(g)
		g.Logf("rule data %v", d)
		want, ok := c21parse(d)
		if !ok && len(want) == 0 {
			g.Trivial()
		}
		var sc glyphrule.RuleScanner
		if g.P(20) { // a scanner may have been used before
			if sc.Start(ggfnt.GlyphRewriteRule{Data: c21gen(g)}) == nil && g.P(50) && sc.HasNext() {
				sc.Next()
			}
		}
		err := sc.Start(ggfnt.GlyphRewriteRule{Data: d})
		if err != nil {
			g.Check(!ok, "Start refuses a well-formed rule: %v", err)
			return
		}
		g.Check(sc.Condition() == d[0] && sc.HeadLen() == d[1] && sc.BodyLen() == d[2] && sc.TailLen() == d[3], "the lengths differ from the rule's")
		n := 0
		for sc.HasNext() {
			g.Check(n <= 255, "more than 255 elements")
			e, s, err := sc.Next()
			if err != nil {
				g.Check(!ok, "Next refuses a well-formed rule at element %d: %v", n, err)
				return
			}
			g.Check(n < len(want), "element %d is not in the rule, which has %d", n, len(want))
			if want[n].set {
				g.Check(uint32(s) == want[n].val && e == glyphrule.GlyphNone, "element %d is (%d, set %d), expected set %d", n, e, s, want[n].val)
			} else {
				g.Check(s == glyphrule.GlyphSetNone && uint32(e) == want[n].val, "element %d is (%d, set %d), expected %d", n, e, s, want[n].val)
			}
			n++
		}
		g.Check(ok, "a malformed rule is scanned to its end without an error")
		g.Check(n == len(want), "%d elements, expected %d", n, len(want))
	}})
}
