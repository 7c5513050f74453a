package internal_test

import (
	"testing"

	"github.com/tinne26/ggfnt/internal"
)

func c04history(g *vG, big bool) {
	var q internal.CircularBufferU16[int]
	var m []int
	capac, peeks := 0, 0
	next := 1
	steps := g.R(5, 60)
	if big {
		// move the head near the end of a large buffer
		capac = g.Pick(65535, 65534, 65535, g.R(65000, 65535))
		g.Check(q.SetCapacity(uint16(capac)), "SetCapacity(%d) refused", capac)
		k := g.R(capac-20, capac-1)
		for i := 0; i < k; i++ {
			q.Push(-1)
			q.PopHead()
		}
		g.Logf("capacity %d, head moved by %d", capac, k)
		steps = g.R(10, 50)
	}
	for i := 0; i < steps; i++ {
		switch op := g.N(13); op {
		case 0, 1, 2, 3:
			n := 1
			if g.P(10) {
				n = g.R(1, 12)
			}
			for ; n > 0; n-- {
				full := len(m) >= capac
				next++
				g.Logf("push %d", next)
				p := g.Panics(func() { q.Push(next) })
				g.Check(p == full, "push panics: %v", p)
				if !full {
					m = append(m, next)
				}
			}
		case 4, 5, 6:
			q.DiscardPeeks()
			peeks = 0
			g.Logf("pop head")
			var v int
			p := g.Panics(func() { v = q.PopHead() })
			g.Check(p == (len(m) == 0), "pop head panics: %v", p)
			if !p {
				g.Check(v == m[0], "popped %d, want %d", v, m[0])
				m = m[1:]
			}
		case 7:
			q.DiscardPeeks()
			peeks = 0
			g.Logf("pop tail")
			var v int
			p := g.Panics(func() { v = q.PopTail() })
			g.Check(p == (len(m) == 0), "pop tail panics: %v", p)
			if !p {
				g.Check(v == m[len(m)-1], "popped %d, want %d", v, m[len(m)-1])
				m = m[:len(m)-1]
			}
		case 8:
			g.Logf("peek")
			v, ok := q.PeekAhead()
			want := peeks+1 < len(m)
			g.Check(ok == want, "peek ok %v, want %v", ok, want)
			if ok {
				peeks++
				g.Check(v == m[peeks], "peek %d, want %d", v, m[peeks])
			}
		case 9:
			g.Logf("confirm")
			q.ConfirmPeeks()
			m = m[peeks:]
			peeks = 0
		case 10:
			g.Logf("discard")
			q.DiscardPeeks()
			peeks = 0
		case 11:
			c := g.Pick(g.N(8), g.N(20), len(m), len(m)+1, max(len(m)-1, 0), capac, max(capac-1, 0), capac+1, capac+g.N(10), max(0, capac-g.N(10)))
			if c > 65535 {
				c = 65535
			}
			min := g.P(30)
			g.Logf("set capacity %d (min %v)", c, min)
			if min {
				g.Check(q.SetMinCapacity(uint16(c)), "SetMinCapacity refused")
				if c > capac {
					capac = c
				}
			} else {
				ok := q.SetCapacity(uint16(c))
				g.Check(ok == (c >= len(m)), "SetCapacity gives %v", ok)
				if ok {
					capac = c
				}
			}
		case 12:
			if g.P(20) {
				g.Logf("clear")
				q.Clear()
				m, peeks = nil, 0
			}
		}
		g.Check(int(q.Size()) == len(m) && int(q.Capacity()) == capac && q.IsEmpty() == (len(m) == 0), "size %d/%d want %d/%d", q.Size(), q.Capacity(), len(m), capac)
		if len(m) > 0 {
			g.Check(q.Head() == m[0] && q.Tail() == m[len(m)-1], "head %d tail %d, want %d %d", q.Head(), q.Tail(), m[0], m[len(m)-1])
		}
	}
	q.DiscardPeeks()
	g.Logf("drain")
	for _, v := range m {
		x := q.PopHead()
		g.Check(x == v, "drained %d, want %d", x, v)
	}
	g.Check(q.IsEmpty(), "not empty")
}

func TestVerifC04(t *testing.T) {
	verifRun(t, 30000,
		vCase{"small histories", 9, func(g *vG) { c04history(g, false) }},
		vCase{"large capacities", 1, func(g *vG) { c04history(g, true) }},
	)
}
