package utf8rule_test

import (
	"testing"

	"github.com/tinne26/ggfnt/internal/rerules/utf8rule"
)

type c22val struct{ next, rule uint8 }

// c22look is the meaning of a state: what a symbol leads to, by linear search.
func c22look(s *utf8rule.State, c int) (c22val, int) {
	n, v := 0, c22val{255, 255}
	for _, t := range s.Transitions {
		if int(t.Range.First) <= c && c <= int(t.Range.Last) {
			n++
			v = c22val{uint8(t.NextState), uint8(t.RuleMatch)}
		}
	}
	return v, n
}

func TestVerifC22(t *testing.T) {
	const top = 2147483647
	verifRun(t, 4000, vCase{"automaton states", 1, func(g *vG) {
		var s utf8rule.State
		s.Reset()
		base := g.Pick(0, 0, 100, top-700)
		span := g.Pick(8, 30, 30, 30, 690)
		points := []int{}
		for n := g.R(1, g.Pick(6, 6, 20, 20, 20, 20, 400)); n > 0; n-- {
			a := base + g.R(0, span)
			b := a + g.Pick(0, 0, 1, 2, g.R(0, span))
			if g.P(10) && len(s.Transitions) > 0 { // exactly the range of a transition, or adjacent
				r := s.Transitions[g.R(0, len(s.Transitions)-1)].Range
				a, b = int(r.First), int(r.Last)
				if g.P(50) {
					a, b = b+1, b+1+g.R(0, 3)
				}
			}
			if b >= top {
				b = top - 1
			}
			if a > b {
				a = b
			}
			rule := utf8rule.RuleIndex(g.Pick(255, 1, 2, 7))
			prev := utf8rule.State{Transitions: append([]utf8rule.Transition(nil), s.Transitions...)}
			g.Logf("%d transitions, AppendRange(%d..%d, rule %d)", len(s.Transitions), a, b, rule)
			link := utf8rule.StateIndex(g.R(0, 200))
			err := s.AppendRange(utf8rule.RuneRange{First: rune(a), Last: rune(b)}, rule, func(in utf8rule.StateIndex, splits int) (utf8rule.StateIndex, error) {
				return link, nil
			})
			if err != nil {
				g.Check(len(s.Transitions) > 200, "error with only %d transitions: %v", len(s.Transitions), err)
				return
			}
			for i, t := range s.Transitions {
				g.Check(t.Range.First <= t.Range.Last, "transition %d is empty: %v", i, t.Range)
				g.Check(i == 0 || s.Transitions[i-1].Range.Last < t.Range.First, "transitions %d and %d are out of order or overlap", i-1, i)
			}
			points = append(points, a, b, a-1, b+1, a+(b-a)/2, base+g.R(0, span))
			if len(points) > 40 {
				points = points[len(points)-40:]
			}
			for _, c := range points {
				if c < 0 || c > top {
					continue
				}
				old, n0 := c22look(&prev, c)
				now, n1 := c22look(&s, c)
				in := a <= c && c <= b
				want := n0
				if in {
					want = 1
				}
				g.Check(n1 == want, "symbol %d is covered %d times, expected %d (before: %d)", c, n1, want, n0)
				exp := old
				if in && rule != 255 && old.rule == 255 {
					exp.rule = uint8(rule)
				}
				if in && rule == 255 {
					exp.next = uint8(link)
				}
				g.Check(now == exp, "symbol %d leads to (state, rule) %v, expected %v", c, now, exp)
				next, r := s.Trigger(rune(c))
				g.Check(uint8(next) == now.next && uint8(r) == now.rule, "Trigger(%d) = %d, %d, expected %v", c, next, r, now)
			}
		}
		var d utf8rule.State
		for n := g.R(0, 3); n > 0; n-- {
			d.Transitions = append(d.Transitions, utf8rule.Transition{RuleMatch: 77})
		}
		for n := g.R(0, 3); n > 0; n-- {
			h := uint8(g.R(0, 255))
			lo, hi := s.MinHeadLen, s.MaxHeadLen
			s.UpdateHeadLen(h)
			g.Check(s.MinHeadLen == min(lo, h) && s.MaxHeadLen == max(hi, h), "UpdateHeadLen(%d): %d..%d, before %d..%d", h, s.MinHeadLen, s.MaxHeadLen, lo, hi)
			q := uint8(g.R(0, 255))
			g.Check(s.SatisfiesMinRequiredHead(q) == (s.MinHeadLen <= q && q <= s.MaxHeadLen), "SatisfiesMinRequiredHead(%d) with %d..%d", q, s.MinHeadLen, s.MaxHeadLen)
		}
		d.CopyDataFrom(s)
		g.Check(len(d.Transitions) == len(s.Transitions) && d.MinHeadLen == s.MinHeadLen && d.MaxHeadLen == s.MaxHeadLen, "CopyDataFrom differs")
		for i := range d.Transitions {
			g.Check(d.Transitions[i] == s.Transitions[i], "CopyDataFrom: transition %d differs", i)
		}
		d.Reset()
		g.Check(len(d.Transitions) == 0 && d.MinHeadLen == 255 && d.MaxHeadLen == 0, "Reset leaves %v", d)
	}})
}
