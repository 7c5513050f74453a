package ggfnt_test

//overlay fontgen.go

import (
	"bytes"
	"errors"
	"testing"

	"github.com/tinne26/ggfnt"
)

func TestVerifC20(t *testing.T) {
	verifRun(t, 20000, vCase{"rewrites", 1, func(g *vG) {
		f := vGenFont(g, "rewrites")
		f.Log(g)
		x := f.Font().Rewrites()
		g.Check(int(x.NumUTF8Rules()) == len(f.urules) && int(x.NumGlyphRules()) == len(f.grules) && int(x.NumUTF8Sets()) == len(f.usets) && int(x.NumGlyphSets()) == len(f.gsets) && int(x.NumConditions()) == len(f.conds),
			"counts %d %d %d %d %d", x.NumUTF8Rules(), x.NumGlyphRules(), x.NumUTF8Sets(), x.NumGlyphSets(), x.NumConditions())
		for k := 0; k < 6; k++ {
			i := g.Pick(g.N(len(f.urules)+1), len(f.urules), 65535)
			var r ggfnt.Utf8RewriteRule
			p := g.Panics(func() { r = x.GetUtf8Rule(uint16(i)) })
			g.Check(p == (i >= len(f.urules)), "GetUtf8Rule(%d) panics %v", i, p)
			if !p {
				w := f.urules[i]
				g.Check(bytes.Equal(r.Data, w.encode(true)), "utf8 rule %d is %x, expected %x", i, r.Data, w.encode(true))
				g.Check(r.Condition() == w.cond && int(r.HeadLen()) == w.head && int(r.BodyLen()) == w.body && int(r.TailLen()) == w.tail && int(r.InLen()) == w.head+w.body+w.tail && int(r.OutLen()) == len(w.out), "utf8 rule %d fields", i)
				n := 0
				r.EachOut(func(c rune) {
					g.Check(n < len(w.out) && uint32(c) == w.out[n], "utf8 rule %d: output %d is %d of %v", i, n, c, w.out)
					n++
				})
				g.Check(n == len(w.out), "utf8 rule %d: %d outputs of %d", i, n, len(w.out))
				j := g.N(len(f.urules))
				g.Check(r.Equals(x.GetUtf8Rule(uint16(j))) == bytes.Equal(r.Data, f.urules[j].encode(true)), "Equals(%d, %d)", i, j)
				c := ggfnt.Utf8RewriteRule{Data: append([]byte{}, r.Data...)}
				g.Check(r.Equals(c), "a rule differs from its copy")
				c.Data[g.N(len(c.Data))] ^= byte(1 << g.N(8))
				g.Check(!r.Equals(c) && !c.Equals(r), "rules that differ are equal")
				c.Data = r.Data[:len(r.Data)-1]
				g.Check(!r.Equals(c) && !c.Equals(r), "rules of different lengths are equal")
			}
			i = g.Pick(g.N(len(f.grules)+1), len(f.grules), 65535)
			var q ggfnt.GlyphRewriteRule
			p = g.Panics(func() { q = x.GetGlyphRule(uint16(i)) })
			g.Check(p == (i >= len(f.grules)), "GetGlyphRule(%d) panics %v", i, p)
			if !p {
				w := f.grules[i]
				g.Check(bytes.Equal(q.Data, w.encode(false)), "glyph rule %d is %x, expected %x", i, q.Data, w.encode(false))
				g.Check(q.Condition() == w.cond && int(q.HeadLen()) == w.head && int(q.BodyLen()) == w.body && int(q.TailLen()) == w.tail && int(q.InLen()) == w.head+w.body+w.tail && int(q.OutLen()) == len(w.out), "glyph rule %d fields", i)
				n := 0
				q.EachOut(func(c ggfnt.GlyphIndex) {
					g.Check(n < len(w.out) && uint32(c) == w.out[n], "glyph rule %d: output %d is %d of %v", i, n, c, w.out)
					n++
				})
				g.Check(n == len(w.out), "glyph rule %d: %d outputs of %d", i, n, len(w.out))
				j := g.N(len(f.grules))
				g.Check(q.Equals(x.GetGlyphRule(uint16(j))) == bytes.Equal(q.Data, f.grules[j].encode(false)), "Equals(%d, %d)", i, j)
				c := ggfnt.GlyphRewriteRule{Data: append([]byte{}, q.Data...)}
				g.Check(q.Equals(c), "a rule differs from its copy")
				c.Data[g.N(len(c.Data))] ^= byte(1 << g.N(8))
				g.Check(!q.Equals(c) && !c.Equals(q), "rules that differ are equal")
			}
			stop := errors.New("stop")
			i = g.Pick(g.N(len(f.usets)+1), len(f.usets), 255)
			var us ggfnt.Utf8RewriteSet
			p = g.Panics(func() { us = x.GetUtf8Set(uint8(i)) })
			g.Check(p == (i >= len(f.usets)), "GetUtf8Set(%d) panics %v", i, p)
			if !p {
				w := f.usets[i]
				n, at := 0, g.Pick(-1, g.N(5), g.N(300))
				each := func(a, b uint32, xs [][2]uint32) error {
					g.Check(n < len(xs) && xs[n] == [2]uint32{a, b}, "utf8 set %d: element %d is %d-%d of %v", i, n, a, b, xs)
					n++
					if n-1 == at {
						return stop
					}
					return nil
				}
				lst := func(l []uint32) (xs [][2]uint32) {
					for _, e := range l {
						xs = append(xs, [2]uint32{e, e})
					}
					return
				}
				end := func(err error, max int) {
					g.Check((err == stop) == (at >= 0 && at < max) && (err == nil || err == stop) && (err == stop && n == at+1 || err == nil && n == max), "set %d: %d elements of %d, error at %d: %v", i, n, max, at, err)
					n = 0
				}
				end(us.EachRange(func(a, b rune) error { return each(uint32(a), uint32(b), w.ranges) }), len(w.ranges))
				end(us.EachListRune(func(a rune) error { return each(uint32(a), uint32(a), lst(w.list)) }), len(w.list))
			}
			i = g.Pick(g.N(len(f.gsets)+1), len(f.gsets), 255)
			var gs ggfnt.GlyphRewriteSet
			p = g.Panics(func() { gs = x.GetGlyphSet(uint8(i)) })
			g.Check(p == (i >= len(f.gsets)), "GetGlyphSet(%d) panics %v", i, p)
			if !p {
				w := f.gsets[i]
				n, at := 0, g.Pick(-1, g.N(5), g.N(300))
				each := func(a, b uint32, xs [][2]uint32) error {
					g.Check(n < len(xs) && xs[n] == [2]uint32{a, b}, "glyph set %d: element %d is %d-%d of %v", i, n, a, b, xs)
					n++
					if n-1 == at {
						return stop
					}
					return nil
				}
				lst := func(l []uint32) (xs [][2]uint32) {
					for _, e := range l {
						xs = append(xs, [2]uint32{e, e})
					}
					return
				}
				end := func(err error, max int) {
					g.Check((err == stop) == (at >= 0 && at < max) && (err == nil || err == stop) && (err == stop && n == at+1 || err == nil && n == max), "set %d: %d elements of %d, error at %d: %v", i, n, max, at, err)
					n = 0
				}
				end(gs.EachRange(func(r ggfnt.GlyphRange) error { return each(uint32(r.First), uint32(r.Last), w.ranges) }), len(w.ranges))
				end(gs.EachListGlyph(func(a ggfnt.GlyphIndex) error { return each(uint32(a), uint32(a), lst(w.list)) }), len(w.list))
			}
		}
	}})
}
