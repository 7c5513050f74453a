package builder

import (
	"testing"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/internal"
)

func c27room(g *vG, head []byte) []byte {
	if g.Bool() {
		return append([]byte(nil), head...)
	}
	return append(make([]byte, 0, len(head)+g.N(60)), head...)
}

func c27le(d []byte, n int) (v int) {
	for i := n - 1; i >= 0; i-- {
		v = v<<8 | int(d[i])
	}
	return v
}

// c27frags reads the fragments of the head, body and tail of a rule.
func c27frags(g *vG, d []byte, sizes []int, width int) (isSet []bool, vals []int, rest []byte) {
	for b, size := range sizes {
		n := 0
		for first := true; first || n < size; first = false {
			g.Check(len(d) > 0, "block %d ends early", b)
			ns, ne := int(d[0]>>4), int(d[0]&15)
			g.Check(ns+ne > 0 || size == 0, "empty fragment in block %d", b)
			d = d[1:]
			g.Check(len(d) >= ns+ne*width, "fragment of block %d cut short", b)
			for i := 0; i < ns; i++ {
				isSet, vals, d = append(isSet, true), append(vals, int(d[0])), d[1:]
			}
			for i := 0; i < ne; i++ {
				isSet, vals, d = append(isSet, false), append(vals, c27le(d, width)), d[width:]
			}
			n += ns + ne
		}
		g.Check(n == size, "block %d has %d elements, expected %d", b, n, size)
	}
	return isSet, vals, d
}

func TestVerifC27(t *testing.T) {
	blocks := func(g *vG) [3]int {
		var s [3]int
		for i := range s {
			s[i] = g.Pick(0, 0, 1, 2, 3, 14, 15, 16, 17, 30, 31, g.N(40), g.N(85))
		}
		if s[1] == 0 {
			s[1] = 1
		}
		return s
	}
	lookup := func(g *vG, n int) (map[uint64]uint16, []uint64) {
		m, ids := map[uint64]uint16{}, []uint64{}
		for i := 0; i < n; i++ {
			id := g.U64()
			if _, ok := m[id]; !ok {
				m[id] = uint16(g.Pick(i, i, g.N(65535), 255+i))
				ids = append(ids, id)
			}
		}
		return m, ids
	}
	verifRun(t, 20000,
		vCase{"glyph rules", 2, func(g *vG) {
			m, ids := lookup(g, g.R(1, 30))
			sets, sids := map[uint64]uint8{}, []uint64{}
			for i := 0; i < 5; i++ {
				id := g.U64()
				sets[id] = uint8(g.Pick(i, g.N(255)))
				sids = append(sids, id)
			}
			s := blocks(g)
			r := glyphRewriteRule{condition: byte(g.Pick(255, g.N(255))), headLen: byte(s[0]), bodyLen: byte(s[1]), tailLen: byte(s[2])}
			var isSet []bool
			var vals []int
			bad := false
			stay := g.R(0, 95)
			cur := g.Bool()
			for i := 0; i < s[0]+s[1]+s[2]; i++ {
				if !g.P(stay) {
					cur = g.Bool()
				}
				r.inElemsAreGroups.Push(cur)
				isSet = append(isSet, cur)
				if cur {
					id := sids[g.N(len(sids))]
					if g.N(2000) == 0 {
						id, bad = g.U64(), true
					}
					r.inGroups, vals = append(r.inGroups, id), append(vals, int(sets[id]))
				} else {
					id := ids[g.N(len(ids))]
					if g.N(2000) == 0 {
						id, bad = g.U64(), true
					}
					r.inGlyphs, vals = append(r.inGlyphs, id), append(vals, int(m[id]))
				}
			}
			for n := g.Pick(0, 1, 2, g.N(20), g.N(256)); n > 0; n-- {
				id := ids[g.N(len(ids))]
				if g.N(2000) == 0 {
					id, bad = g.U64(), true
				}
				r.output = append(r.output, id)
			}
			g.Logf("blocks %v, sets %v, values %v, %d outputs, undefined: %v", s, isSet, vals, len(r.output), bad)
			head := g.Bytes(g.Pick(0, 1, 5))
			out, err := r.AppendTo(c27room(g, head), sets, m)
			g.Check(len(out) >= len(head) && string(out[:len(head)]) == string(head), "the data before was changed")
			g.Check((err != nil) == bad, "error %v", err)
			if err != nil {
				return
			}
			d := out[len(head):]
			g.Logf("bytes %v", d)
			g.Check(len(d) >= 5+2*len(r.output), "too short")
			g.Check(d[0] == r.condition && int(d[1]) == s[0] && int(d[2]) == s[1] && int(d[3]) == s[2] && int(d[4]) == len(r.output), "wrong header %v", d[:5])
			for i, id := range r.output {
				g.Check(c27le(d[5+2*i:], 2) == int(m[id]), "wrong output %d", i)
			}
			gs, gv, rest := c27frags(g, d[5+2*len(r.output):], s[:], 2)
			g.Check(len(rest) == 0, "%d bytes too many", len(rest))
			for i := range vals {
				g.Check(gs[i] == isSet[i] && gv[i] == vals[i], "element %d is set=%v %d, expected set=%v %d", i, gs[i], gv[i], isSet[i], vals[i])
			}
		}},
		vCase{"utf8 rules", 2, func(g *vG) {
			sets, sids := map[uint64]uint8{}, []uint64{}
			for i := 0; i < 5; i++ {
				id := g.U64()
				sets[id] = uint8(g.Pick(i, g.N(255)))
				sids = append(sids, id)
			}
			rn := func() rune { return rune(g.Pick(g.R(32, 126), g.R(0, 0x10FFFF), g.R(255, 257), g.R(65535, 65537))) }
			s := blocks(g)
			r := utf8RewriteRule{condition: byte(g.Pick(255, g.N(255))), headLen: byte(s[0]), bodyLen: byte(s[1]), tailLen: byte(s[2])}
			var isSet []bool
			var vals []int
			bad := false
			stay := g.R(0, 95)
			cur := g.Bool()
			for i := 0; i < s[0]+s[1]+s[2]; i++ {
				if !g.P(stay) {
					cur = g.Bool()
				}
				r.inElemsAreGroups.Push(cur)
				isSet = append(isSet, cur)
				if cur {
					id := sids[g.N(len(sids))]
					if g.N(2000) == 0 {
						id, bad = g.U64(), true
					}
					r.inGroups, vals = append(r.inGroups, id), append(vals, int(sets[id]))
				} else {
					c := rn()
					r.inRunes, vals = append(r.inRunes, c), append(vals, int(c))
				}
			}
			for n := g.Pick(0, 1, 2, g.N(20), g.N(256)); n > 0; n-- {
				r.output = append(r.output, rn())
			}
			g.Logf("blocks %v, sets %v, values %v, output %v, undefined: %v", s, isSet, vals, r.output, bad)
			head := g.Bytes(g.Pick(0, 1, 5))
			out, err := r.AppendTo(c27room(g, head), sets)
			g.Check(len(out) >= len(head) && string(out[:len(head)]) == string(head), "the data before was changed")
			g.Check((err != nil) == bad, "error %v", err)
			if err != nil {
				return
			}
			d := out[len(head):]
			g.Logf("bytes %v", d)
			g.Check(len(d) >= 5+4*len(r.output), "too short")
			g.Check(d[0] == r.condition && int(d[1]) == s[0] && int(d[2]) == s[1] && int(d[3]) == s[2] && int(d[4]) == len(r.output), "wrong header %v", d[:5])
			for i, c := range r.output {
				g.Check(c27le(d[5+4*i:], 4) == int(c), "wrong output %d", i)
			}
			gs, gv, rest := c27frags(g, d[5+4*len(r.output):], s[:], 4)
			g.Check(len(rest) == 0, "%d bytes too many", len(rest))
			for i := range vals {
				g.Check(gs[i] == isSet[i] && gv[i] == vals[i], "element %d is set=%v %d, expected set=%v %d", i, gs[i], gv[i], isSet[i], vals[i])
			}
		}},
		vCase{"glyph sets", 1, func(g *vG) {
			m, ids := lookup(g, g.R(1, 30))
			var s reGlyphSet
			ok := true
			for n := g.Pick(0, 1, 2, g.N(20), g.N(255), 254); n > 0; n-- {
				a, b := ids[g.N(len(ids))], ids[g.N(len(ids))]
				if g.P(30) {
					b = a
				}
				if m[a] > m[b] {
					a, b = b, a
				}
				for k := 0; m[b]-m[a] > 255 && k < 100; k++ {
					b = a
				}
				if g.N(3000) == 0 {
					a, b = ids[g.N(len(ids))], ids[g.N(len(ids))]
				}
				if g.N(5000) == 0 {
					b = g.U64()
				}
				_, okA := m[a]
				_, okB := m[b]
				ok = ok && okA && okB && (a == b || m[a] <= m[b] && m[b]-m[a] <= 255)
				s.ranges = append(s.ranges, uidRange{a, b})
			}
			for n := g.Pick(0, 1, 2, g.N(20), g.N(255), 254); n > 0; n-- {
				a := ids[g.N(len(ids))]
				if g.N(5000) == 0 {
					a, ok = g.U64(), false
				}
				s.list = append(s.list, a)
			}
			g.Logf("ranges %v, list %v, indices %v", s.ranges, s.list, m)
			head := g.Bytes(g.Pick(0, 1, 5))
			out, err := s.AppendTo(c27room(g, head), m)
			g.Check(len(out) >= len(head) && string(out[:len(head)]) == string(head), "the data before was changed")
			g.Check((err == nil) == ok, "error %v, expected valid=%v", err, ok)
			if err != nil {
				return
			}
			want := []byte{byte(len(s.ranges))}
			for _, r := range s.ranges {
				want = append(want, byte(m[r.First]), byte(m[r.First]>>8), byte(m[r.Last]-m[r.First]))
			}
			want = append(want, byte(len(s.list)))
			for _, a := range s.list {
				want = append(want, byte(m[a]), byte(m[a]>>8))
			}
			g.Check(string(out[len(head):]) == string(want), "%v, expected %v", out[len(head):], want)
			g.Check(int(s.GetSize()) == len(want), "size %d, expected %d", s.GetSize(), len(want))
		}},
		vCase{"mappings", 2, func(g *vG) {
			m, ids := lookup(g, 300)
			var e mappingEntry
			n := g.Pick(1, 1, 2, 3, g.R(1, 20))
			e.SwitchType = byte(g.Pick(g.N(254), g.N(254), 253, 254, 255))
			if e.SwitchType >= 254 {
				n = 1
			}
			for i := 0; i < n; i++ {
				k := g.Pick(1, 2, 3, g.R(1, 20), 127, 128)
				if e.SwitchType == 254 {
					k = max(k, 2)
				} else if e.SwitchType == 255 {
					k = 1
				}
				gr := mappingGroup{AnimationFlags: ggfnt.AnimationFlags(g.N(256))}
				how, first := g.N(4), g.N(100)
				for j := 0; j < k; j++ {
					if how == 0 || how == 1 && g.P(10) { // somewhere
						gr.Glyphs = append(gr.Glyphs, ids[g.N(len(ids))])
					} else { // consecutive
						gr.Glyphs = append(gr.Glyphs, ids[first+j])
					}
				}
				e.SwitchCases = append(e.SwitchCases, gr)
			}
			g.Logf("entry %v, indices %v", e, m)
			head := g.Bytes(g.Pick(0, 1, 5))
			sb := make([]uint16, g.N(4))[:0]
			out, sb, err := e.AppendTo(c27room(g, head), m, sb)
			g.Check(err == nil && len(sb) == 0, "error %v, %d left in the buffer", err, len(sb))
			g.Check(len(out) > len(head) && string(out[:len(head)]) == string(head), "the data before was changed")
			d := out[len(head):]
			g.Logf("bytes %v", d)
			g.Check(d[0] == e.SwitchType, "wrong switch type")
			d = d[1:]
			for i, gr := range e.SwitchCases {
				k := len(gr.Glyphs)
				if e.SwitchType == 255 {
					g.Check(len(d) == 2 && c27le(d, 2) == int(m[gr.Glyphs[0]]), "wrong glyph")
					return
				}
				g.Check(len(d) >= 3 && int(d[0]&127) == k-1, "wrong size of group %d", i)
				list := d[0] < 128
				d = d[1:]
				if k > 1 {
					g.Check(d[0] == byte(gr.AnimationFlags), "wrong flags of group %d", i)
					d = d[1:]
				} else {
					g.Check(list, "range of one glyph")
				}
				for j, id := range gr.Glyphs {
					g.Check(len(d) >= 2, "group %d cut short", i)
					v := c27le(d, 2)
					if list {
						d = d[2:]
					} else {
						v += j
					}
					g.Check(v == int(m[id]), "glyph %d of group %d is %d, expected %d", j, i, v, m[id])
				}
				if !list {
					d = d[2:]
				}
			}
			g.Check(len(d) == 0, "%d bytes too many", len(d))
		}},
		vCase{"settings", 1, func(g *vG) {
			words, builtin := map[string]int16{"a": 0, "b": int16(g.N(256)), "c": 255}, map[string]int16{"on": -1, "off": -2, "x": 7, "b": -100}
			var e settingEntry
			var want []byte
			for n := g.Pick(0, 1, 2, g.N(20), 255); n > 0; n-- {
				w := []string{"a", "b", "c", "on", "off", "x"}[g.N(6)]
				e.Options = append(e.Options, w)
				v, ok := words[w]
				if !ok {
					v = builtin[w]
				}
				want = append(want, byte(v))
			}
			head := g.Bytes(g.Pick(0, 1, 5))
			g.Logf("options %v", e.Options)
			out := e.AppendTo(c27room(g, head), builtin, words)
			g.Check(string(out) == string(head)+string(want), "%v, expected %v after %v", out, want, head)
		}})
	_ = internal.MaxFontDataSize
}
