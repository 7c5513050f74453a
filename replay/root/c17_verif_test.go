package ggfnt_test

//overlay fontgen.go

import (
	"testing"

	"github.com/tinne26/ggfnt"
)

func TestVerifC17(t *testing.T) {
	verifRun(t, 20000, vCase{"settings", 1, func(g *vG) {
		f := vGenFont(g, "switches")
		if len(f.conds) == 0 {
			f = vGenFont(g, "conditions")
		}
		f.Log(g)
		c := ggfnt.NewSettingsCache(f.Font())
		set := make([]uint8, len(f.sets))
		cases, conds := map[int]uint8{}, map[int]bool{}
		for k := 0; k < 60; k++ {
			switch g.N(7) {
			case 0:
				i := g.N(256)
				want := uint8(0)
				if i < len(set) {
					want = set[i]
				}
				g.Check(c.Get(ggfnt.SettingKey(i)) == want, "Get(%d) is %d, expected %d", i, c.Get(ggfnt.SettingKey(i)), want)
			case 1:
				if len(set) > 0 && g.P(50) {
					i, o := g.N(len(set)), uint8(g.N(256))
					g.Logf("Set(%d, %d)", i, o)
					m, r := c.Set(ggfnt.SettingKey(i), o)
					set[i] = o
					if m {
						clear(cases)
					}
					if r {
						clear(conds)
					}
					g.Check(m && r, "Set reports (%v, %v) although the setting can matter", m, r)
				}
			case 2, 3:
				i := g.Pick(254, 255, g.N(len(f.switches)+1), g.N(len(f.switches)+1))
				if i >= len(f.switches) && i < 254 {
					continue
				}
				v, ok := c.GetMappingCase(uint8(i))
				w, have := cases[i]
				if i >= 254 {
					g.Check(ok && v == 0, "case of switch %d is (%d, %v)", i, v, ok)
				} else {
					g.Check(ok == have && (!ok || v == w), "case of switch %d is (%d, %v), cached (%d, %v)", i, v, ok, w, have)
				}
			case 4:
				if len(f.switches) > 0 {
					i, v := g.N(len(f.switches)), uint8(g.N(256))
					g.Logf("CacheMappingCase(%d, %d)", i, v)
					c.CacheMappingCase(uint8(i), v)
					cases[i] = v
				}
			case 5:
				i := g.Pick(255, g.N(len(f.conds)+1), g.N(len(f.conds)+1))
				if i >= len(f.conds) && i < 255 {
					continue
				}
				v, ok := c.GetRewriteCondition(uint8(i))
				w, have := conds[i]
				if i == 255 {
					g.Check(ok && v, "condition 255 is (%v, %v)", v, ok)
				} else {
					g.Check(ok == have && (!ok || v == w), "condition %d is (%v, %v), cached (%v, %v)", i, v, ok, w, have)
				}
			case 6:
				if len(f.conds) > 0 {
					i, v := g.N(len(f.conds)), g.Bool()
					g.Logf("CacheRewriteCondition(%d, %v)", i, v)
					c.CacheRewriteCondition(uint8(i), v)
					conds[i] = v
				}
			}
		}
		s := c.UnsafeSlice()
		g.Check(string(s) == string(set), "UnsafeSlice is %v, expected %v", s, set)
	}}, vCase{"mapping", 1, func(g *vG) {
		f := vGenFont(g, "mapping")
		f2 := vGenFont(g, "mapping")
		f.Log(g)
		font := f.Font()
		sc := ggfnt.NewSettingsCache(font)
		size := g.Pick(1, 2, 3, 4, g.R(1, 8), 100)
		mc := ggfnt.NewMappingCache(font, size)
		g.Logf("cache of %d", size)
		cps := []rune{0, -1, 0x10FFFF, 'a'}
		for _, e := range f.maps {
			cps = append(cps, e.cp, e.cp, e.cp+1)
		}
		for k := 0; k < 120; k++ {
			switch g.N(12) {
			case 0:
				if len(f.sets) > 0 {
					i := g.N(len(f.sets))
					o := g.N(len(f.sets[i].data))
					g.Logf("Set(%d, %d); Drop()", i, o)
					sc.Set(ggfnt.SettingKey(i), uint8(o))
					mc.Drop()
				}
			case 1:
				if g.P(30) {
					mc.Drop()
					g.Logf("Drop()")
				} else if g.P(10) {
					f, f2 = f2, f
					font = f.Font()
					sc = ggfnt.NewSettingsCache(font)
					mc.Reset(font)
					g.Logf("Reset()")
					f.Log(g)
					for _, e := range f.maps {
						cps = append(cps, e.cp, e.cp, e.cp+1)
					}
				}
			case 2:
				// a direct lookup between the cached ones
				cp := cps[g.N(len(cps))]
				s := sc.UnsafeSlice()
				x, ok := font.Mapping().Utf8WithCache(cp, sc)
				y, ok2 := font.Mapping().Utf8(cp, s)
				g.Check(ok == ok2 && x == y, "Utf8WithCache(%d) differs from Utf8 with settings %v", cp, s)
			default:
				cp := cps[g.N(len(cps))]
				g.Logf("Get(%d)", cp)
				x, ok := mc.Get(cp, sc)
				e := f.find(cp)
				g.Check(ok == (e != nil), "Get(%d): found %v, stored %v", cp, ok, e != nil)
				if ok {
					w, c := f.group(e, sc.UnsafeSlice())
					vCheckGroup(g, vSprint("code point", cp, "settings", sc.UnsafeSlice()), &x, w, c)
				}
			}
		}
	}})
}

func (f *vFont) find(cp rune) *vMapEntry {
	for i := range f.maps {
		if f.maps[i].cp == cp {
			return &f.maps[i]
		}
	}
	return nil
}

func (f *vFont) group(e *vMapEntry, s []uint8) (vGroup, int) {
	switch e.sw {
	case 255:
		return vGroup{glyphs: []uint16{e.direct}}, 0
	case 254:
		return e.groups[0], 0
	}
	c := f.caseOf(f.switches[e.sw], s)
	return e.groups[c], c
}

func vCheckGroup(g *vG, what string, x *ggfnt.GlyphMappingGroup, w vGroup, c int) {
	g.Check(int(x.Size()) == len(w.glyphs), "%s: group of %d glyphs, expected %d", what, x.Size(), len(w.glyphs))
	g.Check(int(x.CaseBranch()) == c, "%s: case %d, expected %d", what, x.CaseBranch(), c)
	fl := w.flags
	if len(w.glyphs) == 1 {
		fl = 0
	}
	g.Check(byte(x.AnimationFlags()) == fl, "%s: flags %d, expected %d", what, x.AnimationFlags(), fl)
	for i := 0; i < 256; i++ {
		if i < 255 && i > len(w.glyphs)+1 && !g.P(3) {
			continue
		}
		var id ggfnt.GlyphIndex
		p := g.Panics(func() { id = x.Select(uint8(i)) })
		g.Check(p == (i >= len(w.glyphs)), "%s: Select(%d) of %d panics %v", what, i, len(w.glyphs), p)
		if !p {
			g.Check(uint16(id) == w.glyphs[i], "%s: Select(%d) is %d, expected %d", what, i, id, w.glyphs[i])
		}
	}
}
