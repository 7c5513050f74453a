package PACKAGE

// An independent model of a font: random contents, encoded following
// specification.md, with the position of every section.

import (
	"image"
	"sort"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/internal"
)

type vNamed struct {
	name string
	data []byte
}
type vGlyphName struct {
	name string
	id   uint16
}
type vGroup struct {
	isRange bool
	flags   byte
	glyphs  []uint16
}
type vMapEntry struct {
	cp     int32
	sw     byte
	direct uint16
	groups []vGroup
}
type vRule struct {
	cond             byte
	head, body, tail int
	out              []uint32
	frags            []byte
}
type vSet struct {
	ranges [][2]uint32
	list   []uint32
}
type vKern struct {
	pair uint32
	val  int8
}

type vFont struct {
	head     [28]byte
	texts    [3]string
	about    string
	metrics  [15]byte
	nGlyphs  int
	vert     bool
	dyes     []vNamed
	pals     []vNamed
	gnames   []vGlyphName
	place    [][4]byte
	masks    [][]byte
	words    []string
	sets     []vNamed // settings
	switches [][]byte
	maps     []vMapEntry
	conds    [][]byte
	usets    []vSet
	gsets    []vSet
	urules   []vRule
	grules   []vRule
	hk, vk   []vKern

	font internal.Font
}

const vBasic = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func vName(g *vG, max int) string {
	n := g.Pick(1, 1, 2, 3, g.R(1, max), max)
	if n > max {
		n = max
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = vBasic[g.N(len(vBasic))]
		if g.P(60) {
			b[i] = "ab"[g.N(2)]
		}
		if i > 0 && i < n-1 && b[i-1] != '-' && g.P(10) {
			b[i] = '-'
		}
	}
	return string(b)
}

func vText(g *vG, max int) string {
	n := g.Pick(0, 1, 5, g.N(max+1), max)
	if n > max {
		n = max
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + g.N(95))
		if g.P(3) {
			b[i] = byte(g.N(256))
		}
	}
	return string(b)
}

func (f *vFont) options() []int {
	var o []int
	for _, s := range f.sets {
		o = append(o, len(s.data))
	}
	return o
}

// combos of a switch, at most 254.
func (f *vFont) combos(sw []byte) int {
	c := 1
	for _, s := range sw {
		c *= len(f.sets[s].data)
	}
	return c
}

func (f *vFont) caseOf(sw []byte, settings []uint8) int {
	c := 0
	for _, s := range sw {
		c = c*len(f.sets[s].data) + int(settings[s])
	}
	return c
}

func (f *vFont) randSettings(g *vG) []uint8 {
	s := make([]uint8, len(f.sets))
	for i := range s {
		n := len(f.sets[i].data)
		s[i] = uint8(g.Pick(0, n-1, g.N(n), g.N(n)))
	}
	return s
}

func vGenGroup(g *vG, nGlyphs int) vGroup {
	n := g.Pick(1, 1, 2, 3, g.R(1, 128), 128)
	if g.P(70) && n > 4 {
		n = g.R(1, 4)
	}
	gr := vGroup{flags: byte(g.N(256))}
	if g.P(40) && n <= nGlyphs {
		gr.isRange = true
		base := g.N(nGlyphs - n + 1)
		for i := 0; i < n; i++ {
			gr.glyphs = append(gr.glyphs, uint16(base+i))
		}
	} else {
		for i := 0; i < n; i++ {
			gr.glyphs = append(gr.glyphs, uint16(g.N(nGlyphs)))
		}
	}
	return gr
}

// vGenFont makes a well-formed font; the named part is made bigger and wilder.
func vGenFont(g *vG, focus string) *vFont {
	f := &vFont{}
	big := func(part string, small, max int) int {
		if part == focus {
			return g.Pick(0, 1, 2, 3, g.N(small*3+1), g.N(max+1), max)
		}
		return g.N(small + 1)
	}
	// header
	copy(f.head[:], g.Bytes(28))
	f.head[0], f.head[1], f.head[2], f.head[3] = byte(internal.FormatVersion), 0, 0, 0
	id := uint64(0x0123_4567_89AB_CDEF) ^ uint64(g.N(255))<<56
	for i := 0; i < 8; i++ {
		f.head[4+i] = byte(id >> (8 * i))
	}
	for i := range f.texts {
		m := 12
		if focus == "header" {
			m = 255
		}
		f.texts[i] = vText(g, m)
	}
	if f.texts[0] == "" {
		f.texts[0] = "F"
	}
	am := 30
	if focus == "header" {
		am = g.Pick(10, 300, 70000)
	}
	if am > 65535 {
		am = 65535
	}
	f.about = vText(g, am)
	// metrics
	f.nGlyphs = g.Pick(1, 2, 5, g.R(1, 40), g.R(1, 300))
	if focus == "glyphs" && g.P(5) {
		f.nGlyphs = g.R(1, 3000)
	}
	if (focus == "glyphs" || focus == "kerning" || focus == "mapping" || focus == "names") && g.P(6) {
		f.nGlyphs = g.Pick(21846, 32768, 32769, 65535, g.R(20000, 65535))
	}
	f.vert = g.Bool()
	copy(f.metrics[:], g.Bytes(15))
	f.metrics[0], f.metrics[1] = byte(f.nGlyphs), byte(f.nGlyphs>>8)
	f.metrics[2] = 0
	if f.vert {
		f.metrics[2] = 1
	}
	f.metrics[4] |= 1
	f.metrics[5] = byte(g.N(int(f.metrics[4]) + 1))
	if !f.vert {
		f.metrics[11] = 0
	}
	// colors
	left := 255
	for n := big("color", 3, 255); n > 0 && left > 0; n-- {
		k := g.Pick(1, 1, 2, g.R(1, 9))
		if focus == "color" && g.P(5) {
			k = g.R(1, 255)
		}
		k = min2(k, left)
		left -= k
		f.dyes = append(f.dyes, vNamed{vName(g, 32), g.Bytes(k)})
	}
	for n := big("color", 3, 255); n > 0 && left > 0; n-- {
		k := min2(g.Pick(1, 1, 2, g.R(1, 9)), left)
		left -= k
		f.pals = append(f.pals, vNamed{vName(g, 32), g.Bytes(4 * k)})
	}
	// glyph names
	seen := map[string]bool{}
	for n := big("names", 3, 60); n > 0 && len(f.gnames) < f.nGlyphs; n-- {
		s := vName(g, g.Pick(2, 3, 32))
		if !seen[s] {
			seen[s] = true
			f.gnames = append(f.gnames, vGlyphName{s, uint16(g.N(f.nGlyphs))})
		}
	}
	sort.Slice(f.gnames, func(i, j int) bool { return f.gnames[i].name < f.gnames[j].name })
	// glyphs
	for i := 0; i < f.nGlyphs; i++ {
		var p [4]byte
		if f.nGlyphs > 3000 && i%64 != 0 {
			x := uint32(i+7) * 2654435761
			f.place = append(f.place, [4]byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)})
			f.masks = append(f.masks, nil)
			continue
		}
		copy(p[:], g.Bytes(4))
		f.place = append(f.place, p)
		f.masks = append(f.masks, vMaskOps(g, g.Pick(0, 1, 2, 5)))
	}
	// words and settings
	for n := big("settings", 4, 255); n > 0; n-- {
		f.words = append(f.words, vName(g, 32))
	}
	for n := big("settings", 4, 255); n > 0; n-- {
		k := g.Pick(1, 2, 2, 3, g.R(1, 6))
		if focus == "settings" && g.P(4) || focus == "switches" && g.P(10) {
			k = g.R(1, 255)
		}
		f.sets = append(f.sets, vNamed{vName(g, 32), g.Bytes(k)})
	}
	if focus == "switches" || focus == "mapping" || focus == "conditions" {
		for len(f.sets) < g.Pick(1, 3, 6) {
			f.sets = append(f.sets, vNamed{vName(g, 32), g.Bytes(g.R(1, 5))})
		}
	}
	// switches
	if len(f.sets) > 0 {
		for n := big("switches", 3, 253); n > 0; n-- {
			var sw []byte
			c := 1
			used := map[int]bool{}
			for k := g.R(1, 5); k > 0; k-- {
				s := g.N(len(f.sets))
				if used[s] || c*len(f.sets[s].data) > 254 {
					continue
				}
				used[s] = true
				c *= len(f.sets[s].data)
				sw = append(sw, byte(s))
			}
			if len(sw) > 0 {
				f.switches = append(f.switches, sw)
			}
		}
	}
	if focus == "mapping" {
		for k := 0; k < 3 && len(f.switches) < 3; k++ {
			sw := []byte{byte(g.N(len(f.sets)))}
			if f.combos(sw) <= 254 {
				f.switches = append(f.switches, sw)
			}
		}
	}
	// mapping
	cps := map[int32]bool{}
	for n := big("mapping", 4, 60); n > 0; n-- {
		cp := int32(g.Pick(g.N(4), 32+g.N(95), 32+g.N(95), g.N(0x110000), g.R(0x10FFF0, 0x10FFFF)))
		if cps[cp] {
			continue
		}
		cps[cp] = true
		e := vMapEntry{cp: cp}
		switch r := g.N(3); {
		case r == 0 || len(f.switches) == 0 && r == 1:
			e.sw = 255
			e.direct = uint16(g.N(f.nGlyphs))
		case r == 1:
			e.sw = byte(g.N(len(f.switches)))
			for k := f.combos(f.switches[e.sw]); k > 0; k-- {
				e.groups = append(e.groups, vGenGroup(g, f.nGlyphs))
			}
		default:
			e.sw = 254
			e.groups = []vGroup{vGenGroup(g, f.nGlyphs)}
		}
		f.maps = append(f.maps, e)
	}
	sort.Slice(f.maps, func(i, j int) bool { return f.maps[i].cp < f.maps[j].cp })
	// rewrites
	if len(f.sets) > 0 {
		for n := big("conditions", 3, 120); n > 0; n-- {
			if c := vGenCond(g, len(f.sets), g.R(0, 3)); len(c) >= 2 && len(c) < 400 {
				f.conds = append(f.conds, c)
			}
		}
	}
	set := func(max uint32, n int) vSet {
		var s vSet
		cnt := func() int {
			if n > 3 {
				return g.Pick(0, 1, 2, g.N(10), 255)
			}
			return g.N(4)
		}
		for k := cnt(); k > 0; k-- {
			w := uint32(g.Pick(1, 2, g.N(255), 255))
			if w > max {
				w = max
			}
			a := uint32(g.N(int(max - w + 1)))
			s.ranges = append(s.ranges, [2]uint32{a, a + w})
		}
		for k := cnt(); k > 0; k-- {
			s.list = append(s.list, uint32(g.N(int(max)+1)))
		}
		return s
	}
	sz := 3
	if focus == "rewrites" {
		sz = 9
	}
	for n := big("rewrites", 3, 20); n > 0; n-- {
		f.usets = append(f.usets, set(0x10FFFF, sz))
	}
	for n := big("rewrites", 3, 20); n > 0; n-- {
		f.gsets = append(f.gsets, set(0xFFFF, sz))
	}
	for n := big("rewrites", 3, 40); n > 0; n-- {
		f.urules = append(f.urules, vGenRule(g, true, len(f.conds), len(f.usets), 0x10FFFF))
	}
	for n := big("rewrites", 3, 40); n > 0; n-- {
		f.grules = append(f.grules, vGenRule(g, false, len(f.conds), len(f.gsets), f.nGlyphs-1))
	}
	// kerning
	kern := func() []vKern {
		m := map[uint32]bool{}
		var ks []vKern
		for n := big("kerning", 4, 400); n > 0; n-- {
			p := uint32(g.N(f.nGlyphs))<<16 | uint32(g.N(f.nGlyphs))
			if !m[p] {
				m[p] = true
				ks = append(ks, vKern{p, int8(g.N(256))})
			}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].pair < ks[j].pair })
		return ks
	}
	f.hk = kern()
	if f.vert {
		f.vk = kern()
	}
	f.encode()
	return f
}

// vMaskOps makes n valid raster operations.
func vMaskOps(g *vG, n int) []byte {
	var b []byte
	for ; n > 0; n-- {
		c := byte(0)
		var d []byte
		if g.P(30) {
			c |= 1
			d = append(d, byte(g.R(1, 255)))
		}
		if g.P(50) {
			c |= 2
			d = append(d, byte(g.Pick(g.N(256), g.N(4), 255-g.N(4))))
		}
		if g.P(40) {
			c |= 4
			d = append(d, byte(g.Pick(g.N(256), g.N(4), 255-g.N(4))))
		} else if g.P(30) {
			c |= 8
		}
		l := byte(g.Pick(0, 1, g.N(6), g.N(6)))
		if g.P(2) {
			l = byte(g.N(256))
		}
		switch g.N(5) {
		case 0:
			c |= 16 | 32
			d = append(d, l)
			if g.Bool() {
				c |= 64
			}
		case 1:
			c |= 128
		case 2:
			c |= 32
			d = append(d, l)
		case 3:
			c |= 64
			d = append(d, l)
		default:
			c |= 32 | 64
			d = append(d, l, byte(g.N(5)))
		}
		if g.P(5) {
			c &= 15
			d = d[:vPre(c)]
		}
		b = append(append(b, c), d...)
	}
	return b
}

func vPre(c byte) int { return int(c&1) + int(c>>1&1) + int(c>>2&1) }

// vGenCond makes an encoded condition.
func vGenCond(g *vG, nSettings, depth int) []byte {
	if depth > 0 && g.P(70) {
		k := g.R(2, 5)
		if g.P(3) {
			k = g.R(2, 31)
		}
		b := []byte{byte(k)}
		if g.Bool() {
			b[0] |= 0b0010_0000
		}
		for i := 0; i < k; i++ {
			b = append(b, vGenCond(g, nSettings, depth-1)...)
		}
		return b
	}
	s := byte(g.N(nSettings))
	switch g.N(3) {
	case 0:
		return []byte{0b0100_0000 | byte(g.N(6)), s, byte(g.N(nSettings))}
	case 1:
		return []byte{0b0101_0000 | byte(g.N(6)), s, byte(g.Pick(g.N(4), g.N(256)))}
	}
	return []byte{byte(g.R(3, 6))<<5 | byte(g.Pick(g.N(4), g.N(32))), s}
}

// vEvalCond is the oracle: the value of the encoded condition and its length.
func vEvalCond(b []byte, s []uint8) (int, bool) {
	cmp := func(op byte, x, y uint8) bool {
		return []bool{x == y, x != y, x < y, x > y, x <= y, x >= y}[op]
	}
	switch b[0] >> 5 {
	case 0, 1:
		n := 1
		or, and := false, true
		for k := b[0] & 31; k > 0; k-- {
			l, v := vEvalCond(b[n:], s)
			n += l
			or = or || v
			and = and && v
		}
		if b[0]>>5 == 0 {
			return n, or
		}
		return n, and
	case 2:
		y := b[2]
		if b[0]&16 == 0 {
			y = s[b[2]]
		}
		return 3, cmp(b[0]&15, s[b[1]], y)
	}
	return 2, cmp(b[0]>>5-3, s[b[1]], b[0]&31)
}

func vPut(b []byte, v uint32, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}

// vGenRule makes a rewrite rule with its fragments.
func vGenRule(g *vG, utf bool, nConds, nSets, max int) vRule {
	r := vRule{cond: 255}
	if nConds > 0 && g.P(30) {
		r.cond = byte(g.N(nConds))
	}
	r.head, r.body, r.tail = g.Pick(0, 0, 1, g.N(4)), g.Pick(1, 2, g.R(1, 6)), g.Pick(0, 0, 1, g.N(4))
	if g.P(4) {
		r.head, r.body, r.tail = g.N(40), g.R(1, 100), g.N(40)
	}
	for k := g.N(r.body + 1); k > 0; k-- {
		r.out = append(r.out, uint32(g.N(max+1)))
	}
	for _, n := range []int{r.head, r.body, r.tail} {
		if n == 0 {
			r.frags = append(r.frags, 0)
		}
		for n > 0 {
			ns := 0
			if nSets > 0 {
				ns = g.N(min2(n, 15) + 1)
			}
			ne := g.N(min2(n-ns, 15) + 1)
			if ns+ne == 0 {
				ne = 1
			}
			r.frags = append(r.frags, byte(ns<<4|ne))
			for i := 0; i < ns; i++ {
				r.frags = append(r.frags, byte(g.N(nSets)))
			}
			for i := 0; i < ne; i++ {
				r.frags = vPut(r.frags, uint32(g.N(max+1)), map[bool]int{true: 4, false: 2}[utf])
			}
			n -= ns + ne
		}
	}
	return r
}

func (r *vRule) encode(utf bool) []byte {
	b := []byte{r.cond, byte(r.head), byte(r.body), byte(r.tail), byte(len(r.out))}
	for _, o := range r.out {
		b = vPut(b, o, map[bool]int{true: 4, false: 2}[utf])
	}
	return append(b, r.frags...)
}

func (s *vSet) encode(w int) []byte {
	b := []byte{byte(len(s.ranges))}
	for _, r := range s.ranges {
		b = append(vPut(b, r[0], w), byte(r[1]-r[0]))
	}
	b = append(b, byte(len(s.list)))
	for _, e := range s.list {
		b = vPut(b, e, w)
	}
	return b
}

func (e *vMapEntry) encode() []byte {
	b := []byte{e.sw}
	if e.sw == 255 {
		return vPut(b, uint32(e.direct), 2)
	}
	for _, gr := range e.groups {
		b = append(b, gr.encode()...)
	}
	return b
}

func (gr *vGroup) encode() []byte {
	c := byte(len(gr.glyphs) - 1)
	if gr.isRange {
		c |= 128
	}
	b := []byte{c}
	if len(gr.glyphs) > 1 {
		b = append(b, gr.flags)
	}
	for i, x := range gr.glyphs {
		if i == 0 || !gr.isRange {
			b = vPut(b, uint32(x), 2)
		}
	}
	return b
}

func (f *vFont) encode() {
	var d []byte
	blobs := func(n, w, cw int, item func(i int) []byte) {
		d = vPut(d, uint32(n), cw)
		end := 0
		var all []byte
		for i := 0; i < n; i++ {
			all = append(all, item(i)...)
			end = len(all)
			d = vPut(d, uint32(end), w)
		}
		d = append(d, all...)
	}
	F := &f.font
	d = append(d, f.head[:]...)
	for _, t := range f.texts {
		d = append(append(d, byte(len(t))), t...)
	}
	d = append(vPut(d, uint32(len(f.about)), 2), f.about...)
	F.OffsetToMetrics = uint32(len(d))
	d = append(d, f.metrics[:]...)
	col := func(xs []vNamed, w int) {
		d = append(d, byte(len(xs)))
		if len(xs) == 0 {
			return
		}
		var all []byte
		for _, x := range xs {
			all = append(all, x.data...)
			d = append(d, byte(len(all)/w))
		}
		d = append(d, all...)
		n := 0
		for _, x := range xs {
			n += len(x.name)
			d = vPut(d, uint32(n), 2)
		}
		for _, x := range xs {
			d = append(d, x.name...)
		}
	}
	F.OffsetToDyes = uint32(len(d))
	col(f.dyes, 1)
	F.OffsetToPalettes = uint32(len(d))
	col(f.pals, 4)
	F.OffsetToGlyphNames = uint32(len(d))
	d = vPut(d, uint32(len(f.gnames)), 2)
	for _, x := range f.gnames {
		d = vPut(d, uint32(x.id), 2)
	}
	n := 0
	for _, x := range f.gnames {
		n += len(x.name)
		d = vPut(d, uint32(n), 3)
	}
	for _, x := range f.gnames {
		d = append(d, x.name...)
	}
	F.OffsetToGlyphMasks = uint32(len(d))
	blobs(f.nGlyphs, 3, 0, func(i int) []byte { return append(append([]byte{}, f.place[i][:f.placeLen()]...), f.masks[i]...) })
	F.OffsetToWords = uint32(len(d))
	blobs(len(f.words), 2, 1, func(i int) []byte { return []byte(f.words[i]) })
	F.OffsetToSettingNames = uint32(len(d))
	blobs(len(f.sets), 2, 1, func(i int) []byte { return []byte(f.sets[i].name) })
	F.OffsetToSettingDefinitions = uint32(len(d))
	blobs(len(f.sets), 2, 0, func(i int) []byte { return f.sets[i].data })
	F.OffsetToMappingSwitches = uint32(len(d))
	blobs(len(f.switches), 2, 1, func(i int) []byte { return f.switches[i] })
	F.OffsetToMapping = uint32(len(d))
	d = vPut(d, uint32(len(f.maps)), 2)
	for _, m := range f.maps {
		d = vPut(d, uint32(m.cp), 4)
	}
	blobs(len(f.maps), 3, 0, func(i int) []byte { return f.maps[i].encode() })
	F.OffsetToRewriteConditions = uint32(len(d))
	blobs(len(f.conds), 2, 1, func(i int) []byte { return f.conds[i] })
	F.OffsetToRewriteUtf8Sets = uint32(len(d))
	blobs(len(f.usets), 2, 1, func(i int) []byte { return f.usets[i].encode(4) })
	F.OffsetToRewriteGlyphSets = uint32(len(d))
	blobs(len(f.gsets), 2, 1, func(i int) []byte { return f.gsets[i].encode(2) })
	F.OffsetToUtf8Rewrites = uint32(len(d))
	blobs(len(f.urules), 3, 2, func(i int) []byte { return f.urules[i].encode(true) })
	F.OffsetToGlyphRewrites = uint32(len(d))
	blobs(len(f.grules), 3, 2, func(i int) []byte { return f.grules[i].encode(false) })
	kern := func(ks []vKern) {
		d = vPut(d, uint32(len(ks)), 3)
		for _, k := range ks {
			d = vPut(d, k.pair, 4)
		}
		for _, k := range ks {
			d = append(d, byte(k.val))
		}
	}
	F.OffsetToHorzKernings = uint32(len(d))
	kern(f.hk)
	F.OffsetToVertKernings = uint32(len(d))
	kern(f.vk)
	F.Data = d
}

func (f *vFont) placeLen() int {
	if f.vert {
		return 4
	}
	return 1
}

// Font returns the font with its data in an allocation of exactly its size,
// between guard bytes.
func (f *vFont) Font() *ggfnt.Font {
	c := f.font
	b := make([]byte, len(c.Data)+16)
	for i := range b {
		b[i] = 0xA5
	}
	copy(b[8:], c.Data)
	c.Data = b[8 : 8+len(c.Data) : 8+len(c.Data)]
	return (*ggfnt.Font)(&c)
}

// Describe logs the font compactly.
func (f *vFont) Log(g *vG) {
	g.Logf("font: %d bytes, offsets %d..%d, glyphs %d vert %v, texts %d %d %d %d, dyes %d pals %d names %d words %d settings %v switches %v maps %d conds %x usets %d gsets %d urules %d grules %d kern %d %d",
		len(f.font.Data), f.font.OffsetToMetrics, f.font.OffsetToVertKernings, f.nGlyphs, f.vert, len(f.texts[0]), len(f.texts[1]), len(f.texts[2]), len(f.about),
		len(f.dyes), len(f.pals), len(f.gnames), len(f.words), f.options(), f.switches, len(f.maps), f.conds, len(f.usets), len(f.gsets), len(f.urules), len(f.grules), len(f.hk), len(f.vk))
	if len(f.font.Data) < 700 {
		g.Logf("data: %x", f.font.Data)
	}
}

type vPt struct{ x, y int }

// vRaster is the oracle for raster operations: the drawn pixels (the last
// colour wins), or ok = false for malformed operations.
func vRaster(ops []byte) (px map[vPt]byte, ok bool) {
	px = map[vPt]byte{}
	nz := func(b byte) int {
		if b < 128 {
			return int(b) + 1
		}
		return int(b) - 256
	}
	x, y := 0, 0
	col := byte(255)
	for len(ops) > 0 {
		c := ops[0]
		ops = ops[1:]
		short := false
		next := func() byte {
			if len(ops) == 0 {
				short = true
				return 0
			}
			b := ops[0]
			ops = ops[1:]
			return b
		}
		if c&1 != 0 {
			col = next()
		}
		if c&2 != 0 {
			x += nz(next())
		}
		if c&4 != 0 {
			y += nz(next())
		}
		if short || c&12 == 12 {
			return nil, false
		}
		if c&8 != 0 {
			y++
		}
		if c&16 != 0 {
			if c&128 != 0 || c&32 == 0 {
				return nil, false
			}
			n := int(next()) + 1
			if short {
				return nil, false
			}
			for i := 0; i < n; i++ {
				if c&64 != 0 {
					px[vPt{x + i, y + n - 1 - i}] = col
				} else {
					px[vPt{x + i, y + i}] = col
				}
			}
			x += n
			continue
		}
		w, h := 0, 0
		if c&32 != 0 {
			w, h = int(next())+1, 1
		}
		if c&64 != 0 {
			h = int(next()) + 1
			if w == 0 {
				w = 1
			}
		}
		if short {
			return nil, false
		}
		if c&128 != 0 {
			if w > 0 {
				return nil, false
			}
			w, h = 1, 1
		}
		for j := 0; j < h; j++ {
			for i := 0; i < w; i++ {
				px[vPt{x + i, y + j}] = col
			}
		}
		x += w
	}
	return px, true
}

// vSameMask compares a rasterized mask with the oracle's pixels.
func vSameMask(g *vG, m *image.Alpha, px map[vPt]byte) {
	if len(px) == 0 {
		g.Check(m == nil, "a mask of bounds %v for operations that draw nothing", m)
		return
	}
	g.Check(m != nil, "no mask for operations that draw")
	var r image.Rectangle
	for p := range px {
		r = r.Union(image.Rect(p.x, p.y, p.x+1, p.y+1))
	}
	g.Check(m.Rect == r, "mask bounds %v, drawn pixels span %v", m.Rect, r)
	g.Check(len(m.Pix) >= (r.Dy()-1)*m.Stride+r.Dx() && m.Stride >= r.Dx(), "mask storage")
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			v := m.AlphaAt(x, y).A
			g.Check(v == px[vPt{x, y}], "pixel (%d, %d) is %d, last drawn %d", x, y, v, px[vPt{x, y}])
		}
	}
}
