package ggfnt_test

//overlay fontgen.go

import (
	"bytes"
	"compress/gzip"
	"errors"
	"io"
	"testing"
	"testing/iotest"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/internal"
)

// c25layout is the reference: the section offsets of the font data d, and
// whether d is acceptable.
func c25layout(d []byte) (offs []int, ok bool) {
	if len(d) > 33554432 {
		return nil, false
	}
	defer func() {
		if recover() != nil { // some read past the end
			offs, ok = nil, false
		}
	}()
	at := 0
	le := func(o, k int) (v int) {
		for i := k - 1; i >= 0; i-- {
			v = v<<8 | int(d[o+i])
		}
		return
	}
	ok = true
	need := func(b bool) { ok = ok && b }
	mark := func() { offs = append(offs, at) }
	last := func(n, w int) int { // end offsets at at: returns the last, skips them
		v := 0
		if n > 0 {
			v = le(at+(n-1)*w, w)
		}
		at += n * w
		return v
	}
	span := func(v, n, lo, hi int) {
		if n > 0 {
			need(v >= n*lo && v <= n*hi)
		}
		at += v
	}
	const any = 1 << 30 / 65535
	need(le(0, 4) == 2)
	id := uint64(le(4, 4)) | uint64(le(8, 4))<<32
	need(!(internal.LazyEntropyUint64(id) < internal.MinEntropyID))
	need(d[28] > 0)
	at = 28
	for i := 0; i < 3; i++ {
		at += 1 + int(d[at])
	}
	at += 2 + le(at, 2)
	mark() // metrics
	m := at
	glyphs, vert := le(m, 2), int(d[m+2])
	need(glyphs > 0 && vert <= 1 && d[m+4] > 0 && d[m+5] <= d[m+4] && (d[m+11] == 0 || vert == 1))
	at += 15
	total, lists := 0, 0
	for _, w := range []int{1, 4} {
		mark() // dyes, palettes
		n := int(d[at])
		at++
		if n > 0 {
			t := int(d[at+n-1])
			at += n
			if w == 4 {
				need(total+t <= 255)
			}
			total += t
			need(t >= n)
			at += t * w
			span(last(n, 2), n, 1, any)
		}
		lists += n
	}
	need(lists <= 255)
	mark() // glyph names
	n := le(at, 2)
	at += 2
	need(n <= glyphs)
	at += 2 * n
	span(last(n, 3), n, 0, 32)
	mark() // masks
	if glyphs > 0 {
		span(last(glyphs, 3), glyphs, 1+3*vert, any)
	}
	blob := func(cw, w, lo, hi int) int {
		mark()
		n := le(at, cw)
		at += cw
		span(last(n, w), n, lo, hi)
		return n
	}
	blob(1, 2, 1, 32)
	sets := blob(1, 2, 1, 32)
	mark()
	span(last(sets, 2), sets, 1, any)
	need(blob(1, 2, 1, sets) <= 254)
	mark() // mapping
	n = le(at, 2)
	at += 2 + 4*n
	span(last(n, 3), n, 3, any)
	blob(1, 2, 2, any)
	blob(1, 2, 2, any)
	blob(1, 2, 2, any)
	blob(2, 3, 8, 4096)
	blob(2, 3, 8, 4096)
	for i := 0; i < 2; i++ {
		mark()
		n := le(at, 3)
		need(n <= glyphs*glyphs)
		at += 3 + 5*n
	}
	need(at == len(d))
	return offs, ok && at == len(d)
}

func TestVerifC25(t *testing.T) {
	verifRun(t, 6000, vCase{"parse", 1, func(g *vG) {
		f := vGenFont(g, []string{"", "colors", "glyphs", "settings", "mapping", "rewrites", "kerning"}[g.N(7)])
		copy(f.head[0:4], []byte{2, 0, 0, 0})
		for i := 4; i < 12; i++ {
			f.head[i] = byte(g.N(256))
		}
		if g.P(5) {
			for i := 4; i < 12; i++ {
				f.head[i] = byte(g.N(2))
			}
		}
		if len(f.texts[0]) == 0 && g.P(90) {
			f.texts[0] = "x"
		}
		if g.P(90) {
			if f.metrics[4] == 0 {
				f.metrics[4] = 9
			}
			if f.metrics[5] > f.metrics[4] {
				f.metrics[5] = f.metrics[4]
			}
			if !f.vert {
				f.metrics[11] = 0
			}
		}
		f.encode()
		d := append([]byte{}, f.font.Data...)
		base, _ := c25layout(d)
		// mutations: mostly of the bytes next to a section boundary
		muts := g.Pick(0, 0, 0, 1, 1, 2)
		for k := 0; k < muts; k++ {
			i := g.N(len(d))
			if len(base) > 0 && g.P(80) {
				i = base[g.N(len(base))] + g.Pick(0, 0, 1, 2, 3, 4, 5, 6, 11, -1, -2)
			}
			if i >= len(d) {
				i = len(d) - 1
			}
			switch g.N(8) {
			case 0, 1, 2:
				d[i] ^= byte(1 << g.N(8))
			case 3:
				d[i]++
			case 4:
				d[i]--
			case 5:
				d[i] = byte(g.Pick(0, 1, 255))
			case 6:
				d = append(d[:i], d[i+1:]...)
			case 7:
				d = append(d[:i], append([]byte{byte(g.Pick(0, 1, 255))}, d[i:]...)...)
			}
		}
		if g.P(10) {
			d = d[:g.N(len(d)+1)]
		} else if g.P(10) {
			d = append(d, g.Bytes(g.R(1, 3))...)
		} else if g.P(5) {
			d = d[:len(d)-1]
		}
		offs, ok := c25layout(d)
		head := "tggfnt"
		if g.P(3) {
			b := []byte(head)
			b[g.N(6)] ^= 32
			head = string(b)
		}
		var zipped bytes.Buffer
		w, _ := gzip.NewWriterLevel(&zipped, g.Pick(0, 1, 6, 9))
		w.Write(d)
		w.Close()
		file := append([]byte(head), zipped.Bytes()...)
		faulty := false
		if g.P(8) {
			faulty = true
			file = file[:g.N(len(file))]
		}
		var src io.Reader = bytes.NewReader(file)
		switch g.N(6) {
		case 0:
			src = iotest.HalfReader(src)
		case 1:
			if len(file) < 3000 {
				src = iotest.OneByteReader(src)
			}
		case 2:
			src = iotest.DataErrReader(src)
		case 3:
			if g.P(20) {
				faulty = true
				src = io.MultiReader(io.LimitReader(src, int64(g.N(len(file)))), iotest.ErrReader(errors.New("broken")))
			}
		}
		g.Logf("%d bytes, acceptable %v, signature %q, faulty %v", len(d), ok, head, faulty)
		if len(d) < 600 {
			g.Logf("data: %x", d)
		}
		var font *ggfnt.Font
		var err error
		g.Check(!g.Panics(func() { font, err = ggfnt.Parse(src) }), "Parse panics")
		if faulty {
			if err == nil {
				g.Check(len(file) > 6 && bytes.Equal((*internal.Font)(font).Data, d), "a truncated file is accepted with other data")
			}
			if err != nil || !ok || head != "tggfnt" {
				g.Check(err != nil, "a broken file is accepted")
				return
			}
		}
		g.Check((err == nil) == (ok && head == "tggfnt"), "Parse: %v, but acceptable: %v, signature %q", err, ok, head)
		if err != nil {
			return
		}
		p := (*internal.Font)(font)
		g.Check(bytes.Equal(p.Data, d), "font data differs from the file's")
		got := []uint32{p.OffsetToMetrics, p.OffsetToDyes, p.OffsetToPalettes, p.OffsetToGlyphNames, p.OffsetToGlyphMasks, p.OffsetToWords,
			p.OffsetToSettingNames, p.OffsetToSettingDefinitions, p.OffsetToMappingSwitches, p.OffsetToMapping, p.OffsetToRewriteConditions,
			p.OffsetToRewriteUtf8Sets, p.OffsetToRewriteGlyphSets, p.OffsetToUtf8Rewrites, p.OffsetToGlyphRewrites, p.OffsetToHorzKernings, p.OffsetToVertKernings}
		g.Check(len(got) == len(offs), "reference")
		for i := range got {
			g.Check(int(got[i]) == offs[i], "section %d starts at %d, parsed as %d", i, offs[i], got[i])
		}
	}})
}
