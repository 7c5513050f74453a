package internal_test

import (
	"bytes"
	"compress/gzip"
	"io"
	"testing"
	"testing/iotest"

	"github.com/tinne26/ggfnt/internal"
)

func c24zip(g *vG, data []byte) []byte {
	var buf bytes.Buffer
	w, _ := gzip.NewWriterLevel(&buf, g.R(0, 9))
	for len(data) > 0 {
		k := len(data)
		if g.P(40) {
			k = g.R(1, k)
		}
		w.Write(data[:k])
		data = data[k:]
		if g.P(50) {
			w.Flush()
		}
	}
	w.Close()
	return buf.Bytes()
}

func TestVerifC24(t *testing.T) {
	verifRun(t, 4000, vCase{"streams", 1, func(g *vG) {
		n := g.Pick(0, 1, 2, 3, 7, 8, 9, 255, 256, 1023, 1024, 1025, 2048, g.R(0, 300), g.R(0, 9000))
		if g.P(5) {
			n = g.R(60000, 140000)
		}
		if g.P(1) && g.P(25) {
			n = 33554432 + g.Pick(-1, 0, 1, 2, 1000)
		}
		var data []byte
		if n > 1000000 {
			data = make([]byte, n)
			data[n-1], data[0] = 7, 3
		} else {
			data = g.Bytes(n)
			for i := range data {
				if g.P(30) {
					data[i] = byte(g.N(3))
				}
			}
		}
		zipped := c24zip(g, data)
		broken := false
		if g.P(10) {
			broken = true
			zipped = zipped[:g.R(10, len(zipped)-1)]
		}
		var src io.Reader = bytes.NewReader(zipped)
		switch g.N(4) {
		case 0:
			src = iotest.HalfReader(src)
		case 1:
			if n < 10000 {
				src = iotest.OneByteReader(src)
			}
		case 2:
			src = iotest.DataErrReader(src)
		}
		g.Logf("stream of %d bytes, truncated: %v", n, broken)
		var b internal.ParsingBuffer
		b.InitBuffers()
		b.FileType = "test"
		if err := b.InitGzipReader(src); err != nil {
			g.Check(broken, "gzip reader: %v", err)
			return
		}
		at := 0
		// end is where the read ends; returns false when it must fail
		can := func(end int, err error, what string) bool {
			if err != nil {
				g.Check(broken || end > n || n > 33554432, "%s up to %d of %d: %v", what, end, n, err)
				return false
			}
			g.Check(end <= n, "%s up to %d of %d succeeds", what, end, n)
			g.Check(b.Index == end, "%s: index %d, want %d", what, b.Index, end)
			g.Check(len(b.Bytes) >= end && bytes.Equal(b.Bytes[at:end], data[at:end]), "%s: buffered bytes differ from the stream in [%d, %d)", what, at, end)
			at = end
			return true
		}
		le := func(k int) (v uint64) {
			for i := 0; i < k; i++ {
				if at+i < n {
					v |= uint64(data[at+i]) << (8 * i)
				}
			}
			return
		}
		steps := g.R(1, 60)
		for i := 0; i < steps; i++ {
			op := g.N(13)
			g.Logf("op %d at %d", op, at)
			switch op {
			case 0:
				w := le(8)
				v, err := b.ReadUint64()
				if !can(at+8, err, "ReadUint64") {
					return
				}
				g.Check(v == w, "ReadUint64 gives %d, want %d", v, w)
			case 1:
				w := le(4)
				v, err := b.ReadUint32()
				if !can(at+4, err, "ReadUint32") {
					return
				}
				g.Check(uint64(v) == w, "ReadUint32 gives %d, want %d", v, w)
			case 2:
				w := le(3)
				v, err := b.ReadUint24()
				if !can(at+3, err, "ReadUint24") {
					return
				}
				g.Check(uint64(v) == w, "ReadUint24 gives %d, want %d", v, w)
			case 3:
				w := le(2)
				v, err := b.ReadUint16()
				if !can(at+2, err, "ReadUint16") {
					return
				}
				g.Check(uint64(v) == w, "ReadUint16 gives %d, want %d", v, w)
			case 4:
				w := le(1)
				v, err := b.ReadUint8()
				if !can(at+1, err, "ReadUint8") {
					return
				}
				g.Check(uint64(v) == w, "ReadUint8 gives %d, want %d", v, w)
			case 5:
				w := le(1)
				v, err := b.ReadInt8()
				if !can(at+1, err, "ReadInt8") {
					return
				}
				g.Check(v == int8(w), "ReadInt8 gives %d, want %d", v, int8(w))
			case 6:
				w := le(4)
				v, err := b.ReadInt32()
				if !can(at+4, err, "ReadInt32") {
					return
				}
				g.Check(v == int32(w), "ReadInt32 gives %d, want %d", v, int32(w))
			case 7:
				w := le(1)
				v, err := b.ReadBool()
				if err != nil && at < n && w > 1 && b.Index == at+1 {
					at++
					continue
				}
				if !can(at+1, err, "ReadBool") {
					return
				}
				g.Check(w <= 1 && v == (w == 1), "ReadBool gives %v for %d", v, w)
			case 8:
				k := int(le(1))
				s, err := b.ReadShortStr()
				from := at + 1
				if !can(at+1+k, err, "ReadShortStr") {
					return
				}
				g.Check(s == string(data[from:from+k]), "ReadShortStr gives %q", s)
			case 9:
				k := int(le(2))
				s, err := b.ReadString()
				from := at + 2
				if !can(at+2+k, err, "ReadString") {
					return
				}
				g.Check(s == string(data[from:from+k]), "ReadString gives %d bytes", len(s))
			case 10:
				k := int(le(1))
				if !can(at+1+k, b.AdvanceShortSlice(), "AdvanceShortSlice") {
					return
				}
			case 11:
				k := g.Pick(0, 1, g.R(0, 40), g.R(0, 3000))
				if g.P(20) && n > at {
					k = n - at - g.N(2)
				}
				if !can(at+k, b.AdvanceBytes(k), "AdvanceBytes") {
					return
				}
			case 12:
				if !g.P(40) {
					continue
				}
				err := b.EnsureEOF()
				if err == nil {
					g.Check(at == n && !broken, "EnsureEOF accepts at %d of %d (truncated: %v)", at, n, broken)
				} else {
					g.Check(at < n || broken, "EnsureEOF at %d of %d: %v", at, n, err)
				}
				return
			}
		}
		if g.P(60) && !broken && n <= 33554432 {
			if can(n, b.AdvanceBytes(n-at), "AdvanceBytes") {
				g.Check(b.EnsureEOF() == nil, "EnsureEOF refuses at the end")
			}
		}
	}})
}
