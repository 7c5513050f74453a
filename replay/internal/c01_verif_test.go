package internal_test

import (
	"bytes"
	"math/big"
	"strconv"
	"testing"

	"github.com/tinne26/ggfnt/internal"
)

// le is the little-endian encoding of v in n bytes, computed with big integers.
func c01le(v uint64, n int) []byte {
	x := new(big.Int).SetUint64(v)
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(new(big.Int).Mod(x, big.NewInt(256)).Int64())
		x.Div(x, big.NewInt(256))
	}
	return out
}

func c01val(g *vG) uint64 {
	switch g.N(4) {
	case 0:
		return uint64(1) << g.N(64)
	case 1:
		return ^(uint64(1) << g.N(64))
	case 2:
		return uint64(g.N(256)) << (8 * g.N(8))
	}
	return g.U64()
}

func TestVerifC01(t *testing.T) {
	verifRun(t, 60000,
		vCase{"decode", 2, func(g *vG) {
			n := g.Pick(2, 3, 4, 8)
			buf := g.Bytes(g.R(0, 12))
			keep := bytes.Clone(buf)
			g.Logf("decode %d bytes of %v", n, buf)
			var v uint64
			var y uint16
			var mo, da uint8
			date := n == 4 && g.Bool()
			p := g.Panics(func() {
				switch {
				case date:
					y, mo, da = internal.DecodeDate(buf)
				case n == 2:
					v = uint64(internal.DecodeUint16LE(buf))
				case n == 3:
					v = uint64(internal.DecodeUint24LE(buf))
				case n == 4:
					v = uint64(internal.DecodeUint32LE(buf))
				case n == 8:
					v = internal.DecodeUint64LE(buf)
				}
			})
			g.Check(p == (len(buf) < n), "panic %v", p)
			g.Check(bytes.Equal(buf, keep), "buffer changed")
			if p {
				return
			}
			if date {
				g.Check(bytes.Equal(c01le(uint64(y), 2), buf[:2]) && mo == buf[2] && da == buf[3], "date %d %d %d", y, mo, da)
				return
			}
			g.Check(bytes.Equal(c01le(v, n), buf[:n]), "decoded %d", v)
		}},
		vCase{"encode", 2, func(g *vG) {
			n := g.Pick(2, 3, 4)
			v := c01val(g)
			buf := g.Bytes(g.R(0, 9))
			keep := bytes.Clone(buf)
			g.Logf("encode %d in %d bytes into %v", v, n, buf)
			p := g.Panics(func() {
				switch n {
				case 2:
					internal.EncodeUint16LE(buf, uint16(v))
				case 3:
					internal.EncodeUint24LE(buf, uint32(v))
				case 4:
					internal.EncodeUint32LE(buf, uint32(v))
				}
			})
			g.Check(p == (len(buf) < n), "panic %v", p)
			if !p {
				copy(keep, c01le(v, n))
			}
			g.Check(bytes.Equal(buf, keep), "got %v want %v", buf, keep)
		}},
		vCase{"append", 3, func(g *vG) {
			n := g.Pick(1, 2, 3, 4, 8)
			v := c01val(g)
			back := g.Bytes(g.R(0, 24))
			lo := g.N(len(back) + 1)
			hi := lo + g.N(len(back)-lo+1)
			keep := bytes.Clone(back)
			buf := back[lo:hi]
			g.Logf("append %d in %d bytes to %v[%d:%d]", v, n, back, lo, hi)
			want := append(bytes.Clone(buf), c01le(v, n)...)
			var got []byte
			switch n {
			case 1:
				got = internal.AppendUint8(buf, byte(v))
			case 2:
				got = internal.AppendUint16LE(buf, uint16(v))
			case 3:
				got = internal.AppendUint24LE(buf, uint32(v))
			case 4:
				got = internal.AppendUint32LE(buf, uint32(v))
			case 8:
				got = internal.AppendUint64LE(buf, v)
			}
			g.Check(bytes.Equal(got, want), "got %v want %v", got, want)
			for i := range back {
				in := i >= hi && i < hi+n && hi+n <= len(back)
				g.Check(in || back[i] == keep[i], "byte %d of the backing store changed", i)
			}
		}},
		vCase{"strings", 1, func(g *vG) {
			n := g.Pick(g.N(20), 254, 255, 256, 257, g.N(70000), 65534, 65535, 65536)
			s := string(g.Bytes(n))
			short := g.Bool()
			head := g.Bytes(g.N(5))
			g.Logf("string of %d bytes, short %v, after %v", n, short, head)
			var got []byte
			k := 2
			p := g.Panics(func() {
				if short {
					got = internal.AppendShortString(bytes.Clone(head), s)
				} else {
					got = internal.AppendString(bytes.Clone(head), s)
				}
			})
			lim := 65535
			if short {
				lim, k = 255, 1
			}
			g.Check(p == (n > lim), "panic %v", p)
			if !p {
				want := append(append(bytes.Clone(head), c01le(uint64(n), k)...), s...)
				g.Check(bytes.Equal(got, want), "wrong bytes (first %v)", got[:min2(len(got), 12)])
			}
		}},
		vCase{"digits", 1, func(g *vG) {
			v := byte(g.U64())
			head := g.Bytes(g.N(5))
			g.Logf("digits of %d after %v", v, head)
			got := internal.AppendByteDigits(v, bytes.Clone(head))
			want := append(bytes.Clone(head), strconv.Itoa(int(v))...)
			g.Check(bytes.Equal(got, want), "got %q want %q", got, want)
		}},
	)
}
