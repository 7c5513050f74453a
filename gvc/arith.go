package main

// Exact machine arithmetic over mathematical integers: wrapping and bit
// operations expressed with div/mod, pruned with intervals.

import (
	"go/types"
	"math/big"
)

type intKind struct {
	bits   int
	signed bool
}

func basicKind(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return intKind{64, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	case types.UntypedInt:
		return intKind{0, true}, true
	}
	return intKind{}, false
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(bi(1), uint(n)) }

func (k intKind) rng() (lo, hi *big.Int) {
	if k.bits == 0 {
		return nil, nil
	}
	if k.signed {
		return new(big.Int).Neg(pow2(k.bits - 1)), new(big.Int).Sub(pow2(k.bits-1), bi(1))
	}
	return bi(0), new(big.Int).Sub(pow2(k.bits), bi(1))
}

// Wrap reduces t into the range of k.
func Wrap(t *Term, k intKind) *Term {
	if k.bits == 0 {
		return t
	}
	lo, hi := k.rng()
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	if t.op == OIte && constLeaves(t) {
		return mapLeaves(t, func(x *Term) *Term { return Wrap(x, k) })
	}
	m := IntB(pow2(k.bits))
	if !k.signed {
		// one-step wraps as ite keep the arithmetic linear for the solver
		if t.lo != nil && t.hi != nil {
			l1, h1 := new(big.Int).Neg(m.iv), new(big.Int).Add(hi, m.iv)
			if t.lo.Cmp(l1) >= 0 && t.hi.Cmp(h1) <= 0 && t.op != OMod && t.op != ODiv && k.bits >= 16 {
				r := t
				if t.hi.Cmp(hi) > 0 {
					r = Ite(Gt(t, IntB(hi)), Sub(t, m), r)
				}
				if t.lo.Sign() < 0 {
					r = Ite(Lt(t, Int(0)), Add(t, m), r)
				}
				return clampI(r, k)
			}
		}
		return Mod(t, m)
	}
	if t.lo != nil && t.hi != nil {
		l1, h1 := new(big.Int).Sub(lo, m.iv), new(big.Int).Add(hi, m.iv)
		if t.lo.Cmp(l1) >= 0 && t.hi.Cmp(h1) <= 0 {
			r := t
			if t.hi.Cmp(hi) > 0 {
				r = Ite(Gt(t, IntB(hi)), Sub(t, m), r)
			}
			if t.lo.Cmp(lo) < 0 {
				r = Ite(Lt(t, IntB(lo)), Add(t, m), r)
			}
			return clampI(r, k)
		}
	}
	half := IntB(pow2(k.bits - 1))
	return Sub(Mod(Add(t, half), m), half)
}

// clampI records the (structurally implied) range of a one-step wrap.
func clampI(r *Term, k intKind) *Term {
	lo, hi := k.rng()
	if r.op == OIte {
		r.lo, r.hi = lo, hi
	}
	return r
}

func constLeaves(t *Term) bool {
	n := 0
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		n++
		if n > 64 {
			return false
		}
		if t.op == OInt {
			return true
		}
		if t.op == OIte {
			return rec(t.args[1]) && rec(t.args[2])
		}
		return false
	}
	return rec(t)
}
func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], mapLeaves(t.args[1], f), mapLeaves(t.args[2], f))
	}
	return f(t)
}

func tz(t *Term) int { // known trailing zero bits
	switch t.op {
	case OInt:
		if t.iv.Sign() == 0 {
			return 64
		}
		return int(t.iv.TrailingZeroBits())
	case OMulC:
		return int(t.iv.TrailingZeroBits()) + tz(t.args[0])
	case OAdd:
		m := 64
		for _, a := range t.args {
			if x := tz(a); x < m {
				m = x
			}
		}
		return m
	case OMod:
		if isPos(t.args[1]) {
			a, b := tz(t.args[0]), tz(t.args[1])
			if b < a {
				return b
			}
			return a
		}
	case OIte:
		a, b := tz(t.args[1]), tz(t.args[2])
		if b < a {
			return b
		}
		return a
	}
	return 0
}

func nonneg(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }

// bitsOf is an upper bound on the number of significant bits of t >= 0.
func bitsOf(t *Term) int {
	if t.hi == nil || !nonneg(t) {
		return 1 << 20
	}
	return t.hi.BitLen()
}

// BitAnd for non-negative operands (callers map negatives first).
func BitAnd(a, b *Term) *Term {
	if a.op == OInt {
		a, b = b, a
	}
	if a.op == OInt && b.op == OInt && nonneg(a) && nonneg(b) {
		return IntB(new(big.Int).And(a.iv, b.iv))
	}
	if b.op == OInt && b.iv.Sign() >= 0 {
		if b.iv.Sign() == 0 {
			return Int(0)
		}
		if constLeaves(a) {
			return mapLeaves(a, func(x *Term) *Term {
				if x.iv.Sign() < 0 {
					return BitAnd(Mod(x, IntB(pow2(64))), b)
				}
				return BitAnd(x, b)
			})
		}
		// runs of ones; works for negative a too (floor semantics)
		var sum []*Term
		m := b.iv
		n := m.BitLen()
		for i := 0; i < n; {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < n && m.Bit(j) == 1 {
				j++
			}
			sum = append(sum, MulC(pow2(i), Mod(Div(a, IntB(pow2(i))), IntB(pow2(j-i)))))
			i = j
		}
		return Add(sum...)
	}
	if b.op == OIte && constLeaves(b) {
		return mapLeaves(b, func(x *Term) *Term { return BitAnd(a, x) })
	}
	if a.op == OIte && constLeaves(a) {
		return mapLeaves(a, func(x *Term) *Term { return BitAnd(b, x) })
	}
	if a == b {
		return a
	}
	if bitsOf(a) <= 16 || bitsOf(b) <= 16 {
		n := bitsOf(a)
		if bitsOf(b) < n {
			n = bitsOf(b)
		}
		var sum []*Term
		for i := 0; i < n; i++ {
			x := Mod(Div(a, IntB(pow2(i))), Int(2))
			y := Mod(Div(b, IntB(pow2(i))), Int(2))
			sum = append(sum, Ite(And(Eq(x, Int(1)), Eq(y, Int(1))), IntB(pow2(i)), Int(0)))
		}
		return Add(sum...)
	}
	t := App("bvand", SInt, a, b)
	if nonneg(a) && nonneg(b) {
		t.lo = bi(0)
		t.hi = minB(a.hi, b.hi)
	}
	return t
}

func BitOr(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && nonneg(a) && nonneg(b) {
		return IntB(new(big.Int).Or(a.iv, b.iv))
	}
	if nonneg(a) && nonneg(b) {
		if bitsOf(a) <= tz(b) || bitsOf(b) <= tz(a) {
			return Add(a, b)
		}
	}
	if b.op == OIte && constLeaves(b) {
		return mapLeaves(b, func(x *Term) *Term { return BitOr(a, x) })
	}
	if a.op == OIte && constLeaves(a) {
		return mapLeaves(a, func(x *Term) *Term { return BitOr(x, b) })
	}
	if a.op == OInt || b.op == OInt || bitsOf(a) <= 16 || bitsOf(b) <= 16 {
		return Sub(Add(a, b), BitAnd(a, b))
	}
	t := App("bvor", SInt, a, b)
	if nonneg(a) && nonneg(b) && a.hi != nil && b.hi != nil {
		n := a.hi.BitLen()
		if b.hi.BitLen() > n {
			n = b.hi.BitLen()
		}
		t.lo = bi(0)
		t.hi = new(big.Int).Sub(pow2(n), bi(1))
	}
	return t
}

func BitXor(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && nonneg(a) && nonneg(b) {
		return IntB(new(big.Int).Xor(a.iv, b.iv))
	}
	// a ^ b = a + b - 2*(a & b)
	return Sub(Add(a, b), MulC(bi(2), BitAnd(a, b)))
}

// Shl returns the mathematical a * 2^s; the caller wraps.
func Shl(a, s *Term, bits int) *Term {
	if s.op == OInt {
		if s.iv.Cmp(bi(int64(bits))) >= 0 && bits > 0 {
			return Int(0)
		}
		return MulC(pow2(int(s.iv.Int64())), a)
	}
	if s.op == OIte && constLeaves(s) {
		return mapLeaves(s, func(x *Term) *Term { return Shl(a, x, bits) })
	}
	if s.lo != nil && s.hi != nil && s.lo.Sign() >= 0 && s.hi.Cmp(bi(64)) <= 0 {
		lo, hi := int(s.lo.Int64()), int(s.hi.Int64())
		r := Shl(a, Int(int64(hi)), bits)
		for i := hi - 1; i >= lo; i-- {
			r = Ite(Eq(s, Int(int64(i))), Shl(a, Int(int64(i)), bits), r)
		}
		return r
	}
	return nil
}

func Shr(a, s *Term, bits int) *Term {
	if s.op == OInt {
		if s.iv.Cmp(bi(int64(bits))) >= 0 && bits > 0 {
			if nonneg(a) {
				return Int(0)
			}
			return Ite(Lt(a, Int(0)), Int(-1), Int(0))
		}
		return Div(a, IntB(pow2(int(s.iv.Int64()))))
	}
	if s.op == OIte && constLeaves(s) {
		return mapLeaves(s, func(x *Term) *Term { return Shr(a, x, bits) })
	}
	if s.lo != nil && s.hi != nil && s.lo.Sign() >= 0 && s.hi.Cmp(bi(64)) <= 0 {
		lo, hi := int(s.lo.Int64()), int(s.hi.Int64())
		r := Shr(a, Int(int64(hi)), bits)
		for i := hi - 1; i >= lo; i-- {
			r = Ite(Eq(s, Int(int64(i))), Shr(a, Int(int64(i)), bits), r)
		}
		return r
	}
	return nil
}

// TruncDiv / TruncMod are Go's division; the divisor is known to be non-zero.
func TruncDiv(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return Div(a, b)
	}
	if b.op == OInt && b.iv.Sign() > 0 {
		return Ite(Ge(a, Int(0)), Div(a, b), Neg(Div(Neg(a), b)))
	}
	return Ite(Ge(a, Int(0)), Div(a, b), Neg(Div(Neg(a), b)))
}
func TruncMod(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return Mod(a, b)
	}
	return Ite(Ge(a, Int(0)), Mod(a, b), Neg(Mod(Neg(a), b)))
}
