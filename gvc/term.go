package main

// Hash-consed SMT terms over mathematical integers, booleans and (nested)
// arrays indexed by integers, with eager simplification and interval
// tracking. An interval is attached to a term only when it follows from the
// term's structure or from an unconditionally asserted type range.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	name string
	elem *Sort // array element (index is Int)
}

var SInt = &Sort{name: "Int"}
var SBool = &Sort{name: "Bool"}
var arrSorts = map[*Sort]*Sort{}

func SArr(e *Sort) *Sort {
	if s, ok := arrSorts[e]; ok {
		return s
	}
	s := &Sort{name: "(Array Int " + e.name + ")", elem: e}
	arrSorts[e] = s
	return s
}

type Op int

const (
	OInt Op = iota
	OTrue
	OFalse
	OSym   // declared constant
	OBound // quantifier-bound variable
	OApp   // uninterpreted function application
	OAdd
	OMulC // const * term
	OMul
	ODiv
	OMod
	OEq
	OLe
	OAnd
	OOr
	ONot
	OIte
	OSelect
	OStore
	OForall
	OConstArr
)

type Term struct {
	op     Op
	args   []*Term
	sort   *Sort
	iv     *big.Int // OInt, OMulC coefficient
	name   string   // OSym, OBound, OApp
	id     int
	lo, hi *big.Int
	bound  bool    // contains a bound variable
	maxSym int     // largest symbol ordinal inside
	bvars  []*Term // OForall
	qh     int     // nesting depth of quantifiers inside
	size   int
}

var termTab = map[string]*Term{}
var termList []*Term
var termCount int

func bi(n int64) *big.Int { return big.NewInt(n) }

func mk(op Op, sort *Sort, name string, iv *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", op, name)
	if iv != nil {
		sb.WriteString(iv.String())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if op == OConstArr || op == OSym || op == OBound {
		sb.WriteString("|" + sort.name)
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termCount++
	t := &Term{op: op, args: args, sort: sort, iv: iv, name: name, id: termCount, size: 1}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		if a.maxSym > t.maxSym {
			t.maxSym = a.maxSym
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	for _, a := range args {
		if a.qh > t.qh {
			t.qh = a.qh
		}
	}
	if op == OForall {
		t.qh++
	}
	if op == OBound {
		t.bound = true
	}
	setInterval(t)
	termTab[key] = t
	termList = append(termList, t)
	return t
}

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}
func mulB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Mul(a, b)
}
func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}

func setInterval(t *Term) {
	if t.sort != SInt {
		return
	}
	switch t.op {
	case OInt:
		t.lo, t.hi = t.iv, t.iv
	case OAdd:
		lo, hi := bi(0), bi(0)
		for _, a := range t.args {
			lo, hi = addB(lo, a.lo), addB(hi, a.hi)
		}
		t.lo, t.hi = lo, hi
	case OMulC:
		l, h := mulB(t.iv, t.args[0].lo), mulB(t.iv, t.args[0].hi)
		if t.iv.Sign() < 0 {
			l, h = h, l
		}
		t.lo, t.hi = l, h
	case OMul:
		a, b := t.args[0], t.args[1]
		if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
			t.lo = mulB(a.lo, b.lo)
			t.hi = mulB(a.hi, b.hi)
		}
	case ODiv:
		a, b := t.args[0], t.args[1]
		if b.op == OInt && b.iv.Sign() > 0 {
			if a.lo != nil {
				t.lo = floorDiv(a.lo, b.iv)
			}
			if a.hi != nil {
				t.hi = floorDiv(a.hi, b.iv)
			}
		}
	case OMod:
		b := t.args[1]
		if b.op == OInt && b.iv.Sign() > 0 {
			t.lo = bi(0)
			t.hi = new(big.Int).Sub(b.iv, bi(1))
		}
	case OIte:
		t.lo = minB(t.args[1].lo, t.args[2].lo)
		t.hi = maxB(t.args[1].hi, t.args[2].hi)
	}
}

var True = mk(OTrue, SBool, "", nil)
var False = mk(OFalse, SBool, "", nil)

func IntB(v *big.Int) *Term { return mk(OInt, SInt, "", v) }
func Int(v int64) *Term     { return IntB(bi(v)) }

var symCount int

type symDecl struct {
	name string
	sort *Sort
}

var symOrd = map[string]int{}

// Sym makes a fresh declared constant.
func Sym(hint string, sort *Sort) *Term {
	symCount++
	n := fmt.Sprintf("%s!%d", sanitize(hint), symCount)
	t := mk(OSym, sort, n, nil)
	t.maxSym = symCount
	return t
}

// SymR makes a fresh constant with an interval; the caller must assert it.
func SymR(hint string, lo, hi *big.Int) *Term {
	t := Sym(hint, SInt)
	t.lo, t.hi = lo, hi
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteRune('_')
		}
	}
	return sb.String()
}

var boundCount int

func BoundVar(hint string) *Term {
	boundCount++
	return mk(OBound, SInt, fmt.Sprintf("%s?%d", sanitize(hint), boundCount), nil)
}

type funcDecl struct {
	name string
	args []*Sort
	res  *Sort
}

var funcDecls = map[string]*funcDecl{}

func App(name string, res *Sort, args ...*Term) *Term {
	if _, ok := funcDecls[name]; !ok {
		fd := &funcDecl{name: name, res: res}
		for _, a := range args {
			fd.args = append(fd.args, a.sort)
		}
		funcDecls[name] = fd
	}
	return mk(OApp, res, name, nil, args...)
}

// --- integers ---

type lin struct {
	c  *big.Int
	m  map[*Term]*big.Int
	ks []*Term
}

func newLin() *lin { return &lin{c: bi(0), m: map[*Term]*big.Int{}} }
func (l *lin) add(t *Term, k *big.Int) {
	switch t.op {
	case OInt:
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(t.iv, k))
	case OAdd:
		for _, a := range t.args {
			l.add(a, k)
		}
	case OMulC:
		l.add(t.args[0], new(big.Int).Mul(k, t.iv))
	default:
		if v, ok := l.m[t]; ok {
			l.m[t] = new(big.Int).Add(v, k)
		} else {
			l.m[t] = k
			l.ks = append(l.ks, t)
		}
	}
}

// recombine joins the digits of a number: x mod m + m*((x div m) mod n) is
// x mod (m*n), and x mod m + m*(x div m) is x.
func (l *lin) recombine() {
	for {
		n := 0
		for _, k := range l.ks {
			if (k.op == OMod || k.op == ODiv) && l.m[k].Sign() != 0 && isPos(k.args[1]) {
				n++
			}
		}
		if n < 2 {
			return
		}
		done := true
		for _, k := range l.ks {
			c := l.m[k]
			if k.op != OMod || c.Sign() == 0 || !isPos(k.args[1]) || k.args[0].op == OInt {
				continue
			}
			x, m := k.args[0], k.args[1].iv
			c2 := new(big.Int).Mul(c, m)
			d := Div(x, k.args[1])
			var p, r *Term
			for _, q := range l.ks {
				if l.m[q].Cmp(c2) != 0 {
					continue
				}
				if q == d {
					p, r = q, x
				} else if q.op == OMod && q.args[0] == d && isPos(q.args[1]) {
					p, r = q, Mod(x, IntB(new(big.Int).Mul(m, q.args[1].iv)))
				}
			}
			if p != nil {
				delete(l.m, k)
				delete(l.m, p)
				var ks []*Term
				for _, q := range l.ks {
					if q != k && q != p {
						ks = append(ks, q)
					}
				}
				l.ks = ks
				l.add(r, c)
				done = false
				break
			}
		}
		if done {
			return
		}
	}
}

func (l *lin) term() *Term {
	l.recombine()
	var parts []*Term
	for _, k := range l.ks {
		c := l.m[k]
		if c.Sign() == 0 {
			continue
		}
		if c.IsInt64() && c.Int64() == 1 {
			parts = append(parts, k)
		} else {
			parts = append(parts, mk(OMulC, SInt, "", c, k))
		}
	}
	sort.Slice(parts, func(i, j int) bool { return atomOf(parts[i]).id < atomOf(parts[j]).id })
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, IntB(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk(OAdd, SInt, "", nil, parts...)
}
func atomOf(t *Term) *Term {
	if t.op == OMulC {
		return t.args[0]
	}
	return t
}

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, bi(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, bi(1))
	l.add(b, bi(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Int(0), a) }
func MulC(k *big.Int, a *Term) *Term {
	l := newLin()
	l.add(a, k)
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.op == OInt {
		return MulC(a.iv, b)
	}
	if b.op == OInt {
		return MulC(b.iv, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, SInt, "", nil, a, b)
}

func isPos(t *Term) bool { return t.op == OInt && t.iv.Sign() > 0 }

// splitMul separates t = m*q + r, where q collects the terms divisible by m.
func splitMul(t *Term, m *big.Int) (q, r *Term) {
	l := newLin()
	l.add(t, bi(1))
	lq, lr := newLin(), newLin()
	for _, k := range l.ks {
		c := l.m[k]
		if c.Sign() == 0 {
			continue
		}
		qq, mm := new(big.Int).DivMod(c, m, new(big.Int))
		if mm.Sign() == 0 {
			lq.add(k, qq)
		} else {
			lr.add(k, c)
		}
	}
	qq, mm := new(big.Int).DivMod(l.c, m, new(big.Int))
	lq.c, lr.c = qq, mm
	return lq.term(), lr.term()
}

// Div is SMT-LIB (Euclidean) division, floor for positive divisors.
func Div(a, b *Term) *Term {
	if isPos(b) {
		m := b.iv
		if m.Cmp(bi(1)) == 0 {
			return a
		}
		if a.op == OInt {
			return IntB(floorDiv(a.iv, m))
		}
		q, r := splitMul(a, m)
		if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(m) < 0 {
			return q
		}
		if q.op != OInt || q.iv.Sign() != 0 {
			return Add(q, Div(r, b))
		}
		if a.lo != nil && a.hi != nil {
			l, h := floorDiv(a.lo, m), floorDiv(a.hi, m)
			if l.Cmp(h) == 0 {
				return IntB(l)
			}
		}
		if a.op == ODiv && isPos(a.args[1]) {
			return Div(a.args[0], IntB(new(big.Int).Mul(a.args[1].iv, m)))
		}
		if a.op == OMod && isPos(a.args[1]) {
			q, rem := new(big.Int).DivMod(a.args[1].iv, m, new(big.Int))
			if rem.Sign() == 0 {
				return Mod(Div(a.args[0], b), IntB(q))
			}
		}
	}
	return mk(ODiv, SInt, "", nil, a, b)
}

func Mod(a, b *Term) *Term {
	if isPos(b) {
		m := b.iv
		if m.Cmp(bi(1)) == 0 {
			return Int(0)
		}
		if a.op == OInt {
			return IntB(new(big.Int).Mod(a.iv, m))
		}
		_, r := splitMul(a, m)
		if r != a {
			return Mod(r, b)
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(m) < 0 {
			return a
		}
		if a.op == OMod && isPos(a.args[1]) {
			if new(big.Int).Mod(a.args[1].iv, m).Sign() == 0 {
				return Mod(a.args[0], b)
			}
		}
		// push into sums of mods: mod(x mod (km) + y, m) = mod(x + y, m)
		if a.op == OAdd {
			changed := false
			l := newLin()
			for _, p := range a.args {
				at := atomOf(p)
				k := bi(1)
				if p.op == OMulC {
					k = p.iv
				}
				if p.op == OInt {
					l.add(p, bi(1))
					continue
				}
				if at.op == OMod && isPos(at.args[1]) && new(big.Int).Mod(at.args[1].iv, m).Sign() == 0 {
					l.add(at.args[0], k)
					changed = true
				} else {
					l.add(at, k)
				}
			}
			if changed {
				return Mod(l.term(), b)
			}
		}
	}
	return mk(OMod, SInt, "", nil, a, b)
}

func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.lo != nil && d.lo.Sign() >= 0 {
		return True
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return False
	}
	if d.op == OInt {
		return boolT(d.iv.Sign() >= 0)
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return False
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return True
	}
	// canonical form: positive terms on each side
	l := newLin()
	l.add(d, bi(1))
	lp, ln := newLin(), newLin()
	for _, k := range l.ks {
		c := l.m[k]
		if c.Sign() > 0 {
			lp.add(k, c)
		} else if c.Sign() < 0 {
			ln.add(k, new(big.Int).Neg(c))
		}
	}
	if l.c.Sign() > 0 {
		lp.c = l.c
	} else {
		ln.c = new(big.Int).Neg(l.c)
	}
	return mk(OLe, SBool, "", nil, ln.term(), lp.term())
}
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func boolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch in Eq: %s vs %s (%s, %s)", a.sort.name, b.sort.name, a, b))
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.op == OInt {
			return boolT(d.iv.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return False
		}
		if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 || b.lo != nil && a.hi != nil && b.lo.Cmp(a.hi) > 0 {
			return False
		}
		if b.op == OInt {
			a, b = b, a
		}
		if a.op == OInt && b.op == OMulC && b.iv.Sign() != 0 {
			q, r := new(big.Int).QuoRem(a.iv, b.iv, new(big.Int))
			if r.Sign() != 0 {
				return False
			}
			return Eq(b.args[0], IntB(q))
		}
		if a.op == OInt && a.iv.IsInt64() && a.iv.Int64() == 1 && b.op == OMod && b.args[1].op == OInt && b.args[1].iv.IsInt64() && b.args[1].iv.Int64() == 2 {
			return Not(Eq(b, Int(0)))
		}
		if b.op == OIte && a.op == OInt {
			a, b = b, a
		}
		if a.op == OIte && b.op == OInt {
			x, y := Eq(a.args[1], b), Eq(a.args[2], b)
			if x.op == OTrue || x.op == OFalse || y.op == OTrue || y.op == OFalse {
				return Ite(a.args[0], x, y)
			}
		}
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, SBool, "", nil, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.args[0]
	case OLe:
		return Lt(a.args[1], a.args[0])
	}
	return mk(ONot, SBool, "", nil, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		switch t.op {
		case OTrue:
			return true
		case OFalse:
			return false
		case OAnd:
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OAnd, SBool, "", nil, out...)
}

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	if t.op == OTrue {
		return nil
	}
	return []*Term{t}
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		switch t.op {
		case OFalse:
			return true
		case OTrue:
			return false
		case OOr:
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) > 1 { // factor common conjuncts
		common := map[*Term]bool{}
		for _, c := range conjuncts(out[0]) {
			common[c] = true
		}
		for _, o := range out[1:] {
			cs := map[*Term]bool{}
			for _, c := range conjuncts(o) {
				cs[c] = true
			}
			for c := range common {
				if !cs[c] {
					delete(common, c)
				}
			}
		}
		if len(common) > 0 {
			var cm []*Term
			for _, c := range conjuncts(out[0]) {
				if common[c] {
					cm = append(cm, c)
				}
			}
			var rest []*Term
			for _, o := range out {
				var rs []*Term
				for _, c := range conjuncts(o) {
					if !common[c] {
						rs = append(rs, c)
					}
				}
				rest = append(rest, And(rs...))
			}
			return And(append(cm, Or(rest...))...)
		}
	}
	return mk(OOr, SBool, "", nil, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	// drop conjuncts of a from b
	if b.op == OAnd {
		have := map[*Term]bool{}
		for _, c := range conjuncts(a) {
			have[c] = true
		}
		var rs []*Term
		for _, c := range b.args {
			if !have[c] {
				rs = append(rs, c)
			}
		}
		b = And(rs...)
		if b == True {
			return True
		}
	} else {
		for _, c := range conjuncts(a) {
			if c == b {
				return True
			}
		}
	}
	return mk(OOr, SBool, "=>", nil, Not(a), b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return mk(OIte, a.sort, "", nil, c, a, b)
}

// apartTerms are the pairs of terms that the precondition of the function under
// verification (one per process) makes different; reads across writes use them.
var apartTerms = map[[2]*Term]bool{}

// entryRefs are references of the entry state; freshRefs are references made
// by calls later on, so that no entry reference equals one of them.
var entryRefs, freshRefs = map[*Term]bool{}, map[*Term]bool{}

func refsApart(x, y *Term) bool {
	return entryRefs[x] && freshRefs[y] || entryRefs[y] && freshRefs[x]
}

// noteFresh records what a call's postcondition says is newly allocated. Only
// terms about values the call itself made count: elsewhere these are free.
func (ex *Exec) noteFresh(cs []*Term, mark int) {
	for _, g := range cs {
		for _, c := range conjuncts(g) {
			if c.op != OLe || c.bound || c.args[0] != ex.alloc0 && ex.allocSyms[c.args[0]] == 0 {
				continue
			}
			t := c.args[1]
			if t.maxSym <= mark {
				continue
			}
			if t.op == OSym || t.op == OSelect && t.args[0].op == OSym && t.args[1].op == OSym && t.args[1].maxSym > mark {
				freshRefs[t] = true
			}
		}
	}
}

func noteDistinct(g *Term) {
	for _, c := range conjuncts(g) {
		if c.op == ONot && c.args[0].op == OEq && c.args[0].args[0].sort == SInt {
			x, y := c.args[0].args[0], c.args[0].args[1]
			apartTerms[[2]*Term{x, y}] = true
			apartTerms[[2]*Term{y, x}] = true
		}
	}
}

func Select(a, i *Term) *Term {
	for {
		switch a.op {
		case OStore:
			if a.args[1] == i {
				return a.args[2]
			}
			d := Sub(a.args[1], i)
			if d.op == OInt || apartTerms[[2]*Term{a.args[1], i}] || refsApart(a.args[1], i) || (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
				a = a.args[0]
				continue
			}
		case OConstArr:
			return a.args[0]
		case OIte:
			// push the selection down only when it simplifies
			x, y := Select(a.args[1], i), Select(a.args[2], i)
			if x == y {
				return x
			}
			if a.args[1].op == OStore || a.args[2].op == OStore || a.args[1].op == OIte || a.args[2].op == OIte || a.args[1].op == OConstArr || a.args[2].op == OConstArr {
				return Ite(a.args[0], x, y)
			}
		}
		break
	}
	return mk(OSelect, a.sort.elem, "", nil, a, i)
}

func Store(a, i, v *Term) *Term {
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	if a.sort.elem != v.sort {
		panic("store sort mismatch: " + a.sort.name + " <- " + v.sort.name)
	}
	return mk(OStore, a.sort, "", nil, a, i, v)
}

func ConstArr(sort *Sort, v *Term) *Term { return mk(OConstArr, sort, "", nil, v) }

func Forall(vs []*Term, body *Term) *Term {
	if body == True {
		return True
	}
	if body == False {
		return False
	}
	// Bound variables are named by nesting height and position, so that
	// formulas that differ only in their bound variables are one term.
	m := map[*Term]*Term{}
	name := ""
	cvs := make([]*Term, len(vs))
	for i, v := range vs {
		cvs[i] = mk(OBound, SInt, fmt.Sprintf("q%d?%d", body.qh+1, i), nil)
		m[v] = cvs[i]
		name += cvs[i].name + " "
	}
	body = Subst(body, m)
	vs = cvs
	if body == True || body == False {
		return body
	}
	t := mk(OForall, SBool, name, nil, body)
	t.bvars = vs
	t.bound = freeBound(body, vs)
	return t
}

func freeBound(t *Term, vs []*Term) bool {
	own := map[*Term]bool{}
	for _, v := range vs {
		own[v] = true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term, own map[*Term]bool) bool
	rec = func(t *Term, own map[*Term]bool) bool {
		if !t.bound || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OBound {
			return !own[t]
		}
		if t.op == OForall {
			return t.bound && rec2(t, own)
		}
		for _, a := range t.args {
			if rec(a, own) {
				return true
			}
		}
		return false
	}
	return rec(t, own)
}

func rec2(t *Term, own map[*Term]bool) bool {
	o := map[*Term]bool{}
	for k := range own {
		o[k] = true
	}
	for _, v := range t.bvars {
		o[v] = true
	}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bound {
			return false
		}
		if t.op == OBound {
			return !o[t]
		}
		if t.op == OForall {
			return rec2(t, o)
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t.args[0])
}

// Subst replaces terms (bound variables, usually) and re-simplifies.
func Subst(t *Term, m map[*Term]*Term) *Term {
	return substMemo(t, m, map[*Term]*Term{})
}

func substMemo(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OAdd:
		return Add(as...)
	case OMulC:
		return MulC(t.iv, as[0])
	case OMul:
		return Mul(as[0], as[1])
	case ODiv:
		return Div(as[0], as[1])
	case OMod:
		return Mod(as[0], as[1])
	case OEq:
		return Eq(as[0], as[1])
	case OLe:
		return Le(as[0], as[1])
	case OAnd:
		return And(as...)
	case OOr:
		if t.name == "=>" {
			return Imp(Not(as[0]), as[1])
		}
		return Or(as...)
	case ONot:
		return Not(as[0])
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OSelect:
		return Select(as[0], as[1])
	case OStore:
		return Store(as[0], as[1], as[2])
	case OForall:
		return Forall(t.bvars, as[0])
	case OConstArr:
		return ConstArr(t.sort, as[0])
	case OApp:
		return mk(OApp, t.sort, t.name, nil, as...)
	}
	panic("rebuild")
}

func (t *Term) String() string {
	if t.size > 4000 {
		return fmt.Sprintf("<term %d>", t.id)
	}
	return smtStr(t, nil)
}

func smtStr(t *Term, names map[*Term]string) string {
	if names != nil {
		if n, ok := names[t]; ok {
			return n
		}
	}
	list := func(op string) string {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteString(" ")
			sb.WriteString(smtStr(a, names))
		}
		sb.WriteString(")")
		return sb.String()
	}
	switch t.op {
	case OInt:
		if t.iv.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.iv).String() + ")"
		}
		return t.iv.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OSym, OBound:
		return "|" + t.name + "|"
	case OApp:
		if len(t.args) == 0 {
			return t.name
		}
		return list(t.name)
	case OAdd:
		return list("+")
	case OMulC:
		return "(* " + smtStr(IntB(t.iv), nil) + " " + smtStr(t.args[0], names) + ")"
	case OMul:
		return list("*")
	case ODiv:
		return list("div")
	case OMod:
		return list("mod")
	case OEq:
		return list("=")
	case OLe:
		return list("<=")
	case OAnd:
		return list("and")
	case OOr:
		if t.name == "=>" {
			return "(=> " + smtStr(Not(t.args[0]), names) + " " + smtStr(t.args[1], names) + ")"
		}
		return list("or")
	case ONot:
		return list("not")
	case OIte:
		return list("ite")
	case OSelect:
		return list("select")
	case OStore:
		return list("store")
	case OConstArr:
		return "((as const " + t.sort.name + ") " + smtStr(t.args[0], names) + ")"
	case OForall:
		var sb strings.Builder
		sb.WriteString("(forall (")
		for _, v := range t.bvars {
			sb.WriteString("(|" + v.name + "| Int)")
		}
		sb.WriteString(") ")
		body := smtStr(t.args[0], names)
		pats := patterns(t)
		if len(pats) > 0 {
			sb.WriteString("(! " + body)
			for _, p := range pats {
				sb.WriteString(" :pattern (")
				for _, x := range p {
					sb.WriteString(smtStr(x, names) + " ")
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(body)
		}
		sb.WriteString(")")
		return sb.String()
	}
	panic("smtStr")
}

// patterns picks, for a single-variable quantifier, every array read or
// function application whose index is the bare bound variable.
func patterns(q *Term) [][]*Term {
	if len(q.bvars) == 2 {
		return patterns2(q)
	}
	if len(q.bvars) != 1 {
		return nil
	}
	v := q.bvars[0]
	var out [][]*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OForall {
			return
		}
		if t.op == OSelect && t.args[1] == v && !t.args[0].bound && simpleArr(t.args[0]) {
			out = append(out, []*Term{t})
			return
		}
		if t.op == OApp {
			bare := false
			ok := true
			for _, a := range t.args {
				if a == v {
					bare = true
				} else if a.bound {
					ok = false
				}
				if !simpleArr(a) {
					ok = false
				}
			}
			if bare && ok {
				out = append(out, []*Term{t})
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(q.args[0])
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

func simpleArr(t *Term) bool {
	// patterns may not contain boolean connectives
	if t.op == OIte || t.sort == SBool {
		return false
	}
	for _, a := range t.args {
		if !simpleArr(a) {
			return false
		}
	}
	return true
}

func patterns2(q *Term) [][]*Term {
	v, w := q.bvars[0], q.bvars[1]
	var sv, sw, av, aw []*Term
	seen := map[*Term]bool{}
	var both []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OForall {
			return
		}
		if t.op == OApp {
			hv, hw, ok := false, false, true
			for _, a := range t.args {
				switch {
				case a == v:
					hv = true
				case a == w:
					hw = true
				case a.bound || !simpleArr(a):
					ok = false
				}
			}
			if ok {
				switch {
				case hv && hw:
					both = append(both, t)
					return
				case hv:
					av = append(av, t)
				case hw:
					aw = append(aw, t)
				}
			}
		}
		if t.op == OSelect && simpleArr(t.args[0]) {
			if !t.args[0].bound {
				if t.args[1] == v {
					sv = append(sv, t)
				}
				if t.args[1] == w {
					sw = append(sw, t)
				}
			} else if t.args[0].op == OSelect && !t.args[0].args[0].bound {
				a, b := t.args[0].args[1], t.args[1]
				if a == v && b == w || a == w && b == v {
					both = append(both, t)
					return
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(q.args[0])
	var out [][]*Term
	for _, b := range both {
		out = append(out, []*Term{b})
	}
	if len(out) > 0 {
		return out
	}
	if len(av) > 0 && len(aw) > 0 {
		for _, a := range av {
			for _, b := range aw {
				out = append(out, []*Term{a, b})
			}
		}
		if len(out) > 4 {
			out = out[:4]
		}
		return out
	}
	if len(av) > 0 && len(sw) > 0 {
		return [][]*Term{{av[0], sw[0]}}
	}
	if len(aw) > 0 && len(sv) > 0 {
		return [][]*Term{{aw[0], sv[0]}}
	}
	for _, a := range sv {
		for _, b := range sw {
			if a.args[0] == b.args[0] {
				out = append(out, []*Term{a, b})
			}
		}
	}
	if len(out) == 0 && len(sv) > 0 && len(sw) > 0 {
		out = append(out, []*Term{sv[0], sw[0]})
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return out
}

// rebaseHyps rewrites a hypothesis forall i. P with reads at i+c into the
// equivalent versions whose reads are at the bare variable, so that E-matching
// finds them. The result is a list of equivalent (or the original) formulas.
func rebaseHyps(t *Term) []*Term {
	switch {
	case t.op == OAnd:
		var out []*Term
		for _, a := range t.args {
			out = append(out, rebaseHyps(a)...)
		}
		return out
	case t.op == OOr && t.name == "=>":
		var out []*Term
		for _, r := range rebaseHyps(t.args[1]) {
			out = append(out, Imp(Not(t.args[0]), r))
		}
		return out
	case t.op == OEq && t.args[0].sort == SBool && !t.bound:
		// a definition b == (not) forall ... without usable triggers
		for i := range t.args {
			q, neg := t.args[i], false
			if q.op == ONot {
				q, neg = q.args[0], true
			}
			if q.op != OForall || len(q.bvars) != 1 || len(patterns(q)) > 0 {
				continue
			}
			vs := rebaseHyps(q)
			if len(vs) == 1 && vs[0] == q {
				continue
			}
			b := t.args[1-i]
			if neg {
				b = Not(b)
			}
			out := []*Term{Imp(Not(b), Not(vs[0]))}
			for _, v := range vs {
				out = append(out, Imp(b, v))
			}
			return out
		}
	case t.op == OForall && len(t.bvars) <= 2:
		out := []*Term{t}
		for vi := range t.bvars {
			var next []*Term
			for _, q := range out {
				next = append(next, rebaseVar(q, vi, 6/len(t.bvars))...)
			}
			out = next
		}
		return out
	}
	return []*Term{t}
}

func rebaseVar(t *Term, vi, max int) []*Term {
	v := t.bvars[vi]
	offs := map[*Term]bool{}
	var order []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OForall {
			return
		}
		if t.op == OSelect && !t.args[0].bound {
			c := Sub(t.args[1], v)
			if !c.bound && !offs[c] {
				offs[c] = true
				order = append(order, c)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t.args[0])
	if len(order) == 0 {
		return []*Term{t}
	}
	var out []*Term
	if len(order) > max {
		order = order[:max]
	}
	for _, c := range order {
		if c.op == OInt && c.iv.Sign() == 0 {
			out = append(out, t)
			continue
		}
		k := BoundVar("k")
		b := Subst(t.args[0], map[*Term]*Term{v: Sub(k, c)})
		vars := append([]*Term{}, t.bvars...)
		vars[vi] = k
		out = append(out, Forall(vars, b))
	}
	return out
}

// tighten narrows the intervals of terms that mention a symbol made after mark,
// from a condition that is assumed wherever such terms are used.
func tighten(c *Term, mark int) bool {
	changed := false
	set := func(t *Term, lo, hi *big.Int) {
		if t.maxSym <= mark || t.bound || (t.op != OSym && t.op != OSelect) || t.sort != SInt {
			return
		}
		nlo, nhi := t.lo, t.hi
		if lo != nil && (nlo == nil || lo.Cmp(nlo) > 0) {
			nlo = lo
		}
		if hi != nil && (nhi == nil || hi.Cmp(nhi) < 0) {
			nhi = hi
		}
		if nlo != nil && nhi != nil && nlo.Cmp(nhi) > 0 {
			return
		}
		if nlo != t.lo || nhi != t.hi {
			t.lo, t.hi = nlo, nhi
			changed = true
		}
	}
	split := func(t *Term) (*Term, *big.Int) {
		if t.op == OAdd && len(t.args) == 2 {
			if t.args[0].op == OInt {
				return t.args[1], t.args[0].iv
			}
			if t.args[1].op == OInt {
				return t.args[0], t.args[1].iv
			}
		}
		return t, bi(0)
	}
	for _, a := range conjuncts(c) {
		if a.bound {
			continue
		}
		switch a.op {
		case OLe:
			x, cx := split(a.args[0])
			y, cy := split(a.args[1])
			// x + cx <= y + cy
			d := new(big.Int).Sub(cy, cx)
			if y.hi != nil {
				set(x, nil, new(big.Int).Add(y.hi, d))
			}
			if y.op == OInt {
				set(x, nil, new(big.Int).Add(y.iv, d))
			}
			if x.lo != nil {
				set(y, new(big.Int).Sub(x.lo, d), nil)
			}
		case OEq:
			for i := range a.args {
				x, y := a.args[i], a.args[1-i]
				if x.sort == SInt {
					set(x, y.lo, y.hi)
				}
			}
		}
	}
	return changed
}

// reinterval recomputes the intervals of compound terms after tighten.
func reinterval(mark int) {
	for _, t := range termList {
		if t.maxSym <= mark || len(t.args) == 0 || t.sort != SInt || t.op == OSelect {
			continue
		}
		lo, hi := t.lo, t.hi
		t.lo, t.hi = nil, nil
		setInterval(t)
		if lo != nil && (t.lo == nil || lo.Cmp(t.lo) > 0) {
			t.lo = lo
		}
		if hi != nil && (t.hi == nil || hi.Cmp(t.hi) < 0) {
			t.hi = hi
		}
		if t.lo != nil && t.hi != nil && t.lo.Cmp(t.hi) > 0 {
			t.lo, t.hi = lo, hi
		}
	}
}

func tightenAll(cs []*Term, mark int) {
	for i := 0; i < 3; i++ {
		ch := false
		for _, c := range cs {
			if tighten(c, mark) {
				ch = true
			}
		}
		if !ch {
			return
		}
		reinterval(mark)
	}
}
