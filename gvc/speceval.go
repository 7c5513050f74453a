package main

// Evaluation of specification expressions over symbolic states.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// SV is a specification value; T is nil for mathematical integers/booleans.
type SV struct {
	V Value
	T types.Type
}

// VSeq is a detached sequence (used inside recursive definitions).
type VSeq struct {
	C    []*Term
	Off  *Term
	Len  *Term
	Elem types.Type
}

type senv struct {
	ex        *Exec
	st, old   *State
	names     map[string]SV
	oldNames  map[string]SV
	local     func(name string) (SV, bool)
	start     *senv // the iteration's first state, at a cut in a loop
	pkg       *Pkg
	freshFrom *Term
	lets      map[string]*SExpr
	depth     int
	recDepth  int
}

func (en *senv) clone() *senv {
	n := *en
	n.names = map[string]SV{}
	for k, v := range en.names {
		n.names[k] = v
	}
	return &n
}

func (ex *Exec) bindLets(en *senv, con *Contract) {
	en.lets = map[string]*SExpr{}
	for _, l := range con.Lets {
		en.lets[l.Name] = l.E
	}
}

func (en *senv) boolean(e *SExpr) *Term {
	v := en.eval(e)
	t, ok := v.V.(VScalar)
	if !ok || t.T.sort != SBool {
		bail("spec: %s is not boolean", e)
	}
	return t.T
}

// logicals gives the logical names of a called contract bound variables.
func (en *senv) logicals(con *Contract) []*Term {
	var bv []*Term
	for _, n := range con.Logical {
		v := BoundVar(n)
		en.names[n] = sI(v)
		bv = append(bv, v)
	}
	return bv
}

// forAllOf closes a clause over the logical names it mentions.
// The instance for the caller's own logical names is added.
func (ex *Exec) forAllOf(g *Term, bv []*Term, names []string) *Term {
	if len(bv) == 0 || !g.bound {
		return g
	}
	var cs []*Term
	for _, c := range conjuncts(g) {
		if !c.bound {
			cs = append(cs, c)
			continue
		}
		m := map[*Term]*Term{}
		var nv []*Term
		for _, v := range bv {
			w := BoundVar("l")
			m[v] = w
			nv = append(nv, w)
		}
		cs = append(cs, Forall(nv, Subst(c, m)))
		own := map[*Term]*Term{}
		for i, v := range bv {
			if t := ex.logical[names[i]]; t != nil {
				own[v] = t
			}
		}
		if len(own) == len(bv) {
			cs = append(cs, Subst(c, own))
		}
	}
	return And(cs...)
}

func ground(g *Term) *Term {
	if g.bound {
		bail("a logical name outside the ensures clauses of a called contract")
	}
	return g
}

func (en *senv) integer(e *SExpr) *Term {
	v := en.eval(e)
	t, ok := v.V.(VScalar)
	if !ok || t.T.sort != SInt {
		bail("spec: %s is not an integer", e)
	}
	return t.T
}

func sI(t *Term) SV { return SV{VScalar{t}, nil} }

func (en *senv) ident(name string) (SV, bool) {
	if v, ok := en.names[name]; ok {
		return v, true
	}
	if l, ok := en.lets[name]; ok {
		return en.eval(l), true
	}
	if en.local != nil {
		if v, ok := en.local(name); ok {
			return v, true
		}
	}
	if t, ok := en.ex.logical[name]; ok {
		return sI(t), true
	}
	var scope *types.Scope
	if en.pkg != nil && en.pkg.Types != nil {
		scope = en.pkg.Types.Scope()
	}
	if scope != nil {
		if o := scope.Lookup(name); o != nil {
			switch c := o.(type) {
			case *types.Const:
				return SV{en.ex.constVal(c.Val(), c.Type()), nil}, true
			case *types.Var:
				return SV{en.ex.globalValue(en.st, c), c.Type()}, true
			}
		}
		// constants of the repository's other packages
		for _, p := range en.ex.prog.Pkgs {
			if o, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
				return SV{en.ex.constVal(o.Val(), o.Type()), nil}, true
			}
		}
	}
	return SV{}, false
}

func (en *senv) eval(e *SExpr) SV {
	ex := en.ex
	switch e.Kind {
	case "num":
		return sI(IntB(e.N))
	case "str":
		return SV{ex.constStr(e.S), types.Typ[types.String]}
	case "id":
		switch e.S {
		case "true":
			return sI(True)
		case "false":
			return sI(False)
		case "nil":
			return SV{VNil{}, nil}
		}
		if v, ok := en.ident(e.S); ok {
			if p, bad := v.V.(VPoison); bad {
				bail("spec: %s has no value: %s", e.S, p.Why)
			}
			return v
		}
		bail("spec: unresolved name %s", e.S)
	case "un":
		switch e.S {
		case "!":
			return sI(Not(en.boolean(e.A[0])))
		case "-":
			return sI(Neg(en.integer(e.A[0])))
		case "*":
			pl, t := en.place(e)
			return SV{ex.load(en.st, pl), t}
		}
	case "bin":
		return en.bin(e)
	case "field":
		return en.field(e)
	case "index":
		return en.index(e)
	case "slice":
		s := en.eval(e.A[0])
		lo := en.integer(e.A[1])
		switch v := s.V.(type) {
		case VSlice:
			hi := v.Len
			if len(e.A) > 2 {
				hi = en.integer(e.A[2])
			}
			return SV{VSlice{v.Ref, Add(v.Off, lo), Sub(hi, lo), Sub(v.Cap, lo)}, s.T}
		case VStr:
			hi := v.Len
			if len(e.A) > 2 {
				hi = en.integer(e.A[2])
			}
			return SV{VStr{v.Arr, Add(v.Off, lo), Sub(hi, lo)}, s.T}
		case VSeq:
			hi := v.Len
			if len(e.A) > 2 {
				hi = en.integer(e.A[2])
			}
			return SV{VSeq{v.C, Add(v.Off, lo), Sub(hi, lo), v.Elem}, s.T}
		}
		bail("spec: slice of %T", s.V)
	case "call":
		return en.call(e)
	case "forall", "exists":
		return sI(en.quant(e))
	}
	bail("spec: cannot evaluate %s", e)
	return SV{}
}

func (en *senv) quant(e *SExpr) *Term {
	lo, hi := en.integer(e.A[0]), en.integer(e.A[1])
	d := Sub(hi, lo)
	if d.op == OInt && d.iv.Cmp(bi(12)) <= 0 && d.iv.IsInt64() {
		var cs []*Term
		for i := int64(0); i < d.iv.Int64(); i++ {
			n := en.clone()
			n.names[e.S] = sI(Add(lo, Int(i)))
			cs = append(cs, n.boolean(e.A[2]))
		}
		if e.Kind == "forall" {
			return And(cs...)
		}
		return Or(cs...)
	}
	v := BoundVar(e.S)
	n := en.clone()
	n.names[e.S] = sI(v)
	b := n.boolean(e.A[2])
	rng := And(Le(lo, v), Lt(v, hi))
	if e.Kind == "forall" {
		if b.op == OForall && len(b.bvars) == 1 {
			return Forall([]*Term{v, b.bvars[0]}, Imp(rng, b.args[0]))
		}
		if b.op == OAnd {
			// split conjunctions so that each part gets its own triggers
			var cs []*Term
			for _, c := range b.args {
				w := BoundVar(e.S)
				if c.op == OForall && len(c.bvars) == 1 {
					cs = append(cs, Forall([]*Term{w, c.bvars[0]}, Subst(Imp(rng, c.args[0]), map[*Term]*Term{v: w})))
					continue
				}
				cs = append(cs, Forall([]*Term{w}, Subst(Imp(rng, c), map[*Term]*Term{v: w})))
			}
			return And(cs...)
		}
		return Forall([]*Term{v}, Imp(rng, b))
	}
	return Not(Forall([]*Term{v}, Imp(rng, Not(b))))
}

func (en *senv) bin(e *SExpr) SV {
	ex := en.ex
	switch e.S {
	case "&&":
		return sI(And(en.boolean(e.A[0]), en.boolean(e.A[1])))
	case "||":
		return sI(Or(en.boolean(e.A[0]), en.boolean(e.A[1])))
	case "==>":
		a := en.boolean(e.A[0])
		if a == False {
			return sI(True)
		}
		return sI(Imp(a, en.boolean(e.A[1])))
	case "<==>":
		return sI(Eq(en.boolean(e.A[0]), en.boolean(e.A[1])))
	case "==", "!=":
		a, b := en.eval(e.A[0]), en.eval(e.A[1])
		r := en.equal(a, b)
		if e.S == "!=" {
			r = Not(r)
		}
		return sI(r)
	}
	a, b := en.integer(e.A[0]), en.integer(e.A[1])
	switch e.S {
	case "<":
		return sI(Lt(a, b))
	case "<=":
		return sI(Le(a, b))
	case ">":
		return sI(Gt(a, b))
	case ">=":
		return sI(Ge(a, b))
	case "+":
		return sI(Add(a, b))
	case "-":
		return sI(Sub(a, b))
	case "*":
		return sI(Mul(a, b))
	case "/":
		return sI(Div(a, b))
	case "%":
		return sI(Mod(a, b))
	case "&":
		return sI(BitAnd(a, b))
	case "|":
		return sI(BitOr(a, b))
	case "<<", ">>":
		var r *Term
		if b.hi == nil || b.lo == nil {
			bail("spec: unbounded shift in %s", e)
		}
		if e.S == "<<" {
			r = Shl(a, b, 0)
		} else {
			r = Shr(a, b, 0)
		}
		if r == nil {
			bail("spec: unsupported shift in %s", e)
		}
		return sI(r)
	}
	_ = ex
	bail("spec: operator %s", e.S)
	return SV{}
}

func (en *senv) seqAt(v Value, t types.Type) (func(i *Term) []*Term, *Term, bool) {
	ex := en.ex
	switch s := v.(type) {
	case VSlice:
		el := t.Underlying().(*types.Slice).Elem()
		arrs := ex.elemArrs(en.st, el, s.Ref)
		return func(i *Term) []*Term {
			var r []*Term
			for _, a := range arrs {
				r = append(r, Select(a, Add(s.Off, i)))
			}
			return r
		}, s.Len, true
	case VStr:
		return func(i *Term) []*Term { return []*Term{ex.byteAt(s, i)} }, s.Len, true
	case VSeq:
		return func(i *Term) []*Term {
			var r []*Term
			for _, a := range s.C {
				r = append(r, Select(a, Add(s.Off, i)))
			}
			return r
		}, s.Len, true
	}
	return nil, nil, false
}

// seqEq: same length and elements.
func (en *senv) seqEq(a, b SV) *Term {
	fa, la, ok1 := en.seqAt(a.V, a.T)
	fb, lb, ok2 := en.seqAt(b.V, b.T)
	if !ok1 || !ok2 {
		bail("spec: not sequences")
	}
	le := Eq(la, lb)
	n := la
	if lb.op == OInt {
		n = lb
	}
	if n.op == OInt && n.iv.Cmp(bi(32)) <= 0 {
		cs := []*Term{le}
		for i := int64(0); i < n.iv.Int64(); i++ {
			x, y := fa(Int(i)), fb(Int(i))
			for j := range x {
				cs = append(cs, Eq(x[j], y[j]))
			}
		}
		return And(cs...)
	}
	k := BoundVar("k")
	x, y := fa(k), fb(k)
	var cs []*Term
	for j := range x {
		cs = append(cs, Eq(x[j], y[j]))
	}
	return And(le, Forall([]*Term{k}, Imp(And(Le(Int(0), k), Lt(k, la)), And(cs...))))
}

func (en *senv) equal(a, b SV) *Term {
	if _, ok := a.V.(VNil); ok {
		a, b = b, a
	}
	if _, ok := b.V.(VNil); ok {
		switch x := a.V.(type) {
		case VSlice:
			return Eq(x.Ref, Int(0))
		case VFunc:
			return False
		case VNil:
			return True
		}
		return Eq(scalar(a.V), Int(0))
	}
	switch x := a.V.(type) {
	case VStr, VSeq:
		return en.seqEq(a, b)
	case VSlice:
		return en.seqEq(a, b)
	case VStruct:
		y, ok := b.V.(VStruct)
		if !ok {
			bail("spec: comparison of struct with %T", b.V)
		}
		u := a.T.Underlying().(*types.Struct)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, en.equal(SV{x.F[i], u.Field(i).Type()}, SV{y.F[i], u.Field(i).Type()}))
		}
		return And(cs...)
	case VArr:
		y := b.V.(VArr)
		var cs []*Term
		at := a.T.Underlying().(*types.Array)
		for i := int64(0); i < at.Len(); i++ {
			for j := range x.C {
				cs = append(cs, Eq(Select(x.C[j], Int(i)), Select(y.C[j], Int(i))))
			}
		}
		return And(cs...)
	}
	p, q := scalar(a.V), scalar(b.V)
	if p.sort != q.sort {
		bail("spec: comparison of different sorts")
	}
	return Eq(p, q)
}

func (en *senv) findField(t types.Type, name string) ([]int, types.Type) {
	if i, gt := ghostField(t, name); gt != nil {
		return []int{i}, gt
	}
	var pkg *types.Package
	if n, ok := t.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	} else if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
	}
	o, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	f, ok := o.(*types.Var)
	if !ok {
		bail("spec: no field %s in %s", name, t)
	}
	return idx, f.Type()
}

func (en *senv) field(e *SExpr) SV {
	ex := en.ex
	if id := e.A[0]; id.Kind == "id" && en.pkg != nil && en.pkg.Types != nil {
		// a variable of an imported package (io.EOF)
		if _, ok := en.ident(id.S); !ok {
			for _, im := range en.pkg.Types.Imports() {
				if im.Name() == id.S {
					if o, ok := im.Scope().Lookup(e.S).(*types.Var); ok {
						return SV{ex.globalValue(en.st, o), o.Type()}
					}
				}
			}
		}
	}
	b := en.eval(e.A[0])
	if b.T == nil {
		bail("spec: field %s of an untyped value", e.S)
	}
	idx, _ := en.findField(b.T, e.S)
	v, t := b.V, b.T
	if idx[0] < 0 && types.IsInterface(t) {
		return SV{ex.load(en.st, ghostPlace(v, t, idx[0])), ghosts[-1-idx[0]].typ}
	}
	if pv, ok := v.(VPtr); ok {
		pl := pv.Pl
		t = t.Underlying().(*types.Pointer).Elem()
		for k, i := range idx {
			if i < 0 {
				g := ghosts[-1-i]
				pl = pl.field(i, g.name)
				t = g.typ
				break
			}
			f := t.Underlying().(*types.Struct).Field(i)
			pl = pl.field(i, f.Name())
			t = f.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok && k < len(idx)-1 {
				pl = ex.load(en.st, pl).(VPtr).Pl
				t = pt.Elem()
			}
		}
		return SV{ex.load(en.st, pl), t}
	}
	for _, i := range idx {
		if i < 0 {
			bail("spec: ghost field of a struct value")
		}
		if pv, ok := v.(VPtr); ok {
			t = t.Underlying().(*types.Pointer).Elem()
			v = ex.load(en.st, pv.Pl)
		}
		s, ok := v.(VStruct)
		if !ok {
			bail("spec: field of %T", v)
		}
		f := t.Underlying().(*types.Struct).Field(i)
		v, t = s.F[i], f.Type()
	}
	return SV{v, t}
}

func (en *senv) index(e *SExpr) SV {
	ex := en.ex
	b := en.eval(e.A[0])
	switch s := b.V.(type) {
	case VStr:
		return SV{VScalar{ex.byteAt(s, en.integer(e.A[1]))}, types.Typ[types.Uint8]}
	case VSlice:
		el := b.T.Underlying().(*types.Slice).Elem()
		i := Add(s.Off, en.integer(e.A[1]))
		return SV{ex.load(en.st, &Place{Kind: PElem, Ref: s.Ref, Idx: i, Key: elemKey(el), Root: el}), el}
	case VSeq:
		i := Add(s.Off, en.integer(e.A[1]))
		var ts []*Term
		for _, a := range s.C {
			ts = append(ts, Select(a, i))
		}
		ex.wellFormed(nil, s.Elem, ts)
		return SV{unflatten(s.Elem, ts), s.Elem}
	case VArr:
		at := b.T.Underlying().(*types.Array)
		_, v := ex.getPath(b.T, s, []Step{{Idx: en.integer(e.A[1])}})
		return SV{v, at.Elem()}
	}
	if b.T != nil {
		if m, ok := b.T.Underlying().(*types.Map); ok {
			kv := en.eval(e.A[1])
			_, v := ex.mapGet(en.st, m, scalar(b.V), ex.mapKey(m.Key(), kv.V))
			return SV{v, m.Elem()}
		}
	}
	bail("spec: index of %T in %s", b.V, e)
	return SV{}
}

func (en *senv) place(e *SExpr) (*Place, types.Type) {
	ex := en.ex
	switch e.Kind {
	case "un":
		if e.S == "*" {
			v := en.eval(e.A[0])
			p, ok := v.V.(VPtr)
			if !ok {
				bail("spec: * of %T", v.V)
			}
			return p.Pl, v.T.Underlying().(*types.Pointer).Elem()
		}
	case "field":
		var pl *Place
		var t types.Type
		if e.A[0].Kind == "field" || e.A[0].Kind == "un" || e.A[0].Kind == "index" {
			pl, t = en.place(e.A[0])
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				pl = ex.load(en.st, pl).(VPtr).Pl
				t = pt.Elem()
			}
		} else {
			v := en.eval(e.A[0])
			if v.T != nil && types.IsInterface(v.T) {
				if i, gt := ghostField(v.T, e.S); gt != nil {
					return ghostPlace(v.V, v.T, i), gt
				}
			}
			p, ok := v.V.(VPtr)
			if !ok {
				bail("spec: place %s", e)
			}
			pl, t = p.Pl, v.T.Underlying().(*types.Pointer).Elem()
		}
		idx, _ := en.findField(t, e.S)
		for k, i := range idx {
			if pt, ok := t.Underlying().(*types.Pointer); ok && k > 0 {
				pl = ex.load(en.st, pl).(VPtr).Pl
				t = pt.Elem()
			}
			if i < 0 {
				g := ghosts[-1-i]
				pl = pl.field(i, g.name)
				t = g.typ
				break
			}
			f := t.Underlying().(*types.Struct).Field(i)
			pl = pl.field(i, f.Name())
			t = f.Type()
		}
		return pl, t
	case "index":
		b := en.eval(e.A[0])
		s := ex.asSlice(b.V)
		el := b.T.Underlying().(*types.Slice).Elem()
		return &Place{Kind: PElem, Ref: s.Ref, Idx: Add(s.Off, en.integer(e.A[1])), Key: elemKey(el), Root: el}, el
	}
	bail("spec: not a place: %s", e)
	return nil, nil
}

func (en *senv) oldEnv() *senv {
	n := en.clone()
	n.st = en.old
	for k, v := range en.oldNames {
		n.names[k] = v
	}
	loc := en.local
	names := en.oldNames
	n.local = func(name string) (SV, bool) {
		if v, ok := names[name]; ok {
			return v, true
		}
		if loc != nil {
			return loc(name)
		}
		return SV{}, false
	}
	return n
}

func (en *senv) call(e *SExpr) SV {
	ex := en.ex
	need := func(n int) {
		if len(e.A) != n {
			bail("spec: %s takes %d arguments", e.S, n)
		}
	}
	switch e.S {
	case "len", "cap":
		need(1)
		v := en.eval(e.A[0])
		switch s := v.V.(type) {
		case VSlice:
			if e.S == "cap" {
				return sI(s.Cap)
			}
			return sI(s.Len)
		case VStr:
			return sI(s.Len)
		case VSeq:
			return sI(s.Len)
		case VNil:
			return sI(Int(0))
		}
		if v.T != nil {
			if m, ok := v.T.Underlying().(*types.Map); ok {
				return sI(ex.mapLen(en.st, m, scalar(v.V)))
			}
			if a, ok := v.T.Underlying().(*types.Array); ok {
				return sI(Int(a.Len()))
			}
		}
		bail("spec: len of %T", v.V)
	case "old":
		need(1)
		o := en.oldEnv()
		v := o.eval(e.A[0])
		if s, ok := v.V.(VSlice); ok {
			// a sequence read later keeps its old contents
			el := v.T.Underlying().(*types.Slice).Elem()
			return SV{VSeq{ex.elemArrs(en.old, el, s.Ref), s.Off, s.Len, el}, v.T}
		}
		return v
	case "start":
		// the value at the start of the iteration of the loop around a cut
		need(1)
		if en.start == nil {
			bail("spec: start() outside of a cut in a loop")
		}
		sub := *en.start
		return sub.eval(e.A[0])
	case "proj":
		// proj(T, A.B): the sequence of one component of a slice of structs
		need(2)
		path := ""
		for q := e.A[1]; q != nil; {
			path = "." + q.S + path
			if q.Kind != "field" {
				break
			}
			q = q.A[0]
		}
		v := en.eval(e.A[0])
		if s, ok := v.V.(VSlice); ok {
			el := v.T.Underlying().(*types.Slice).Elem()
			v.V = VSeq{ex.elemArrs(en.st, el, s.Ref), s.Off, s.Len, el}
		}
		s, ok := v.V.(VSeq)
		if !ok {
			bail("spec: proj of %T", v.V)
		}
		for i, c := range comps(s.Elem) {
			if c.Path == path {
				ft := s.Elem
				for _, f := range strings.Split(path[1:], ".") {
					st, ok := ft.Underlying().(*types.Struct)
					if !ok {
						bail("spec: proj of %s", path)
					}
					for j := 0; j < st.NumFields(); j++ {
						if st.Field(j).Name() == f {
							ft = st.Field(j).Type()
							break
						}
					}
				}
				return SV{VSeq{s.C[i : i+1], s.Off, s.Len, ft}, types.NewSlice(ft)}
			}
		}
		bail("spec: no component %s", path)
	case "cur":
		need(1)
		v := en.eval(e.A[0])
		if s, ok := v.V.(VSlice); ok {
			el := v.T.Underlying().(*types.Slice).Elem()
			return SV{VSeq{ex.elemArrs(en.st, el, s.Ref), s.Off, s.Len, el}, v.T}
		}
		if a, ok := v.V.(VArr); ok {
			at := v.T.Underlying().(*types.Array)
			return SV{VSeq{a.C, Int(0), Int(at.Len()), at.Elem()}, types.NewSlice(at.Elem())}
		}
		return v
	case "ite":
		need(3)
		c := en.boolean(e.A[0])
		if c == True {
			return en.eval(e.A[1])
		}
		if c == False {
			return en.eval(e.A[2])
		}
		a, b := en.eval(e.A[1]), en.eval(e.A[2])
		t := a.T
		if t == nil {
			t = b.T
		}
		if _, ok := a.V.(VScalar); ok {
			return SV{VScalar{Ite(c, scalar(a.V), scalar(b.V))}, t}
		}
		return SV{ex.mergeVal(c, t, a.V, b.V), t}
	case "min", "max":
		need(2)
		a, b := en.integer(e.A[0]), en.integer(e.A[1])
		if e.S == "min" {
			return sI(Ite(Le(a, b), a, b))
		}
		return sI(Ite(Le(a, b), b, a))
	case "int", "uint8", "uint16", "uint32", "uint64":
		if _, isDef := ex.db.Defs[e.S]; !isDef {
			need(1)
			t := en.integer(e.A[0])
			if e.S != "int" {
				k := map[string]int{"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}[e.S]
				t = Wrap(t, intKind{k, false})
			}
			return sI(t)
		}
	case "has":
		need(2)
		m := en.eval(e.A[0])
		k := en.eval(e.A[1])
		u := m.T.Underlying().(*types.Map)
		return sI(ex.mapHas(en.st, u, scalar(m.V), ex.mapKey(u.Key(), k.V)))
	case "fresh":
		need(1)
		v := en.eval(e.A[0])
		if p, ok := v.V.(VPtr); ok && p.Pl.Kind == PVar {
			return SV{VScalar{True}, nil} // a variable of the function itself
		}
		r := en.refOf(v)
		f := en.freshFrom
		if f == nil {
			f = ex.alloc0
		}
		return sI(Le(f, r))
	case "ref":
		need(1)
		return sI(en.refOf(en.eval(e.A[0])))
	case "offs":
		need(1)
		return sI(ex.asSlice(en.eval(e.A[0]).V).Off)
	case "fless":
		// the program's floating-point <
		need(2)
		return sI(App("fcmp"+sanitize("<")+"lt", SBool, scalar(en.eval(e.A[0]).V), scalar(en.eval(e.A[1]).V)))
	case "same":
		// the very same slice (backing store, offset, length)
		need(2)
		a, b := en.eval(e.A[0]), en.eval(e.A[1])
		if x, ok := a.V.(VStr); ok {
			y := b.V.(VStr)
			return sI(And(Eq(x.Arr, y.Arr), Eq(x.Off, y.Off), Eq(x.Len, y.Len)))
		}
		x, y := ex.asSlice(a.V), ex.asSlice(b.V)
		return sI(And(Eq(x.Ref, y.Ref), Eq(x.Off, y.Off), Eq(x.Len, y.Len)))
	case "sameat":
		// same(a, old(b)) for headers: compare with the entry header
		need(2)
		a := en.eval(e.A[0])
		b := en.oldEnv().eval(e.A[1])
		x, y := ex.asSlice(a.V), ex.asSlice(b.V)
		return sI(And(Eq(x.Ref, y.Ref), Eq(x.Off, y.Off), Eq(x.Len, y.Len), Eq(x.Cap, y.Cap)))
	case "refold":
		need(1)
		return sI(en.refOf(en.oldEnv().eval(e.A[0])))
	case "offold":
		need(1)
		return sI(ex.asSlice(en.oldEnv().eval(e.A[0]).V).Off)
	case "separate":
		// different backing stores
		need(2)
		return sI(Ne(en.refOf(en.eval(e.A[0])), en.refOf(en.eval(e.A[1]))))
	case "calls", "arg", "ret":
		o := en.fnParam(e.A[0])
		tr := en.st.trace[o]
		if tr == nil {
			bail("spec: no call trace for %s", e.A[0])
		}
		if e.S == "calls" {
			return sI(tr.Count)
		}
		if e.S == "arg" {
			need(3)
			if e.A[1].Kind != "num" {
				bail("spec: arg index must be a literal")
			}
			i := int(e.A[1].N.Int64())
			if i >= len(tr.Args) {
				bail("spec: callback has %d arguments", len(tr.Args))
			}
			k := en.integer(e.A[2])
			var ts []*Term
			for _, a := range tr.Args[i] {
				ts = append(ts, Select(a, k))
			}
			ex.wellFormed(nil, tr.Types[i], ts)
			v := unflatten(tr.Types[i], ts)
			if s, ok := v.(VStr); ok {
				v = VStr{s.Arr, Int(0), s.Len} // see callback
			}
			return SV{v, tr.Types[i]}
		}
		k := en.integer(e.A[1])
		var ts []*Term
		for _, a := range tr.Rets {
			ts = append(ts, Select(a, k))
		}
		ex.wellFormed(nil, tr.RetT, ts)
		return SV{unflatten(tr.RetT, ts), tr.RetT}
	}
	d := ex.db.Defs[e.S]
	if d == nil {
		bail("spec: unknown function %s", e.S)
	}
	if len(d.Params) != len(e.A) {
		bail("spec: %s takes %d arguments", e.S, len(d.Params))
	}
	if en.depth > 60 {
		bail("spec: definitions too deep at %s", e.S)
	}
	n := &senv{ex: ex, st: en.st, old: en.old, names: map[string]SV{}, oldNames: map[string]SV{}, pkg: en.pkg, freshFrom: en.freshFrom, depth: en.depth + 1, recDepth: en.recDepth}
	var args []SV
	for _, a := range e.A {
		args = append(args, en.eval(a))
	}
	if !d.Rec {
		for i, p := range d.Params {
			n.names[p] = args[i]
		}
		return n.eval(d.Body)
	}
	return en.recApp(d, args)
}

func (ex *Exec) unfold() int {
	if ex.con != nil && ex.con.Unfold > 0 {
		return ex.con.Unfold
	}
	return 3
}

// usesLen reports whether a definition's body, or one it rests on, speaks of
// the length of a sequence, which then is an argument of its application.
func (ex *Exec) usesLen(d *SpecDef) bool {
	if d.useLen == 0 {
		d.useLen = 1
		seen := map[string]bool{}
		var walk func(e *SExpr) bool
		walk = func(e *SExpr) bool {
			if e == nil {
				return false
			}
			if e.Kind == "slice" {
				return true
			}
			if e.Kind == "call" {
				if e.S == "len" || e.S == "same" {
					return true
				}
				if !seen[e.S] {
					seen[e.S] = true
					if o := ex.db.Defs[e.S]; o != nil && walk(o.Body) {
						return true
					}
				}
			}
			for _, a := range e.A {
				if walk(a) {
					return true
				}
			}
			return false
		}
		if walk(d.Body) {
			d.useLen = 2
		}
	}
	return d.useLen == 2
}

// recApp applies a recursive definition as an uninterpreted function and
// records its definitional equation at this instance.
func (en *senv) recApp(d *SpecDef, args []SV) SV {
	ex := en.ex
	if d.Measure != nil {
		ex.used["measure."+d.Name] = true
	} else if err := d.wellFounded(); !d.Opaque && err != "" {
		bail("spec: recursive definition %s: %s", d.Name, err)
	}
	n := &senv{ex: ex, st: en.st, old: en.old, names: map[string]SV{}, oldNames: map[string]SV{}, pkg: en.pkg, depth: en.depth + 1, recDepth: en.recDepth + 1}
	var fl []*Term
	for i, a := range args {
		switch v := a.V.(type) {
		case VSlice:
			el := a.T.Underlying().(*types.Slice).Elem()
			q := VSeq{ex.elemArrs(en.st, el, v.Ref), v.Off, v.Len, el}
			fl = append(append(fl, q.C...), q.Off)
			if d.Opaque || ex.usesLen(d) {
				fl = append(fl, q.Len)
			}
			n.names[d.Params[i]] = SV{q, a.T}
		case VSeq:
			fl = append(append(fl, v.C...), v.Off)
			if d.Opaque || ex.usesLen(d) {
				fl = append(fl, v.Len)
			}
			n.names[d.Params[i]] = a
		case VStr:
			fl = append(fl, v.Arr, v.Off)
			if d.Opaque || ex.usesLen(d) {
				fl = append(fl, v.Len)
			}
			n.names[d.Params[i]] = a
		case VScalar:
			if a.T != nil {
				if _, ok := a.T.Underlying().(*types.Basic); !ok {
					bail("spec: %s cannot take a %s: its value depends on memory", d.Name, a.T)
				}
			}
			fl = append(fl, v.T)
			n.names[d.Params[i]] = a
		default:
			bail("spec: %s cannot take a %T", d.Name, a.V)
		}
	}
	s := SInt
	if d.Bool {
		s = SBool
	}
	app := App("rec_"+d.Name, s, fl...)
	if d.Opaque && !ex.reveal[d.Name] || ex.con.IsMeasure && !d.Opaque {
		return SV{VScalar{app}, nil}
	}
	if app.bound && d.Opaque && en.recDepth < 3 {
		// the definition at every value of the bound variables, triggered by the application
		var bv []*Term
		m := map[*Term]*Term{}
		ok := true
		for _, a := range fl {
			if a.op == OBound {
				if m[a] == nil {
					m[a] = BoundVar("d")
					bv = append(bv, m[a])
				}
			} else if a.bound {
				ok = false
			}
		}
		if ok && len(bv) <= 2 {
			var gl []*Term
			for _, a := range fl {
				if a.op == OBound {
					gl = append(gl, Int(0))
				} else {
					gl = append(gl, a)
				}
			}
			key := App("rec_"+d.Name+"_def", SBool, gl...)
			if !ex.recApps[key] {
				ex.recApps[key] = true
				b := n.eval(d.Body)
				ex.defFacts = append(ex.defFacts, defFact{key, Forall(bv, Subst(Eq(app, scalar(b.V)), m))})
			}
		}
	}
	if !app.bound && !ex.recApps[app] && (en.recDepth < ex.unfold() || d.Opaque && en.recDepth < 60) {
		ex.recApps[app] = true
		b := n.eval(d.Body)
		ex.defFacts = append(ex.defFacts, defFact{app, Eq(app, scalar(b.V))})
	}
	return SV{VScalar{app}, nil}
}

// tryInst is lemmaInst, or nil where a name of the use has no value.
func (en *senv) tryInst(e *SExpr) (r *Term) {
	if !en.try(func() { r = en.lemmaInst(e) }) {
		return nil
	}
	return r
}

func (en *senv) try(f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if b, is := x.(unsupported); !is || !strings.Contains(b.msg, "unresolved name") && !strings.Contains(b.msg, "has no value") {
				panic(x)
			}
			ok = false
		}
	}()
	f()
	return true
}

// lemmaInst evaluates a use directive: a lemma call, a conditional use
// (P ==> L(..)) or a quantified use (forall i in lo..hi :: L(..)).
func (en *senv) lemmaInst(e *SExpr) *Term {
	ex := en.ex
	switch {
	case e.Kind == "bin" && e.S == "==>":
		a := en.boolean(e.A[0])
		return Imp(a, en.lemmaInst(e.A[1]))
	case e.Kind == "forall":
		v := BoundVar(e.S)
		n := en.clone()
		n.names[e.S] = sI(v)
		lo, hi := en.integer(e.A[0]), en.integer(e.A[1])
		b := n.lemmaInst(e.A[2])
		rng := And(Le(lo, v), Lt(v, hi))
		if b.op == OForall && len(b.bvars) == 1 {
			return Forall([]*Term{v, b.bvars[0]}, Imp(rng, b.args[0]))
		}
		return Forall([]*Term{v}, Imp(rng, b))
	case e.Kind == "call":
		c := ex.db.Funcs["lemma."+e.S]
		if c == nil {
			bail("spec: unknown lemma %s", e.S)
		}
		if len(e.A) != len(c.Params) {
			bail("spec: lemma %s takes %d arguments", e.S, len(c.Params))
		}
		n := &senv{ex: ex, st: en.st, old: en.st, names: map[string]SV{}, oldNames: map[string]SV{}, pkg: ex.prog.pkgNamed(c.PkgName), depth: en.depth + 1}
		for i, a := range e.A {
			v := en.eval(a)
			n.names[c.Params[i]] = v
			// the elements must be of the kind the lemma was proved for
			var el types.Type
			switch q := v.V.(type) {
			case VSlice:
				el = v.T.Underlying().(*types.Slice).Elem()
			case VSeq:
				el = q.Elem
			}
			if k := c.Kinds[i]; el != nil && (k == "seq" || k == "ints") {
				b, ok := el.Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 || k == "seq" && b.Kind() != types.Uint8 {
					bail("spec: lemma %s: argument %d has elements of type %s", c.Key, i+1, el)
				}
			}
		}
		ex.bindLets(n, c)
		pre := True
		if ex.con.Lemma {
			if c.Ord > ex.con.Ord {
				bail("lemma %s uses the later lemma %s", ex.con.Key, c.Key)
			}
			if c == ex.con {
				if len(c.Rec) != 1 {
					bail("lemma %s uses itself without a measure", c.Key)
				}
				m := n.integer(c.Rec[0])
				pre = And(Le(Int(0), m), Lt(m, ex.entryEnv.integer(c.Rec[0])))
			}
		}
		if c != ex.con {
			ex.used[c.Key] = true
		}
		for _, r := range c.Requires {
			pre = And(pre, n.boolean(r.E))
		}
		post := True
		for _, q := range c.Ensures {
			post = And(post, n.boolean(q.E))
		}
		return Imp(pre, post)
	}
	bail("spec: not a lemma use: %s", e)
	return nil
}

func (d *SpecDef) wellFounded() string {
	if len(d.Params) == 0 {
		return "no parameters"
	}
	last := d.Params[len(d.Params)-1]
	b := d.Body
	if b.Kind != "call" || b.S != "ite" || len(b.A) != 3 {
		return "the body must be ite(n <= c, base, step)"
	}
	g := b.A[0]
	if g.Kind != "bin" || g.S != "<=" || g.A[0].Kind != "id" || g.A[0].S != last || g.A[1].Kind != "num" {
		return "the guard must be n <= constant for the last parameter"
	}
	bad := ""
	var rec func(e *SExpr, base bool)
	rec = func(e *SExpr, base bool) {
		if e.Kind == "call" && e.S == d.Name {
			if base {
				bad = "recursion in the base case"
				return
			}
			l := e.A[len(e.A)-1]
			if !(l.Kind == "bin" && l.S == "-" && l.A[0].Kind == "id" && l.A[0].S == last && l.A[1].Kind == "num" && l.A[1].N.Cmp(big.NewInt(0)) > 0) {
				bad = "recursive calls must decrease the last parameter"
			}
		}
		for _, a := range e.A {
			rec(a, base)
		}
	}
	rec(b.A[1], true)
	rec(b.A[2], false)
	return bad
}

func (en *senv) fnParam(e *SExpr) types.Object {
	v := en.eval(e)
	f, ok := v.V.(VFunc)
	if !ok || f.Param == nil {
		bail("spec: %s is not a function parameter", e)
	}
	return f.Param
}

func (en *senv) refOf(v SV) *Term {
	switch x := v.V.(type) {
	case VSlice:
		return x.Ref
	case VPtr:
		return x.Pl.Ref
	case VScalar:
		return x.T
	}
	bail("spec: no reference in %T", v.V)
	return nil
}

// loopEnv is the environment of loop invariants: the locals visible at the
// loop, with the contract's parameter names as a fallback.
func (ex *Exec) loopEnv(fr *Frame, s *State, d *loopDef) *senv {
	en := &senv{ex: ex, st: s, old: ex.entry, names: map[string]SV{}, oldNames: ex.entryNames, pkg: fr.fi.Pkg}
	ex.bindLets(en, ex.con)
	for k, f := range d.names {
		en.names[k] = f(s)
	}
	en.local = func(name string) (SV, bool) { return ex.lookupLocal(fr, s, d.pos, name) }
	return en
}

func (ex *Exec) lookupLocal(fr *Frame, s *State, pos token.Pos, name string) (SV, bool) {
	if r, ok := ex.rebind[name]; ok {
		name = r
	}
	try := func(f *Frame, p token.Pos) (SV, bool) {
		sc := f.fi.Pkg.Types.Scope().Innermost(p)
		if sc == nil {
			return SV{}, false
		}
		_, o := sc.LookupParent(name, p)
		if o == nil {
			return SV{}, false
		}
		if v, ok := s.vars[o]; ok {
			return SV{v, ex.varType(f, o)}, true
		}
		return SV{}, false
	}
	if v, ok := try(fr, pos); ok {
		return v, true
	}
	// enclosing frames (helper functions inlined into the verified function)
	for i := len(ex.frames) - 1; i >= 0; i-- {
		f := ex.frames[i]
		for _, o := range sortedObjs(s.vars) {
			if o.Name() == name && f.fi.Decl != nil && o.Pos() >= f.fi.Decl.Pos() && o.Pos() <= f.fi.Decl.End() {
				return SV{s.vars[o], ex.varType(f, o)}, true
			}
		}
	}
	if v, ok := ex.entryNames[name]; ok {
		// a parameter known by its contract name
		for i, n := range ex.con.Params {
			if n == name && i < len(ex.params) && ex.params[i] != nil {
				if cv, ok := s.vars[ex.params[i]]; ok {
					return SV{cv, v.T}, true
				}
			}
		}
		return v, true
	}
	return SV{}, false
}

var _ = constant.Int
var _ = strings.TrimSpace

// defFact is the definitional equation of an application of a definition.
type defFact struct{ app, eq *Term }
