package main

// Evaluation of Go expressions to symbolic values.

import (
	"go/ast"
	"go/token"
	"go/types"
)

func scalar(v Value) *Term {
	switch x := v.(type) {
	case VScalar:
		return x.T
	case VNil:
		return Int(0)
	case VPtr:
		if x.Pl.Kind == PObj && len(x.Pl.Path) == 0 {
			return x.Pl.Ref
		}
		if x.Pl.Kind == PVar || x.Pl.Kind == PElem || x.Pl.Kind == PObj {
			return Int(1)
		}
	case VFunc:
		return Int(1)
	case VPoison:
		bail("poison value: %s", x.Why)
	}
	bail("not a scalar: %T", v)
	return nil
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func (ex *Exec) evalT(fr *Frame, st *State, e ast.Expr) *Term { return scalar(ex.eval(fr, st, e)) }

// evalAs evaluates e and converts implicitly to type t.
func (ex *Exec) evalAs(fr *Frame, st *State, e ast.Expr, t types.Type) Value {
	v := ex.eval(fr, st, e)
	return ex.implicit(st, v, ex.typeOf(fr, e), t)
}

func (ex *Exec) implicit(st *State, v Value, from, to types.Type) Value {
	if to == nil {
		return v
	}
	if _, ok := v.(VNil); ok {
		if _, ok := to.Underlying().(*types.Signature); ok {
			return VScalar{Int(0)}
		}
		return zeroValue(to)
	}
	if !isTypeParam(to) {
		if _, ok := to.Underlying().(*types.Interface); ok {
			if from != nil {
				if _, ok := from.Underlying().(*types.Interface); ok && !isTypeParam(from) {
					return v
				}
				if isUntypedNil(from) {
					return VScalar{Int(0)}
				}
			}
			s := SymR("iface", bi(1), nil)
			ex.symAx[s] = append(ex.symAx[s], mk(OLe, SBool, "", nil, Int(1), s))
			return VScalar{s}
		}
	}
	return v
}

func (ex *Exec) eval(fr *Frame, st *State, e ast.Expr) Value {
	if st.dead() {
		// still produce something well-shaped
		t := ex.typeOf(fr, e)
		if tt, ok := t.(*types.Tuple); ok {
			var vs []Value
			for i := 0; i < tt.Len(); i++ {
				vs = append(vs, ex.deadValue(tt.At(i).Type()))
			}
			return VTuple{vs}
		}
		return ex.deadValue(t)
	}
	if tv, ok := fr.info.Types[e]; ok && tv.Value != nil {
		return ex.constVal(tv.Value, fr.subst(tv.Type))
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ex.eval(fr, st, x.X)
	case *ast.Ident:
		if x.Name == "_" {
			bail("blank identifier read")
		}
		o := fr.info.Uses[x]
		if o == nil {
			o = fr.info.Defs[x]
		}
		switch o := o.(type) {
		case *types.Nil:
			return VNil{}
		case *types.Func:
			if fi := ex.prog.Decls[o.Origin()]; fi != nil {
				return VFunc{Decl: fi, Targs: ex.instTargs(fr, x, o)}
			}
			bail("function value %s", o.Name())
		case *types.Var:
			if v, ok := st.vars[o]; ok {
				if p, ok := v.(VPoison); ok {
					bail("poison value of %s: %s", o.Name(), p.Why)
				}
				return v
			}
			return ex.globalValue(st, o)
		}
		bail("identifier %s", x.Name)
	case *ast.FuncLit:
		return VFunc{Lit: x, Frame: fr}
	case *ast.CompositeLit:
		return ex.composite(fr, st, x, ex.typeOf(fr, x))
	case *ast.UnaryExpr:
		return ex.unary(fr, st, x)
	case *ast.BinaryExpr:
		return ex.binary(fr, st, x)
	case *ast.CallExpr:
		return ex.call(fr, st, x)
	case *ast.StarExpr:
		pl := ex.place(fr, st, x)
		return ex.load(st, pl)
	case *ast.SelectorExpr:
		return ex.selector(fr, st, x)
	case *ast.IndexExpr:
		return ex.indexExpr(fr, st, x, false)
	case *ast.SliceExpr:
		return ex.sliceExpr(fr, st, x)
	}
	bail("expression %T at %s", e, ex.pos(e))
	return nil
}

func (ex *Exec) deadValue(t types.Type) Value {
	if _, ok := t.Underlying().(*types.Signature); ok && !isTypeParam(t) {
		return VScalar{Int(0)}
	}
	if isUntypedNil(t) {
		return VNil{}
	}
	if tt, ok := t.(*types.Tuple); ok && tt.Len() == 0 {
		return VTuple{}
	}
	return zeroValue(t)
}

func (ex *Exec) instTargs(fr *Frame, id *ast.Ident, o *types.Func) map[*types.TypeParam]types.Type {
	inst, ok := fr.info.Instances[id]
	if !ok {
		return nil
	}
	m := map[*types.TypeParam]types.Type{}
	tps := o.Origin().Type().(*types.Signature).TypeParams()
	for i := 0; i < tps.Len(); i++ {
		m[tps.At(i)] = fr.subst(inst.TypeArgs.At(i))
	}
	return m
}

// --- places ---

func (ex *Exec) derefPtr(st *State, n ast.Node, v Value, t types.Type) *Place {
	switch p := v.(type) {
	case VPtr:
		if p.Pl.Kind == PObj && len(p.Pl.Path) == 0 {
			ex.mustNot(st, "nil-deref", n, Eq(p.Pl.Ref, Int(0)))
		}
		return p.Pl
	case VNil:
		ex.mustNot(st, "nil-deref", n, True)
		return &Place{Kind: PObj, Ref: Int(0), Key: structKey(t.Underlying().(*types.Pointer).Elem()), Root: t.Underlying().(*types.Pointer).Elem()}
	case VPoison:
		bail("poison pointer: %s", p.Why)
	}
	bail("deref of %T", v)
	return nil
}

func (ex *Exec) place(fr *Frame, st *State, e ast.Expr) *Place {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ex.place(fr, st, x.X)
	case *ast.Ident:
		o := fr.info.Uses[x]
		if o == nil {
			o = fr.info.Defs[x]
		}
		if _, ok := o.(*types.Var); !ok {
			bail("place of %s", x.Name)
		}
		return &Place{Kind: PVar, Obj: o, Root: fr.subst(o.Type())}
	case *ast.StarExpr:
		v := ex.eval(fr, st, x.X)
		return ex.derefPtr(st, x, v, ex.typeOf(fr, x.X))
	case *ast.SelectorExpr:
		sel, ok := fr.info.Selections[x]
		if !ok {
			o := fr.info.Uses[x.Sel]
			if _, ok := o.(*types.Var); ok {
				return &Place{Kind: PVar, Obj: o, Root: o.Type()}
			}
			bail("qualified %s", ex.src(x))
		}
		if sel.Kind() != types.FieldVal {
			bail("method value place")
		}
		t := ex.typeOf(fr, x.X)
		var pl *Place
		if _, ok := t.Underlying().(*types.Pointer); ok {
			pl = ex.derefPtr(st, x, ex.eval(fr, st, x.X), t)
			t = t.Underlying().(*types.Pointer).Elem()
		} else {
			pl = ex.place(fr, st, x.X)
		}
		for k, fi := range sel.Index() {
			if k > 0 {
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					pl = ex.derefPtr(st, x, ex.load(st, pl), t)
					t = pt.Elem()
				}
			}
			sf := t.Underlying().(*types.Struct).Field(fi)
			pl = pl.field(fi, sf.Name())
			t = sf.Type()
		}
		return pl
	case *ast.IndexExpr:
		t := ex.typeOf(fr, x.X)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s := ex.asSlice(ex.eval(fr, st, x.X))
			i := ex.evalT(fr, st, x.Index)
			ex.mustNot(st, "index", x, Not(And(Le(Int(0), i), Lt(i, s.Len))))
			return &Place{Kind: PElem, Ref: s.Ref, Idx: Add(s.Off, i), Key: elemKey(u.Elem()), Root: u.Elem()}
		case *types.Array:
			pl := ex.place(fr, st, x.X)
			i := ex.evalT(fr, st, x.Index)
			ex.mustNot(st, "index", x, Not(And(Le(Int(0), i), Lt(i, Int(u.Len())))))
			return pl.index(i)
		case *types.Pointer:
			if at, ok := u.Elem().Underlying().(*types.Array); ok {
				pl := ex.derefPtr(st, x, ex.eval(fr, st, x.X), t)
				i := ex.evalT(fr, st, x.Index)
				ex.mustNot(st, "index", x, Not(And(Le(Int(0), i), Lt(i, Int(at.Len())))))
				return pl.index(i)
			}
		}
		bail("index place on %s", t)
	case *ast.CompositeLit:
		// address of a composite literal
		t := ex.typeOf(fr, x)
		return ex.newObj(st, t, ex.composite(fr, st, x, t))
	}
	// a temporary
	t := ex.typeOf(fr, e)
	v := ex.eval(fr, st, e)
	o := types.NewVar(e.Pos(), nil, "tmp", t)
	st.vars[o] = v
	return &Place{Kind: PVar, Obj: o, Root: t}
}

func (ex *Exec) newObj(st *State, t types.Type, v Value) *Place {
	r := ex.allocRef(st)
	pl := &Place{Kind: PObj, Ref: r, Key: structKey(t), Root: t}
	ex.storeNoCheck(st, pl, v)
	return pl
}

func (ex *Exec) asSlice(v Value) VSlice {
	switch x := v.(type) {
	case VSlice:
		return x
	case VNil:
		return VSlice{Int(0), Int(0), Int(0), Int(0)}
	case VPoison:
		bail("poison slice: %s", x.Why)
	}
	bail("slice expected, got %T", v)
	return VSlice{}
}
func (ex *Exec) asStr(v Value) VStr {
	switch x := v.(type) {
	case VStr:
		return x
	case VPoison:
		bail("poison string: %s", x.Why)
	}
	bail("string expected, got %T", v)
	return VStr{}
}

// --- expressions ---

func (ex *Exec) selector(fr *Frame, st *State, x *ast.SelectorExpr) Value {
	sel, ok := fr.info.Selections[x]
	if !ok {
		o := fr.info.Uses[x.Sel]
		switch o := o.(type) {
		case *types.Var:
			return ex.globalValue(st, o)
		case *types.Func:
			if fi := ex.prog.Decls[o.Origin()]; fi != nil {
				return VFunc{Decl: fi, Targs: ex.instTargs(fr, x.Sel, o)}
			}
		}
		bail("selector %s", ex.src(x))
	}
	switch sel.Kind() {
	case types.FieldVal:
		t := ex.typeOf(fr, x.X)
		if _, ok := t.Underlying().(*types.Pointer); ok || ex.addressable(fr, x.X) {
			return ex.load(st, ex.place(fr, st, x))
		}
		v := ex.eval(fr, st, x.X)
		for _, fi := range sel.Index() {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				pl := ex.derefPtr(st, x, v, t)
				v = ex.load(st, pl)
				t = pt.Elem()
			}
			s, ok := v.(VStruct)
			if !ok {
				bail("field of %T", v)
			}
			v = s.F[fi]
			t = t.Underlying().(*types.Struct).Field(fi).Type()
		}
		return v
	case types.MethodVal:
		o := sel.Obj().(*types.Func)
		if fi := ex.prog.Decls[o.Origin()]; fi != nil {
			recv := ex.receiver(fr, st, x, sel)
			return VFunc{Decl: fi, Recv: recv, HasRecv: true, Targs: ex.recvTargs(fr, x, sel)}
		}
	}
	bail("selector %s", ex.src(x))
	return nil
}

func (ex *Exec) addressable(fr *Frame, e ast.Expr) bool {
	tv, ok := fr.info.Types[e]
	return ok && tv.Addressable()
}

// receiver evaluates the receiver of a method selection.
func (ex *Exec) receiver(fr *Frame, st *State, x *ast.SelectorExpr, sel *types.Selection) Value {
	o := sel.Obj().(*types.Func)
	rt := o.Type().(*types.Signature).Recv().Type()
	_, wantPtr := rt.Underlying().(*types.Pointer)
	t := ex.typeOf(fr, x.X)
	idx := sel.Index()
	path := idx[:len(idx)-1]
	var pl *Place
	var v Value
	isPtr := false
	if _, ok := t.Underlying().(*types.Pointer); ok {
		v = ex.eval(fr, st, x.X)
		if len(path) == 0 {
			if wantPtr {
				if p, ok := v.(VPtr); ok {
					return p
				}
				if _, ok := v.(VNil); ok {
					return zeroValue(t)
				}
				bail("receiver %T", v)
			}
			return ex.load(st, ex.derefPtr(st, x, v, t))
		}
		pl = ex.derefPtr(st, x, v, t)
		t = t.Underlying().(*types.Pointer).Elem()
	} else if ex.addressable(fr, x.X) {
		pl = ex.place(fr, st, x.X)
	} else {
		v = ex.eval(fr, st, x.X)
		for _, fi := range path {
			s, ok := v.(VStruct)
			if !ok {
				bail("embedded receiver")
			}
			v = s.F[fi]
			t = t.Underlying().(*types.Struct).Field(fi).Type()
		}
		if wantPtr {
			if p, ok := v.(VPtr); ok {
				return p
			}
			bail("pointer receiver on temporary")
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return ex.load(st, ex.derefPtr(st, x, v, t))
		}
		return v
	}
	for _, fi := range path {
		if isPtr {
			pl = ex.derefPtr(st, x, ex.load(st, pl), t)
			t = t.Underlying().(*types.Pointer).Elem()
		}
		sf := t.Underlying().(*types.Struct).Field(fi)
		pl = pl.field(fi, sf.Name())
		t = sf.Type()
		_, isPtr = t.Underlying().(*types.Pointer)
	}
	if isPtr {
		pv := ex.load(st, pl)
		if wantPtr {
			return pv
		}
		return ex.load(st, ex.derefPtr(st, x, pv, t))
	}
	if wantPtr {
		return VPtr{pl}
	}
	return ex.load(st, pl)
}

func (ex *Exec) recvTargs(fr *Frame, x *ast.SelectorExpr, sel *types.Selection) map[*types.TypeParam]types.Type {
	rt := sel.Recv()
	if p, ok := rt.Underlying().(*types.Pointer); ok {
		rt = p.Elem()
	}
	rt = fr.subst(rt)
	n, ok := rt.(*types.Named)
	if !ok || n.TypeArgs() == nil || n.TypeArgs().Len() == 0 {
		return nil
	}
	o := sel.Obj().(*types.Func).Origin()
	tps := o.Type().(*types.Signature).RecvTypeParams()
	m := map[*types.TypeParam]types.Type{}
	for i := 0; i < tps.Len() && i < n.TypeArgs().Len(); i++ {
		m[tps.At(i)] = n.TypeArgs().At(i)
	}
	return m
}

func (ex *Exec) indexExpr(fr *Frame, st *State, x *ast.IndexExpr, comma bool) Value {
	t := ex.typeOf(fr, x.X)
	if _, ok := t.(*types.Signature); ok { // explicit instantiation
		return ex.eval(fr, st, x.X)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := ex.asStr(ex.eval(fr, st, x.X))
		i := ex.evalT(fr, st, x.Index)
		ex.mustNot(st, "index", x, Not(And(Le(Int(0), i), Lt(i, s.Len))))
		return VScalar{ex.byteAt(s, i)}
	case *types.Map:
		ref := ex.evalT(fr, st, x.X)
		k := ex.mapKey(u.Key(), ex.evalAs(fr, st, x.Index, u.Key()))
		has, v := ex.mapGet(st, u, ref, k)
		if comma {
			return VTuple{[]Value{v, VScalar{has}}}
		}
		return v
	case *types.Array:
		if !ex.addressable(fr, x.X) {
			v := ex.eval(fr, st, x.X)
			i := ex.evalT(fr, st, x.Index)
			ex.mustNot(st, "index", x, Not(And(Le(Int(0), i), Lt(i, Int(u.Len())))))
			_, r := ex.getPath(t, v, []Step{{Idx: i}})
			return r
		}
	}
	pl := ex.place(fr, st, x)
	return ex.load(st, pl)
}

func (ex *Exec) byteAt(s VStr, i *Term) *Term {
	b := Select(s.Arr, Add(s.Off, i))
	ex.rangeFact(b, bi(0), bi(255))
	return b
}

// --- maps ---

func mapPrefix(u *types.Map) string { return "M|" + elemKey(u.Key()) + ">" + elemKey2(u.Elem()) + "|" }

func (ex *Exec) mapKey(kt types.Type, v Value) *Term {
	fl := flatten(kt, v)
	if len(fl) == 1 && fl[0].sort == SInt {
		return fl[0]
	}
	if isString(kt) {
		return App("strkey", SInt, fl...)
	}
	if at, ok := kt.Underlying().(*types.Array); ok && len(fl) == 1 {
		var as []*Term
		for i := int64(0); i < at.Len(); i++ {
			as = append(as, Select(fl[0], Int(i)))
		}
		return App("arrkey"+at.Elem().String(), SInt, as...)
	}
	bail("map key type %s", kt)
	return nil
}

func (ex *Exec) mapHas(st *State, u *types.Map, ref, k *Term) *Term {
	h := ex.heapGet(st, mapPrefix(u)+"has", Comp{"", SBool, "bool", intKind{}}, true)
	return And(Ne(ref, Int(0)), Select(Select(h, ref), k))
}

func (ex *Exec) mapGet(st *State, u *types.Map, ref, k *Term) (*Term, Value) {
	has := ex.mapHas(st, u, ref, k)
	var ts []*Term
	cs := comps(u.Elem())
	for _, c := range cs {
		ts = append(ts, Select(Select(ex.heapGet(st, mapPrefix(u)+"v"+c.Path, c, true), ref), k))
	}
	ex.wellFormed(st, u.Elem(), ts)
	for i, c := range cs {
		ts[i] = Ite(has, ts[i], zeroTerm(c))
	}
	return has, unflatten(u.Elem(), ts)
}

func (ex *Exec) mapLen(st *State, u *types.Map, ref *Term) *Term {
	h := ex.heapGet(st, mapPrefix(u)+"len", Comp{"", SInt, "len", intKind{}}, false)
	l := Select(h, ref)
	ex.rangeFact(l, bi(0), maxLen)
	return Ite(Eq(ref, Int(0)), Int(0), l)
}

func (ex *Exec) mapSet(st *State, n ast.Node, u *types.Map, ref, k *Term, v Value) {
	ex.mustNot(st, "nil-map", n, Eq(ref, Int(0)))
	ex.checkWrite(st, n, mapPrefix(u), ref, nil, nil)
	has := ex.mapHas(st, u, ref, k)
	l := ex.mapLen(st, u, ref)
	p := mapPrefix(u)
	put := func(key string, c Comp, x *Term) {
		h := ex.heapGet(st, key, c, true)
		ex.writes = append(ex.writes, write{key, ref, c, true})
		st.heap[key] = Store(h, ref, Store(Select(h, ref), k, x))
	}
	put(p+"has", Comp{"", SBool, "bool", intKind{}}, True)
	fl := flatten(u.Elem(), v)
	for i, c := range comps(u.Elem()) {
		put(p+"v"+c.Path, c, fl[i])
	}
	lc := Comp{"", SInt, "len", intKind{}}
	h := ex.heapGet(st, p+"len", lc, false)
	ex.writes = append(ex.writes, write{p + "len", ref, lc, false})
	st.heap[p+"len"] = Store(h, ref, Ite(has, l, Add(l, Int(1))))
}

func (ex *Exec) mapDelete(st *State, n ast.Node, u *types.Map, ref, k *Term, all bool) {
	ex.checkWrite(st, n, mapPrefix(u), ref, nil, nil)
	p := mapPrefix(u)
	hc := Comp{"", SBool, "bool", intKind{}}
	lc := Comp{"", SInt, "len", intKind{}}
	has := False
	l := ex.mapLen(st, u, ref)
	h := ex.heapGet(st, p+"has", hc, true)
	ex.writes = append(ex.writes, write{p + "has", ref, hc, true}, write{p + "len", ref, lc, false})
	nl := Int(0)
	if all {
		st.heap[p+"has"] = Store(h, ref, ConstArr(SArr(SBool), False))
	} else {
		has = ex.mapHas(st, u, ref, k)
		st.heap[p+"has"] = Store(h, ref, Store(Select(h, ref), k, False))
		nl = Ite(has, Sub(l, Int(1)), l)
	}
	lh := ex.heapGet(st, p+"len", lc, false)
	st.heap[p+"len"] = Store(lh, ref, nl)
}

func (ex *Exec) newMap(st *State, u *types.Map) Value {
	r := ex.allocRef(st)
	p := mapPrefix(u)
	hc := Comp{"", SBool, "bool", intKind{}}
	lc := Comp{"", SInt, "len", intKind{}}
	st.heap[p+"has"] = Store(ex.heapGet(st, p+"has", hc, true), r, ConstArr(SArr(SBool), False))
	st.heap[p+"len"] = Store(ex.heapGet(st, p+"len", lc, false), r, Int(0))
	ex.writes = append(ex.writes, write{p + "has", r, hc, true}, write{p + "len", r, lc, false})
	return VScalar{r}
}

// --- slices ---

func (ex *Exec) sliceExpr(fr *Frame, st *State, x *ast.SliceExpr) Value {
	t := ex.typeOf(fr, x.X)
	bound := func(e ast.Expr, def *Term) *Term {
		if e == nil {
			return def
		}
		return ex.evalT(fr, st, e)
	}
	if isString(t) {
		s := ex.asStr(ex.eval(fr, st, x.X))
		lo := bound(x.Low, Int(0))
		hi := bound(x.High, s.Len)
		ex.mustNot(st, "slice", x, Not(And(Le(Int(0), lo), Le(lo, hi), Le(hi, s.Len))))
		return VStr{s.Arr, Add(s.Off, lo), ex.lenTerm(Sub(hi, lo))}
	}
	u, ok := t.Underlying().(*types.Slice)
	if !ok {
		if at, ok := t.Underlying().(*types.Array); ok {
			// a view of an addressable local array: copied into fresh memory,
			// allowed only for reading (the copy does not write through)
			_ = at
		}
		bail("slicing %s", t)
	}
	s := ex.asSlice(ex.eval(fr, st, x.X))
	lo := bound(x.Low, Int(0))
	hi := bound(x.High, s.Len)
	mx := s.Cap
	if x.Max != nil {
		mx = ex.evalT(fr, st, x.Max)
	}
	ex.mustNot(st, "slice", x, Not(And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.Cap))))
	if x.High != nil && !st.dead() {
		if d := Le(hi, s.Len); d != True {
			// elements revealed beyond the length are unknown
			if !ex.impliedLe(st, hi, s.Len) {
				for i, a := range ex.elemArrs(st, u.Elem(), s.Ref) {
					c := comps(u.Elem())[i]
					f := ex.freshElems("reveal", c)
					k := BoundVar("k")
					rd := mk(OSelect, c.Sort, "", nil, f, k)
					in := And(Le(Add(s.Off, s.Len), k), Lt(k, Add(s.Off, hi)))
					ex.assume(st, Forall([]*Term{k}, Or(in, Eq(rd, Select(a, k)))))
					key := "E|" + elemKey(u.Elem()) + "|" + c.Path
					h := ex.heapGet(st, key, c, true)
					ex.writes = append(ex.writes, write{key, s.Ref, c, true})
					st.heap[key] = Store(h, s.Ref, f)
				}
			}
		}
	}
	return VSlice{s.Ref, Add(s.Off, lo), ex.lenTerm(Sub(hi, lo)), ex.lenTerm(Sub(mx, lo))}
}

func (ex *Exec) lenTerm(t *Term) *Term { return t }

// impliedLe is a cheap syntactic check that the path condition gives a <= b.
func (ex *Exec) impliedLe(st *State, a, b *Term) bool {
	g := Le(a, b)
	if g == True {
		return true
	}
	for _, c := range conjuncts(st.pc) {
		if c == g {
			return true
		}
	}
	return ex.quickProve(st, g)
}

func (ex *Exec) composite(fr *Frame, st *State, x *ast.CompositeLit, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := zeroValue(t).(VStruct)
		v = VStruct{append([]Value{}, v.F...)}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						v.F[j] = ex.elt(fr, st, kv.Value, u.Field(j).Type())
					}
				}
			} else {
				v.F[i] = ex.elt(fr, st, el, u.Field(i).Type())
			}
		}
		return v
	case *types.Slice:
		var vals []Value
		for _, el := range x.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				bail("keyed slice literal")
			}
			vals = append(vals, ex.elt(fr, st, el, u.Elem()))
		}
		return ex.sliceOf(st, u.Elem(), vals)
	case *types.Array:
		v := zeroValue(t).(VArr)
		cs := append([]*Term{}, v.C...)
		for i, el := range x.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				bail("keyed array literal")
			}
			fl := flatten(u.Elem(), ex.elt(fr, st, el, u.Elem()))
			for j := range cs {
				cs[j] = Store(cs[j], Int(int64(i)), fl[j])
			}
		}
		return VArr{cs}
	case *types.Map:
		if len(x.Elts) == 0 {
			return ex.newMap(st, u)
		}
	case *types.Pointer:
		return VPtr{ex.newObj(st, u.Elem(), ex.composite(fr, st, x, u.Elem()))}
	}
	bail("composite literal %s", t)
	return nil
}

func (ex *Exec) elt(fr *Frame, st *State, e ast.Expr, t types.Type) Value {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		return ex.composite(fr, st, cl, t)
	}
	return ex.evalAs(fr, st, e, fr.subst(t))
}

func (ex *Exec) sliceOf(st *State, elem types.Type, vals []Value) Value {
	r := ex.allocRef(st)
	cs := comps(elem)
	arrs := make([]*Term, len(cs))
	for j, c := range cs {
		arrs[j] = ConstArr(SArr(c.Sort), zeroTerm(c))
	}
	for i, v := range vals {
		fl := flatten(elem, v)
		for j := range cs {
			arrs[j] = Store(arrs[j], Int(int64(i)), fl[j])
		}
	}
	ex.setElemArrs(st, elem, r, arrs)
	n := Int(int64(len(vals)))
	return VSlice{r, Int(0), n, n}
}

func (ex *Exec) unary(fr *Frame, st *State, x *ast.UnaryExpr) Value {
	switch x.Op {
	case token.AND:
		if cl, ok := x.X.(*ast.CompositeLit); ok {
			t := ex.typeOf(fr, cl)
			return VPtr{ex.newObj(st, t, ex.composite(fr, st, cl, t))}
		}
		return VPtr{ex.place(fr, st, x.X)}
	case token.NOT:
		return VScalar{Not(ex.evalT(fr, st, x.X))}
	case token.ADD:
		return ex.eval(fr, st, x.X)
	case token.SUB:
		t := ex.typeOf(fr, x)
		v := ex.evalT(fr, st, x.X)
		if isFloat(t) {
			return VScalar{App("fneg", SInt, v)}
		}
		k, ok := basicKind(t)
		if !ok {
			bail("negation of %s", t)
		}
		return VScalar{Wrap(Neg(v), k)}
	case token.XOR:
		t := ex.typeOf(fr, x)
		v := ex.evalT(fr, st, x.X)
		k, ok := basicKind(t)
		if !ok {
			bail("complement of %s", t)
		}
		return VScalar{Wrap(Sub(Int(-1), v), k)}
	}
	bail("unary %s", x.Op)
	return nil
}

func sameState(a, b *State) bool {
	if a.alloc != b.alloc || len(a.heap) != len(b.heap) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	for k, v := range b.vars {
		w, ok := a.vars[k]
		if ok && !eqVal(v, w) {
			return false
		}
	}
	for k, v := range a.trace {
		if b.trace[k] != v {
			return false
		}
	}
	return true
}

func (ex *Exec) binary(fr *Frame, st *State, x *ast.BinaryExpr) Value {
	if x.Op == token.LAND || x.Op == token.LOR {
		a := ex.evalT(fr, st, x.X)
		if st.dead() {
			return VScalar{False}
		}
		g := a
		if x.Op == token.LOR {
			g = Not(a)
		}
		if g == False {
			return VScalar{a}
		}
		s2 := st.with(g)
		if s2.dead() {
			return VScalar{a}
		}
		b := ex.evalT(fr, s2, x.Y)
		if s2.dead() {
			st.pc = And(st.pc, Not(g))
			return VScalar{a}
		}
		if !sameState(st, s2) || s2.pc != And(st.pc, g) {
			ng := Not(g)
			if ng == False {
				*st = *s2
			} else {
				m := ex.merge([]*State{s2, st.with(ng)})
				*st = *m
			}
		}
		if x.Op == token.LAND {
			return VScalar{And(a, b)}
		}
		return VScalar{Or(a, b)}
	}
	xt, yt := ex.typeOf(fr, x.X), ex.typeOf(fr, x.Y)
	a := ex.eval(fr, st, x.X)
	b := ex.eval(fr, st, x.Y)
	if st.dead() {
		return ex.deadValue(ex.typeOf(fr, x))
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		r := ex.eqTyped(fr, st, a, xt, b, yt)
		if x.Op == token.NEQ {
			r = Not(r)
		}
		return VScalar{r}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(xt) {
			p, q := ex.asStr(a), ex.asStr(b)
			switch x.Op {
			case token.LSS:
				return VScalar{ex.strLess(st, p, q)}
			case token.GTR:
				return VScalar{ex.strLess(st, q, p)}
			case token.LEQ:
				return VScalar{Not(ex.strLess(st, q, p))}
			case token.GEQ:
				return VScalar{Not(ex.strLess(st, p, q))}
			}
		}
		p, q := scalar(a), scalar(b)
		if isFloat(xt) || isFloat(yt) {
			return VScalar{App("fcmp"+sanitize(x.Op.String())+map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}[x.Op], SBool, p, q)}
		}
		switch x.Op {
		case token.LSS:
			return VScalar{Lt(p, q)}
		case token.LEQ:
			return VScalar{Le(p, q)}
		case token.GTR:
			return VScalar{Gt(p, q)}
		default:
			return VScalar{Ge(p, q)}
		}
	}
	t := ex.typeOf(fr, x)
	return ex.arith(st, x, x.Op, t, a, xt, b, yt)
}

func (ex *Exec) eqTyped(fr *Frame, st *State, a Value, at types.Type, b Value, bt types.Type) *Term {
	_, an := a.(VNil)
	_, bn := b.(VNil)
	if an && bn {
		return True
	}
	if an {
		a, b, at, bt = b, a, bt, at
		an, bn = bn, an
	}
	if bn {
		switch v := a.(type) {
		case VSlice:
			return Eq(v.Ref, Int(0))
		case VFunc:
			return False
		default:
			return Eq(scalar(a), Int(0))
		}
	}
	// mixed interface/concrete comparisons are opaque
	_, ai := at.Underlying().(*types.Interface)
	_, bi_ := bt.Underlying().(*types.Interface)
	if ai != bi_ && !isTypeParam(at) && !isTypeParam(bt) {
		return Sym("ifaceeq", SBool)
	}
	return ex.eqVals(st, at, a, b)
}

func (ex *Exec) eqVals(st *State, t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case VStr:
		return ex.strEq(st, x, ex.asStr(b))
	case VStruct:
		y := b.(VStruct)
		u := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range x.F {
			if u.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, ex.eqVals(st, u.Field(i).Type(), x.F[i], y.F[i]))
		}
		return And(cs...)
	case VArr:
		at := t.Underlying().(*types.Array)
		if at.Len() > 16 {
			bail("array comparison")
		}
		y := b.(VArr)
		var cs []*Term
		for i := int64(0); i < at.Len(); i++ {
			for j := range x.C {
				cs = append(cs, Eq(Select(x.C[j], Int(i)), Select(y.C[j], Int(i))))
			}
		}
		return And(cs...)
	case VPtr:
		y, ok := b.(VPtr)
		if ok {
			if samePlace(x.Pl, y.Pl) {
				return True
			}
			if x.Pl.Kind == PObj && y.Pl.Kind == PObj && len(x.Pl.Path) == 0 && len(y.Pl.Path) == 0 {
				return Eq(x.Pl.Ref, y.Pl.Ref)
			}
		}
		bail("pointer comparison")
	}
	p, q := scalar(a), scalar(b)
	if isFloat(t) {
		return App("feq", SBool, p, q)
	}
	return Eq(p, q)
}

// strEq introduces the truth value of a string comparison with both
// directions of its definition (the negative one with a witness index).
func (ex *Exec) strEq(st *State, a, b VStr) *Term {
	if a == b {
		return True
	}
	le := Eq(a.Len, b.Len)
	if le == False {
		return False
	}
	n := a.Len
	if b.Len.op == OInt {
		n = b.Len
	}
	if n.op == OInt && n.iv.IsInt64() && n.iv.Int64() <= 32 {
		cs := []*Term{le}
		for i := int64(0); i < n.iv.Int64(); i++ {
			cs = append(cs, Eq(ex.byteAt(a, Int(i)), ex.byteAt(b, Int(i))))
		}
		return And(cs...)
	}
	r := Sym("streq", SBool)
	k := BoundVar("k")
	w := SymR("sw", nil, nil)
	ex.assume(st, Imp(r, And(le, Forall([]*Term{k}, Imp(And(Le(Int(0), k), Lt(k, a.Len)), Eq(Select(a.Arr, Add(a.Off, k)), Select(b.Arr, Add(b.Off, k))))))))
	ex.assume(st, Imp(Not(r), Or(Not(le), And(Le(Int(0), w), Lt(w, a.Len), Ne(Select(a.Arr, Add(a.Off, w)), Select(b.Arr, Add(b.Off, w)))))))
	return r
}

// strLess is Go's string order: a < b.
func (ex *Exec) strLess(st *State, a, b VStr) *Term {
	r := Sym("strlt", SBool)
	w := Sym("lw", SInt)
	k := BoundVar("k")
	at := func(s VStr, i *Term) *Term { return Select(s.Arr, Add(s.Off, i)) }
	pre := Forall([]*Term{k}, Imp(And(Le(Int(0), k), Lt(k, w)), Eq(at(a, k), at(b, k))))
	ex.assume(st, And(Le(Int(0), w), Le(w, a.Len), Le(w, b.Len), pre))
	ex.assume(st, Eq(r, Or(And(Eq(w, a.Len), Lt(w, b.Len)), And(Lt(w, a.Len), Lt(w, b.Len), Lt(at(a, w), at(b, w))))))
	ex.assume(st, Imp(Not(r), Or(Eq(w, b.Len), And(Lt(w, a.Len), Lt(w, b.Len), Gt(at(a, w), at(b, w))))))
	return r
}

func (ex *Exec) arith(st *State, n ast.Node, op token.Token, t types.Type, a Value, at types.Type, b Value, bt types.Type) Value {
	if isString(t) {
		if op != token.ADD {
			bail("string op")
		}
		p, q := ex.asStr(a), ex.asStr(b)
		r := ex.freshElems("cat", Comp{"", SInt, "int", intKind{8, false}})
		k := BoundVar("k")
		rd := mk(OSelect, SInt, "", nil, r, k)
		ln := Add(p.Len, q.Len)
		ex.assume(st, Forall([]*Term{k}, And(
			Imp(And(Le(Int(0), k), Lt(k, p.Len)), Eq(rd, Select(p.Arr, Add(p.Off, k)))),
			Imp(And(Le(p.Len, k), Lt(k, ln)), Eq(rd, Select(q.Arr, Add(q.Off, Sub(k, p.Len))))))))
		ex.assume(st, Le(ln, IntB(maxLen)))
		return VStr{r, Int(0), ln}
	}
	p, q := scalar(a), scalar(b)
	if isFloat(t) {
		return VScalar{App("f"+map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[op], SInt, p, q)}
	}
	if isTypeParam(t) {
		bail("arithmetic on a type parameter")
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		bail("boolean %s", op)
	}
	k, ok := basicKind(t)
	if !ok {
		bail("arithmetic on %s", t)
	}
	switch op {
	case token.ADD:
		return VScalar{Wrap(Add(p, q), k)}
	case token.SUB:
		return VScalar{Wrap(Sub(p, q), k)}
	case token.MUL:
		return VScalar{Wrap(Mul(p, q), k)}
	case token.QUO, token.REM:
		ex.mustNot(st, "div-zero", n, Eq(q, Int(0)))
		if st.dead() {
			return VScalar{Int(0)}
		}
		if op == token.QUO {
			return VScalar{Wrap(TruncDiv(p, q), k)}
		}
		return VScalar{Wrap(TruncMod(p, q), k)}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		neg := !nonneg(p) || !nonneg(q)
		if neg {
			if op == token.AND && (p.op == OInt && nonneg(p) || q.op == OInt && nonneg(q)) {
				return VScalar{BitAnd(p, q)}
			}
			m := IntB(pow2(k.bits))
			p, q = Mod(p, m), Mod(q, m)
		}
		var r *Term
		switch op {
		case token.AND:
			r = BitAnd(p, q)
		case token.OR:
			r = BitOr(p, q)
		case token.XOR:
			r = BitXor(p, q)
		default:
			r = Sub(p, BitAnd(p, q))
			if r.lo == nil || r.lo.Sign() < 0 {
				// p &^ q is between 0 and p
				s := r
				r = Ite(Le(Int(0), s), s, Int(0))
				if p.hi != nil {
					r = Ite(Le(s, IntB(p.hi)), r, Int(0))
				}
			}
		}
		return VScalar{Wrap(r, k)}
	case token.SHL, token.SHR:
		if !nonneg(q) {
			ex.mustNot(st, "shift", n, Lt(q, Int(0)))
			if st.dead() {
				return VScalar{Int(0)}
			}
		}
		q2 := q
		if q2.hi == nil || q2.hi.Cmp(bi(64)) > 0 {
			q2 = Ite(Le(q, Int(int64(k.bits))), q, Int(int64(k.bits)))
			q2.lo, q2.hi = bi(0), bi(int64(k.bits))
		}
		var r *Term
		if op == token.SHL {
			r = Shl(p, q2, k.bits)
		} else {
			r = Shr(p, q2, k.bits)
		}
		if r == nil {
			bail("shift by unbounded amount at %s", ex.pos(n))
		}
		return VScalar{Wrap(r, k)}
	}
	bail("operator %s", op)
	return nil
}

func (ex *Exec) convert(st *State, n ast.Node, v Value, from, to types.Type) Value {
	if isTypeParam(to) || isTypeParam(from) {
		if types.Identical(from, to) {
			return v
		}
		bail("conversion of a type parameter")
	}
	if _, ok := v.(VNil); ok {
		return ex.implicit(st, v, from, to)
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		return ex.implicit(st, v, from, to)
	}
	ff, tf := isFloat(from), isFloat(to)
	if k, ok := basicKind(to); ok && !isString(to) {
		if ff {
			x := ex.fresh(st, "f2i", to)
			return x
		}
		return VScalar{Wrap(scalar(v), k)}
	}
	if tf {
		return VScalar{App("tofloat", SInt, scalar(v))}
	}
	if isString(to) {
		if isString(from) {
			return v
		}
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if elemKey(sl.Elem()) == "uint8" {
				s := ex.asSlice(v)
				a := ex.elemArrs(st, sl.Elem(), s.Ref)[0]
				return VStr{a, s.Off, s.Len}
			}
		}
		return ex.fresh(st, "conv", to)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		if elemKey(sl.Elem()) == "uint8" {
			s := ex.asStr(v)
			r := ex.allocRef(st)
			ex.setElemArrs(st, sl.Elem(), r, []*Term{s.Arr})
			c := Sym("scap", SInt)
			ex.rawAssume(And(Le(s.Len, c), Le(Add(s.Off, c), IntB(maxLen))))
			return VSlice{r, s.Off, s.Len, c}
		}
		bail("[]rune conversion")
	}
	return v
}
