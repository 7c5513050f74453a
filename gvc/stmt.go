package main

// Statements and loops.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
)

func itoa(n int) string { return strconv.Itoa(n) }

func (ex *Exec) block(fr *Frame, st *State, list []ast.Stmt) *State {
	for _, s := range list {
		if st == nil || st.dead() {
			return nil
		}
		if c := ex.anchored(fr, s); c != nil {
			st = ex.cutAt(fr, st, s, c)
		}
		st = ex.stmt(fr, st, s)
	}
	return st
}

func (ex *Exec) stmt(fr *Frame, st *State, s ast.Stmt) *State {
	switch x := s.(type) {
	case *ast.ExprStmt:
		ex.eval(fr, st, x.X)
		return st
	case *ast.BlockStmt:
		return ex.block(fr, st, x.List)
	case *ast.EmptyStmt:
		return st
	case *ast.DeclStmt:
		gd, ok := x.Decl.(*ast.GenDecl)
		if !ok {
			bail("declaration")
		}
		if gd.Tok != token.VAR {
			return st
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, id := range vs.Names {
					if o := fr.info.Defs[id]; o != nil {
						st.vars[o] = zeroValueF(fr.subst(o.Type()))
					}
				}
				continue
			}
			var lhs []ast.Expr
			for _, id := range vs.Names {
				lhs = append(lhs, id)
			}
			ex.assign(fr, st, x, lhs, vs.Values)
		}
		return st
	case *ast.AssignStmt:
		if x.Tok == token.ASSIGN || x.Tok == token.DEFINE {
			ex.assign(fr, st, x, x.Lhs, x.Rhs)
			return st
		}
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
		t := ex.typeOf(fr, x.Lhs[0])
		if ex.isMapIndex(fr, x.Lhs[0]) {
			ie := ast.Unparen(x.Lhs[0]).(*ast.IndexExpr)
			m := ex.typeOf(fr, ie.X).Underlying().(*types.Map)
			ref := ex.evalT(fr, st, ie.X)
			k := ex.mapKey(m.Key(), ex.evalAs(fr, st, ie.Index, m.Key()))
			_, cur := ex.mapGet(st, m, ref, k)
			b := ex.eval(fr, st, x.Rhs[0])
			v := ex.arith(st, x, op, t, cur, t, b, ex.typeOf(fr, x.Rhs[0]))
			ex.mapSet(st, x, m, ref, k, v)
			return st
		}
		pl := ex.place(fr, st, x.Lhs[0])
		if st.dead() {
			return st
		}
		a := ex.load(st, pl)
		b := ex.eval(fr, st, x.Rhs[0])
		if st.dead() {
			return st
		}
		v := ex.arith(st, x, op, t, a, t, b, ex.typeOf(fr, x.Rhs[0]))
		ex.storeChk(st, x, pl, v)
		return st
	case *ast.IncDecStmt:
		t := ex.typeOf(fr, x.X)
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		if ex.isMapIndex(fr, x.X) {
			bail("map element increment")
		}
		pl := ex.place(fr, st, x.X)
		if st.dead() {
			return st
		}
		v := ex.arith(st, x, op, t, ex.load(st, pl), t, VScalar{Int(1)}, t)
		ex.storeChk(st, x, pl, v)
		return st
	case *ast.ReturnStmt:
		ex.ret(fr, st, x)
		return nil
	case *ast.IfStmt:
		if x.Init != nil {
			st = ex.stmt(fr, st, x.Init)
			if st == nil || st.dead() {
				return nil
			}
		}
		c := ex.evalT(fr, st, x.Cond)
		if st.dead() {
			return nil
		}
		var a, b *State
		if s1 := st.with(c); !s1.dead() {
			a = ex.block(fr, s1, x.Body.List)
		}
		if s2 := st.with(Not(c)); !s2.dead() {
			if x.Else != nil {
				b = ex.stmt(fr, s2, x.Else)
			} else {
				b = s2
			}
		}
		return ex.merge([]*State{a, b})
	case *ast.SwitchStmt:
		return ex.switchStmt(fr, st, x, "")
	case *ast.ForStmt:
		return ex.forStmt(fr, st, x, "")
	case *ast.RangeStmt:
		return ex.rangeStmt(fr, st, x, "")
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.ForStmt:
			return ex.forStmt(fr, st, y, x.Label.Name)
		case *ast.RangeStmt:
			return ex.rangeStmt(fr, st, y, x.Label.Name)
		case *ast.SwitchStmt:
			return ex.switchStmt(fr, st, y, x.Label.Name)
		}
		return ex.stmt(fr, st, x.Stmt)
	case *ast.BranchStmt:
		lbl := ""
		if x.Label != nil {
			lbl = x.Label.Name
		}
		for i := len(fr.loops) - 1; i >= 0; i-- {
			l := fr.loops[i]
			if x.Tok == token.CONTINUE && l.isSwitch {
				continue
			}
			if lbl != "" && l.label != lbl {
				continue
			}
			switch x.Tok {
			case token.BREAK:
				l.brk = append(l.brk, st)
				return nil
			case token.CONTINUE:
				l.cont = append(l.cont, st)
				return nil
			}
		}
		bail("branch %s", x.Tok)
	}
	bail("statement %T at %s", s, ex.pos(s))
	return nil
}

func (ex *Exec) isMapIndex(fr *Frame, e ast.Expr) bool {
	ie, ok := ast.Unparen(e).(*ast.IndexExpr)
	if !ok {
		return false
	}
	_, ok = ex.typeOf(fr, ie.X).Underlying().(*types.Map)
	return ok
}

func (ex *Exec) ret(fr *Frame, st *State, x *ast.ReturnStmt) {
	res := fr.sig.Results()
	var vs []Value
	switch {
	case len(x.Results) == 0:
		for _, o := range fr.resObj {
			vs = append(vs, st.vars[o])
		}
	case len(x.Results) == 1 && res.Len() > 1:
		t := ex.eval(fr, st, x.Results[0])
		tt := ex.typeOf(fr, x.Results[0]).(*types.Tuple)
		if st.dead() {
			return
		}
		for i, v := range t.(VTuple).F {
			vs = append(vs, ex.implicit(st, v, tt.At(i).Type(), fr.subst(res.At(i).Type())))
		}
	default:
		for i, e := range x.Results {
			vs = append(vs, ex.evalAs(fr, st, e, fr.subst(res.At(i).Type())))
		}
	}
	if st.dead() {
		return
	}
	fr.rets = append(fr.rets, retState{st, vs, ex.seg})
}

func (ex *Exec) storeChk(st *State, n ast.Node, pl *Place, v Value) {
	if st.dead() {
		return
	}
	if pl.Kind == PObj {
		ex.checkWrite(st, n, pl.heapPrefix(), pl.Ref, nil, nil)
	} else if pl.Kind == PElem {
		ex.checkWrite(st, n, pl.heapPrefix(), pl.Ref, pl.Idx, Add(pl.Idx, Int(1)))
	}
	ex.storeNoCheck(st, pl, v)
}

func (ex *Exec) assign(fr *Frame, st *State, n ast.Node, lhs, rhs []ast.Expr) {
	var vals []Value
	var from []types.Type
	if len(rhs) == 1 && len(lhs) > 1 {
		var tv Value
		if ie, ok := ast.Unparen(rhs[0]).(*ast.IndexExpr); ok && ex.isMapIndex(fr, ie) {
			tv = ex.indexExpr(fr, st, ie, true)
			m := ex.typeOf(fr, ie.X).Underlying().(*types.Map)
			from = []types.Type{m.Elem(), types.Typ[types.Bool]}
		} else {
			tv = ex.eval(fr, st, rhs[0])
			tt, ok := ex.typeOf(fr, rhs[0]).(*types.Tuple)
			if !ok {
				bail("assignment from %s", ex.src(rhs[0]))
			}
			for i := 0; i < tt.Len(); i++ {
				from = append(from, tt.At(i).Type())
			}
		}
		if st.dead() {
			return
		}
		vals = tv.(VTuple).F
	} else {
		// left operands (places) are evaluated before the assignment
		for _, r := range rhs {
			vals = append(vals, ex.eval(fr, st, r))
			from = append(from, ex.typeOf(fr, r))
		}
	}
	if st.dead() {
		return
	}
	type target struct {
		pl   *Place
		m    *types.Map
		ref  *Term
		k    *Term
		t    types.Type
		skip bool
	}
	var ts []target
	for _, l := range lhs {
		l = ast.Unparen(l)
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				ts = append(ts, target{skip: true})
				continue
			}
			o := fr.info.Defs[id]
			if o == nil {
				o = fr.info.Uses[id]
			}
			t := fr.subst(o.Type())
			ts = append(ts, target{pl: &Place{Kind: PVar, Obj: o, Root: t}, t: t})
			continue
		}
		if ex.isMapIndex(fr, l) {
			ie := l.(*ast.IndexExpr)
			m := ex.typeOf(fr, ie.X).Underlying().(*types.Map)
			ref := ex.evalT(fr, st, ie.X)
			k := ex.mapKey(m.Key(), ex.evalAs(fr, st, ie.Index, m.Key()))
			ts = append(ts, target{m: m, ref: ref, k: k, t: m.Elem()})
			continue
		}
		ts = append(ts, target{pl: ex.place(fr, st, l), t: ex.typeOf(fr, l)})
	}
	if st.dead() {
		return
	}
	for i, t := range ts {
		if t.skip {
			continue
		}
		v := ex.implicit(st, vals[i], from[i], t.t)
		if t.m != nil {
			ex.mapSet(st, n, t.m, t.ref, t.k, v)
			continue
		}
		if t.pl.Kind == PVar && len(t.pl.Path) == 0 {
			if vr, ok := t.pl.Obj.(*types.Var); ok && vr.Pkg() != nil && vr.Parent() == vr.Pkg().Scope() {
				bail("assignment to package variable %s", vr.Name())
			}
		}
		ex.storeChk(st, n, t.pl, v)
	}
}

func (ex *Exec) switchStmt(fr *Frame, st *State, x *ast.SwitchStmt, label string) *State {
	if x.Init != nil {
		st = ex.stmt(fr, st, x.Init)
		if st == nil || st.dead() {
			return nil
		}
	}
	var tag Value
	var tt types.Type
	if x.Tag != nil {
		tag = ex.eval(fr, st, x.Tag)
		tt = ex.typeOf(fr, x.Tag)
		if st.dead() {
			return nil
		}
	}
	lc := &loopCtx{label: label, isSwitch: true}
	fr.loops = append(fr.loops, lc)
	defer func() { fr.loops = fr.loops[:len(fr.loops)-1] }()
	var outs []*State
	var def *ast.CaseClause
	cur := st
	// (the default clause runs when no case matched, wherever it is written)
	var bodies []struct {
		s *State
		c *ast.CaseClause
	}
	for _, cs := range x.Body.List {
		cc := cs.(*ast.CaseClause)
		for _, s := range cc.Body {
			if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				bail("fallthrough")
			}
		}
		if cc.List == nil {
			def = cc
			continue
		}
		var match *Term = False
		for _, e := range cc.List {
			if cur.dead() {
				break
			}
			var c *Term
			s2 := cur.with(Not(match))
			if s2.dead() {
				break
			}
			if x.Tag == nil {
				c = ex.evalT(fr, s2, e)
			} else {
				v := ex.eval(fr, s2, e)
				c = ex.eqTyped(fr, s2, tag, tt, v, ex.typeOf(fr, e))
			}
			match = Or(match, c)
		}
		if cur.dead() {
			break
		}
		bodies = append(bodies, struct {
			s *State
			c *ast.CaseClause
		}{cur.with(match), cc})
		cur = cur.with(Not(match))
	}
	for _, b := range bodies {
		if !b.s.dead() {
			outs = append(outs, ex.block(fr, b.s, b.c.Body))
		}
	}
	if !cur.dead() {
		if def != nil {
			outs = append(outs, ex.block(fr, cur, def.Body))
		} else {
			outs = append(outs, cur)
		}
	}
	outs = append(outs, lc.brk...)
	return ex.merge(outs)
}

// --- loops ---

type compSet map[int]bool

type loopInfo struct {
	vars    map[types.Object]compSet // components that change
	poison  map[types.Object]bool
	writes  []write
	trace   map[types.Object]bool
	dropped map[string]bool
	alloc   bool
	decIdx  int
}

type snapshot struct {
	nAssume, nObs, nWrites, nWf int
	kind                        map[string]int
	rets                        []int
	loops                       [][][2]int
	seg, nSegs                  int
	cutsDone                    map[*CutSpec]bool
}

func (ex *Exec) snap() *snapshot {
	s := &snapshot{nAssume: len(ex.assumes), nObs: len(ex.obs), nWrites: len(ex.writes), nWf: len(ex.wfLog), kind: map[string]int{}, seg: ex.seg, nSegs: len(ex.segs), cutsDone: map[*CutSpec]bool{}}
	for c := range ex.cutsDone {
		s.cutsDone[c] = true
	}
	for k, v := range ex.kindCnt {
		s.kind[k] = v
	}
	for _, f := range ex.frames {
		s.rets = append(s.rets, len(f.rets))
		var ls [][2]int
		for _, l := range f.loops {
			ls = append(ls, [2]int{len(l.brk), len(l.cont)})
		}
		s.loops = append(s.loops, ls)
	}
	return s
}

func (ex *Exec) restore(s *snapshot) {
	if ex.seg != s.seg {
		ex.useSeg(s.seg)
		ex.wfDone = map[*Term]bool{}
	}
	if ex.segs != nil {
		ex.segs = ex.segs[:s.nSegs]
	}
	ex.cutsDone = map[*CutSpec]bool{}
	for c := range s.cutsDone {
		ex.cutsDone[c] = true
	}
	ex.assumes = ex.assumes[:s.nAssume:s.nAssume]
	ex.obs = ex.obs[:s.nObs:s.nObs]
	ex.writes = ex.writes[:s.nWrites:s.nWrites]
	for _, t := range ex.wfLog[s.nWf:] {
		delete(ex.wfDone, t)
	}
	ex.wfLog = ex.wfLog[:s.nWf]
	ex.kindCnt = map[string]int{}
	for k, v := range s.kind {
		ex.kindCnt[k] = v
	}
	for i, f := range ex.frames {
		f.rets = f.rets[:s.rets[i]:s.rets[i]]
		for j, l := range f.loops {
			l.brk = l.brk[:s.loops[i][j][0]:s.loops[i][j][0]]
			l.cont = l.cont[:s.loops[i][j][1]:s.loops[i][j][1]]
		}
	}
}

type loopDef struct {
	node       ast.Node
	label      string
	pos        token.Pos
	cond       func(st *State) *Term // evaluates the loop condition (may mutate st)
	condE      ast.Expr
	body       func(st *State) *State
	post       func(st *State) *State
	pre        func(st *State)               // establishes derived names at the header (range key)
	auto       []func(entry, h *State) *Term // built-in invariants, true by construction
	names      map[string]func(st *State) SV
	terminates bool
}

func (ex *Exec) loopOrdinal(fr *Frame, n ast.Node) int {
	k := fr.path + "/" + itoa(int(n.Pos()))
	if o, ok := ex.loopIdx[k]; ok {
		return o
	}
	o := len(ex.loopIdx) + 1
	ex.loopIdx[k] = o
	return o
}

func (ex *Exec) forStmt(fr *Frame, st *State, x *ast.ForStmt, label string) *State {
	if x.Init != nil {
		st = ex.stmt(fr, st, x.Init)
		if st == nil || st.dead() {
			return nil
		}
	}
	d := &loopDef{node: x, label: label, pos: x.Body.Lbrace + 1, condE: x.Cond}
	d.cond = func(s *State) *Term {
		if x.Cond == nil {
			return True
		}
		return ex.evalT(fr, s, x.Cond)
	}
	d.body = func(s *State) *State { return ex.block(fr, s, x.Body.List) }
	d.post = func(s *State) *State {
		if x.Post == nil {
			return s
		}
		return ex.stmt(fr, s, x.Post)
	}
	return ex.loop(fr, st, d)
}

func (ex *Exec) rangeStmt(fr *Frame, st *State, x *ast.RangeStmt, label string) *State {
	t := ex.typeOf(fr, x.X)
	setv := func(s *State, e ast.Expr, v Value, vt types.Type) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		if id, ok := e.(*ast.Ident); ok && x.Tok == token.DEFINE {
			s.vars[fr.info.Defs[id]] = v
			return
		}
		pl := ex.place(fr, s, e)
		ex.storeChk(s, x, pl, ex.implicit(s, v, vt, ex.typeOf(fr, e)))
	}
	idx := types.NewVar(x.Pos(), nil, "$i", types.Typ[types.Int])
	d := &loopDef{node: x, label: label, pos: x.Body.Lbrace + 1, terminates: true}
	get := func(s *State) *Term { return scalar(s.vars[idx]) }
	var n *Term
	keyT := types.Type(types.Typ[types.Int])
	var elemAt func(s *State, i *Term) Value
	var elemT types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		sl := ex.asSlice(ex.eval(fr, st, x.X))
		n = sl.Len
		elemT = u.Elem()
		elemAt = func(s *State, i *Term) Value {
			return ex.load(s, &Place{Kind: PElem, Ref: sl.Ref, Idx: Add(sl.Off, i), Key: elemKey(u.Elem()), Root: u.Elem()})
		}
	case *types.Array:
		av := ex.eval(fr, st, x.X)
		n = Int(u.Len())
		elemT = u.Elem()
		elemAt = func(s *State, i *Term) Value {
			_, v := ex.getPath(t, av, []Step{{Idx: i}})
			return v
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		pl := ex.derefPtr(st, x, ex.eval(fr, st, x.X), t)
		n = Int(at.Len())
		elemT = at.Elem()
		elemAt = func(s *State, i *Term) Value { return ex.load(s, pl.index(i)) }
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			n = ex.evalT(fr, st, x.X)
			n = Ite(Le(Int(0), n), n, Int(0))
			keyT = t
			break
		}
		return ex.rangeString(fr, st, x, d, setv)
	case *types.Map:
		return ex.rangeMap(fr, st, x, d, u, setv)
	default:
		bail("range over %s", t)
	}
	if st.dead() {
		return nil
	}
	st.vars[idx] = VScalar{Int(0)}
	d.cond = func(s *State) *Term { return Lt(get(s), n) }
	d.body = func(s *State) *State {
		i := get(s)
		setv(s, x.Key, VScalar{i}, keyT)
		if x.Value != nil {
			if id, ok := x.Value.(*ast.Ident); !ok || id.Name != "_" {
				setv(s, x.Value, elemAt(s, i), elemT)
			}
		}
		return ex.block(fr, s, x.Body.List)
	}
	d.post = func(s *State) *State {
		s.vars[idx] = VScalar{Add(get(s), Int(1))}
		return s
	}
	d.auto = append(d.auto, func(e, h *State) *Term { return And(Le(Int(0), get(h)), Le(get(h), n)) })
	d.names = map[string]func(st *State) SV{"_i": func(s *State) SV { return SV{VScalar{get(s)}, types.Typ[types.Int]} }}
	if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
		d.names[id.Name] = d.names["_i"]
	}
	return ex.loop(fr, st, d)
}

func (ex *Exec) rangeString(fr *Frame, st *State, x *ast.RangeStmt, d *loopDef, setv func(*State, ast.Expr, Value, types.Type)) *State {
	str := ex.asStr(ex.eval(fr, st, x.X))
	if st.dead() {
		return nil
	}
	idx := types.NewVar(x.Pos(), nil, "$i", types.Typ[types.Int])
	wid := types.NewVar(x.Pos(), nil, "$w", types.Typ[types.Int])
	st.vars[idx] = VScalar{Int(0)}
	get := func(s *State) *Term { return scalar(s.vars[idx]) }
	d.cond = func(s *State) *Term { return Lt(get(s), str.Len) }
	d.body = func(s *State) *State {
		i := get(s)
		w := Sym("w", SInt)
		r := ex.fresh(s, "rune", types.Typ[types.Int32]).(VScalar)
		b := ex.byteAt(str, i)
		ex.assume(s, And(Le(Int(1), w), Le(w, Int(4)), Le(Add(i, w), str.Len), Le(Int(0), r.T), Le(r.T, Int(0x10FFFF)),
			Imp(Lt(b, Int(0x80)), And(Eq(w, Int(1)), Eq(r.T, b))), Imp(Ge(b, Int(0x80)), Ge(r.T, Int(0x80)))))
		s.vars[wid] = VScalar{w}
		setv(s, x.Key, VScalar{i}, types.Typ[types.Int])
		setv(s, x.Value, r, types.Typ[types.Int32])
		return ex.block(fr, s, x.Body.List)
	}
	d.post = func(s *State) *State {
		s.vars[idx] = VScalar{Add(get(s), scalar(s.vars[wid]))}
		return s
	}
	st.vars[wid] = VScalar{Int(1)}
	d.auto = append(d.auto, func(e, h *State) *Term { return And(Le(Int(0), get(h)), Le(get(h), str.Len)) })
	d.names = map[string]func(st *State) SV{"_i": func(s *State) SV { return SV{VScalar{get(s)}, types.Typ[types.Int]} }}
	if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
		d.names[id.Name] = d.names["_i"]
	}
	return ex.loop(fr, st, d)
}

// rangeMap visits keys in an unknown order: each iteration sees an arbitrary
// present key (over-approximation: repetitions and early ends are allowed).
func (ex *Exec) rangeMap(fr *Frame, st *State, x *ast.RangeStmt, d *loopDef, u *types.Map, setv func(*State, ast.Expr, Value, types.Type)) *State {
	ref := ex.evalT(fr, st, x.X)
	if st.dead() {
		return nil
	}
	d.cond = func(s *State) *Term { return Sym("more", SBool) }
	d.body = func(s *State) *State {
		kv := ex.fresh(s, "mk", u.Key())
		k := ex.mapKey(u.Key(), kv)
		has, v := ex.mapGet(s, u, ref, k)
		ex.assume(s, has)
		setv(s, x.Key, kv, u.Key())
		if x.Value != nil {
			setv(s, x.Value, v, u.Elem())
		}
		return ex.block(fr, s, x.Body.List)
	}
	d.post = func(s *State) *State { return s }
	return ex.loop(fr, st, d)
}

func (ex *Exec) loop(fr *Frame, st *State, d *loopDef) *State {
	if st.dead() {
		return nil
	}
	ord := ex.loopOrdinal(fr, d.node)
	ex.loopsSeen[ord] = true
	var spec *LoopSpec
	spec = ex.con.Loops[ord]
	if spec == nil || spec.Unroll > 0 {
		max := 40
		if spec != nil {
			max = spec.Unroll
		}
		sn := ex.snap()
		if out, ok := ex.unroll(fr, st.clone(), d, max, spec != nil); ok {
			return out
		}
		ex.restore(sn)
	}
	return ex.loopCut(fr, st, d, ord, spec)
}

// unroll executes the loop completely while its condition is decided.
func (ex *Exec) unroll(fr *Frame, st *State, d *loopDef, max int, forced bool) (*State, bool) {
	lc := &loopCtx{label: d.label}
	fr.loops = append(fr.loops, lc)
	defer func() { fr.loops = fr.loops[:len(fr.loops)-1] }()
	var exits []*State
	cur := st
	for it := 0; ; it++ {
		if cur == nil || cur.dead() {
			break
		}
		if d.pre != nil {
			d.pre(cur)
		}
		c := d.cond(cur)
		if cur.dead() {
			break
		}
		if !forced && c != True && c != False {
			return nil, false
		}
		if c == False {
			exits = append(exits, cur)
			break
		}
		if it >= max {
			if !forced {
				return nil, false
			}
			ex.oblige(cur, "unroll-bound", "", d.node, Not(c))
			exits = append(exits, cur)
			break
		}
		if d.condE == nil && !d.terminates && !forced {
			return nil, false
		}
		if c != True {
			exits = append(exits, cur.with(Not(c)))
			cur = cur.with(c)
		}
		lc.cont = nil
		b := d.body(cur)
		nx := ex.merge(append([]*State{b}, lc.cont...))
		lc.cont = nil
		if nx == nil || nx.dead() {
			break
		}
		cur = d.post(nx)
	}
	exits = append(exits, lc.brk...)
	return ex.merge(exits), true
}

func (ex *Exec) cands(fr *Frame, d *loopDef, li *loopInfo, entry, h *State, mark int) map[string]func(s *State) *Term {
	out := map[string]func(s *State) *Term{}
	for _, o := range sortedVarSet(li.vars) {
		o := o
		v0, ok := entry.vars[o]
		if !ok {
			continue
		}
		id := o.Name() + "@" + itoa(int(o.Pos()))
		switch x := v0.(type) {
		case VScalar:
			if x.T.sort != SInt {
				continue
			}
			if _, ok := basicKind(o.Type()); !ok {
				continue
			}
			t0 := x.T
			out["ge "+id] = func(s *State) *Term { return Ge(scalar(s.vars[o]), t0) }
			out["le "+id] = func(s *State) *Term { return Le(scalar(s.vars[o]), t0) }
		case VSlice:
			cs := li.vars[o]
			if cs[0] {
				a0 := entry.alloc
				r0 := x.Ref
				out["ref "+id] = func(s *State) *Term {
					r := s.vars[o].(VSlice).Ref
					return Or(Eq(r, r0), Ge(r, a0))
				}
			}
			if cs[2] {
				l0 := x.Len
				out["len "+id] = func(s *State) *Term { return Ge(s.vars[o].(VSlice).Len, l0) }
			}
		}
	}
	var rel func(e ast.Expr)
	n := 0
	rel = func(e ast.Expr) {
		b, ok := ast.Unparen(e).(*ast.BinaryExpr)
		if !ok {
			return
		}
		if b.Op == token.LAND {
			rel(b.X)
			rel(b.Y)
			return
		}
		k, isInt := basicKind(ex.typeOf(fr, b.X))
		if !isInt || k.bits == 0 {
			return
		}
		n++
		ev := func(s *State, f func(a, c *Term) *Term) *Term {
			s2 := s.clone()
			sn := ex.snap()
			ex.dry++
			a, c := ex.evalT(fr, s2, b.X), ex.evalT(fr, s2, b.Y)
			ex.dry--
			ex.restore(sn)
			return f(a, c)
		}
		var f func(a, c *Term) *Term
		switch b.Op {
		case token.LSS, token.NEQ:
			f = func(a, c *Term) *Term { return Le(a, c) }
		case token.LEQ:
			f = func(a, c *Term) *Term { return Le(a, Add(c, Int(1))) }
		case token.GTR:
			f = func(a, c *Term) *Term { return Ge(a, c) }
		case token.GEQ:
			f = func(a, c *Term) *Term { return Ge(Add(a, Int(1)), c) }
		default:
			return
		}
		out["cond"+itoa(n)] = func(s *State) *Term { return ev(s, f) }
		if b.Op == token.NEQ {
			out["condn"+itoa(n)] = func(s *State) *Term { return ev(s, func(a, c *Term) *Term { return Ge(a, c) }) }
		}
	}
	if d.condE != nil && ex.pureExpr(fr, d.condE) {
		rel(d.condE)
	}
	for k := range li.dropped {
		delete(out, k)
	}
	return out
}

// pureExpr: no calls except len/cap/conversions.
func (ex *Exec) pureExpr(fr *Frame, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		if c, isCall := n.(*ast.CallExpr); isCall {
			tv := fr.info.Types[c.Fun]
			if !tv.IsType() && !tv.IsBuiltin() {
				ok = false
			}
		}
		if _, isLit := n.(*ast.FuncLit); isLit {
			ok = false
		}
		return ok
	})
	return ok
}

func sortedVarSet(m map[types.Object]compSet) []types.Object {
	v := map[types.Object]Value{}
	for o := range m {
		v[o] = nil
	}
	return sortedObjs(v)
}

func (ex *Exec) loopCut(fr *Frame, st *State, d *loopDef, ord int, spec *LoopSpec) *State {
	key := fr.path + "/" + itoa(int(d.node.Pos()))
	li := ex.loopCache[key]
	if li == nil {
		li = &loopInfo{vars: map[types.Object]compSet{}, poison: map[types.Object]bool{}, trace: map[types.Object]bool{}, dropped: map[string]bool{}}
		ex.loopCache[key] = li
	}
	if spec == nil {
		spec = &LoopSpec{}
	}
	for attempt := 0; ; attempt++ {
		if attempt > 24 {
			bail("loop at %s does not stabilise", ex.pos(d.node))
		}
		sn := ex.snap()
		out, again := ex.loopAttempt(fr, st.clone(), d, ord, spec, li)
		if !again {
			return out
		}
		ex.restore(sn)
	}
}

func flatAny(t types.Type, v Value) ([]*Term, bool) {
	switch x := v.(type) {
	case VPoison, VFunc, VNil, nil:
		return nil, false
	case VPtr:
		if x.Pl.Kind != PObj || len(x.Pl.Path) != 0 {
			return nil, false
		}
	case VStruct:
		for _, f := range x.F {
			if _, ok := flatAny(nil, f); !ok {
				return nil, false
			}
		}
	}
	if t == nil {
		return nil, true
	}
	return flatten(t, v), true
}

func (ex *Exec) loopAttempt(fr *Frame, entry *State, d *loopDef, ord int, spec *LoopSpec, li *loopInfo) (*State, bool) {
	mark := symCount
	h := entry.clone()
	// havoc variables
	for _, o := range sortedVarSet(li.vars) {
		v, ok := h.vars[o]
		if !ok {
			continue
		}
		t := ex.varType(fr, o)
		fl, ok := flatAny(t, v)
		if !ok {
			h.vars[o] = VPoison{"changed in a loop"}
			continue
		}
		nf := append([]*Term{}, fl...)
		cs := comps(t)
		for i := range cs {
			if li.vars[o][i] {
				nf[i] = Sym(o.Name()+cs[i].Path, cs[i].Sort)
				if cs[i].Sort.elem != nil {
					c := cs[i]
					c.Kind = kindOfPath(c.Kind)
					if c.Kind == "sarr" {
						c.Kind = "int"
					}
					c.Sort = c.Sort.elem
					ex.typeArray(nf[i], c, false)
				}
			}
		}
		h.vars[o] = unflatten(t, nf)
	}
	for o := range li.poison {
		if _, ok := h.vars[o]; ok {
			h.vars[o] = VPoison{"changed in a loop"}
		}
	}
	// alloc
	if li.alloc {
		na := Sym("alloc", SInt)
		ex.rawAssume(Le(entry.alloc, na))
		ex.allocSyms[na] = symCount
		h.alloc = na
	}
	for _, o := range sortedVarSet(li.vars) {
		if v, ok := h.vars[o]; ok {
			if fl, ok := flatAny(ex.varType(fr, o), v); ok {
				ex.wellFormed(h, ex.varType(fr, o), fl)
			}
		}
	}
	// heap
	ex.havocHeap(fr, entry, h, li, mark)
	lt := map[types.Object]Value{}
	for o := range li.trace {
		lt[o] = nil
	}
	for _, o := range sortedObjs(lt) {
		ex.havocTrace(h, o)
	}
	var assumed []*Term
	inv := func(s *State, assume bool, what string) {
		if what != "entry" {
			en := ex.loopEnv(fr, s, d)
			if what != "" {
				// the locals of the body are visible at its end
				end := d.pos
				switch x := d.node.(type) {
				case *ast.ForStmt:
					end = x.Body.Rbrace
				case *ast.RangeStmt:
					end = x.Body.Rbrace
				}
				en.local = func(name string) (SV, bool) { return ex.lookupLocal(fr, s, end, name) }
				en.start = ex.loopEnv(fr, h, d)
			}
			if en.start == nil {
				for _, u := range spec.Applies {
					if mentionsStart(u) {
						continue // an instance for the end of the body
					}
					if g := en.tryInst(u); g != nil {
						ex.assume(s, g)
					}
				}
			} else {
				for i, it := range spec.Ends {
					if it.Use != nil {
						if g := en.tryInst(it.Use); g != nil {
							ex.assume(s, g)
						}
						continue
					}
					ex.oblige(s, fmt.Sprintf("loop %d assertion %d", ord, i+1), it.Assert.Src, d.node, en.boolean(it.Assert.E))
				}
			}
			for _, m := range spec.Instances {
				en.try(func() { en.eval(m) })
			}
		}
		for i, cl := range spec.Inv {
			env := ex.loopEnv(fr, s, d)
			g := env.boolean(cl.E)
			if assume {
				ex.assume(s, g)
				assumed = append(assumed, g)
			} else {
				ex.oblige(s, fmt.Sprintf("loop %d invariant %d %s", ord, i+1, what), cl.Src, d.node, g)
			}
		}
	}
	// 1. entry
	{
		e2 := entry.clone()
		if d.pre != nil {
			d.pre(e2)
		}
		inv(e2, false, "entry")
	}
	cands := ex.cands(fr, d, li, entry, h, mark)
	var cnames []string
	for k := range cands {
		cnames = append(cnames, k)
	}
	sort.Strings(cnames)
	// entry check of candidates
	for _, k := range cnames {
		g := cands[k](entry)
		if g != True && !ex.quickProve(entry, g) {
			li.dropped[k] = true
			return nil, true
		}
	}
	if d.pre != nil {
		d.pre(h)
	}
	for _, f := range d.auto {
		g := f(entry, h)
		ex.assume(h, g)
		assumed = append(assumed, g)
	}
	for _, k := range cnames {
		g := cands[k](h)
		ex.assume(h, g)
		assumed = append(assumed, g)
	}
	inv(h, true, "")
	tightenAll(assumed, mark)
	header := h.clone()
	ex.heads = append(ex.heads, header)
	defer func(n int) { ex.heads = ex.heads[:n] }(len(ex.heads) - 1)
	// 2. condition
	c := d.cond(h)
	lc := &loopCtx{label: d.label}
	fr.loops = append(fr.loops, lc)
	pop := func() { fr.loops = fr.loops[:len(fr.loops)-1] }
	nw := len(ex.writes)
	headSeg := ex.seg
	var back, exit *State
	var decs [][]*Term
	if !h.dead() {
		bs := h.with(c)
		exit = h.with(Not(c))
		if !bs.dead() {
			decs = ex.measures(fr, header, d, spec)
			b := d.body(bs)
			back = ex.merge(append([]*State{b}, lc.cont...))
			lc.cont = nil
			if back != nil && !back.dead() {
				back = d.post(back)
			}
		}
	}
	pop()
	// 3. what changed
	again := false
	if back != nil && !back.dead() {
		for o, hv := range header.vars {
			bv, ok := back.vars[o]
			if !ok || eqVal(hv, bv) {
				continue
			}
			t := ex.varType(fr, o)
			fh, ok1 := flatAny(t, hv)
			fb, ok2 := flatAny(t, bv)
			if !ok1 || !ok2 {
				if !li.poison[o] {
					li.poison[o] = true
					again = true
				}
				continue
			}
			cs := li.vars[o]
			for i := range fh {
				if fh[i] != fb[i] && !cs[i] {
					if cs == nil {
						cs = compSet{}
						li.vars[o] = cs
					}
					cs[i] = true
					again = true
				}
			}
		}
		if back.alloc != header.alloc && !li.alloc {
			li.alloc = true
			again = true
		}
		for o, tr := range back.trace {
			if header.trace[o] != tr && !li.trace[o] {
				li.trace[o] = true
				again = true
			}
		}
	}
	for _, w := range ex.writes[nw:] {
		if ex.addWrite(li, w, entry, header, mark) {
			again = true
		}
	}
	if again {
		return nil, true
	}
	if back != nil && !back.dead() {
		for _, k := range cnames {
			g := cands[k](back)
			if g == True {
				continue
			}
			if !ex.quickProve(back, g) {
				li.dropped[k] = true
				return nil, true
			}
		}
		if d.pre != nil {
			d.pre(back)
		}
		inv(back, false, "preserved")
		if ex.dry == 0 {
			ex.checkDec(fr, back, header, d, spec, decs, ord, li)
		}
	}
	// enclosing loops see this loop's writes in terms of its entry state
	var tw []write
	for _, w := range ex.writes[nw:] {
		ls, ok := ex.refLeaves(w.ref, entry, header, mark)
		switch {
		case w.ref == freshMark:
			tw = append(tw, w)
		case w.ref == nil || !ok:
			tw = append(tw, write{w.key, nil, w.c, w.nested})
		case len(ls) == 0:
			tw = append(tw, write{w.key, freshMark, w.c, w.nested})
		default:
			for _, l := range ls {
				tw = append(tw, write{w.key, l, w.c, w.nested})
			}
		}
	}
	ex.writes = append(ex.writes[:nw:nw], tw...)
	out := ex.merge(append([]*State{exit}, lc.brk...))
	if ex.segs != nil && ex.seg != headSeg {
		// only the test of the header leaves the loop: what was known there
		// counts, the cuts of the body do not
		brk := false
		for _, s := range lc.brk {
			brk = brk || !s.dead()
		}
		if !brk {
			ex.useSeg(headSeg)
			ex.wfDone = map[*Term]bool{}
		}
	}
	return out, false
}

func (ex *Exec) varType(fr *Frame, o types.Object) types.Type {
	for f := fr; f != nil; f = f.parent {
		if len(f.targs) > 0 {
			return f.subst(o.Type())
		}
	}
	for _, f := range ex.frames {
		if len(f.targs) > 0 {
			return f.subst(o.Type())
		}
	}
	return o.Type()
}

// addWrite records a heap write of the loop body; it reports new information.
func (ex *Exec) addWrite(li *loopInfo, w write, entry, header *State, mark int) bool {
	leaves, ok := ex.refLeaves(w.ref, entry, header, mark)
	if !ok {
		leaves = []*Term{nil} // unknown reference
	}
	if ok && len(leaves) == 0 {
		leaves = []*Term{freshMark}
	}
	changed := false
	for _, l := range leaves {
		dup := false
		for _, x := range li.writes {
			if x.key == w.key && (x.ref == l || x.ref == nil && l != freshMark) {
				dup = true
			}
		}
		if !dup {
			li.writes = append(li.writes, write{w.key, l, w.c, w.nested})
			changed = true
		}
	}
	return changed
}

var freshMark = mk(OSym, SInt, "fresh-objects", nil)

// refLeaves lists the loop-invariant references a written reference can be,
// leaving out objects allocated since the loop was entered.
func (ex *Exec) refLeaves(r *Term, entry, header *State, mark int) ([]*Term, bool) {
	if r == nil {
		return nil, false
	}
	if r == freshMark {
		return nil, true
	}
	if r.op == OIte {
		a, ok := ex.refLeaves(r.args[1], entry, header, mark)
		if !ok {
			return nil, false
		}
		b, ok := ex.refLeaves(r.args[2], entry, header, mark)
		return append(a, b...), ok
	}
	if r.maxSym <= mark {
		if d := Sub(r, entry.alloc); d.op == OInt && d.iv.Sign() >= 0 {
			return nil, true
		}
		return []*Term{r}, true
	}
	if d := Sub(r, header.alloc); d.op == OInt && d.iv.Sign() >= 0 {
		return nil, true
	}
	if ex.allocSyms[atomBase(r)] > mark {
		return nil, true
	}
	// a havoced slice variable with the "same or fresh" invariant
	for _, o := range sortedObjs(header.vars) {
		v := header.vars[o]
		if s, ok := v.(VSlice); ok && s.Ref == r {
			if e, ok := entry.vars[o].(VSlice); ok {
				ee, ok := ex.refLeaves(e.Ref, entry, entry, mark)
				if ok {
					if li := ex.curLoopDropped(o); !li {
						return ee, true
					}
				}
			}
		}
	}
	return nil, false
}

func atomBase(r *Term) *Term {
	if r.op == OAdd && len(r.args) == 2 && r.args[1].op == OInt && r.args[1].iv.Sign() >= 0 {
		return r.args[0]
	}
	return r
}

func (ex *Exec) curLoopDropped(o types.Object) bool {
	k := "ref " + o.Name() + "@" + itoa(int(o.Pos()))
	for _, li := range ex.loopCache {
		if li.dropped[k] {
			return true
		}
	}
	return false
}

func (ex *Exec) havocHeap(fr *Frame, entry, h *State, li *loopInfo, mark int) {
	type kinfo struct {
		c      Comp
		nested bool
		refs   []*Term
		all    bool
		fresh  bool
	}
	keys := map[string]*kinfo{}
	var order []string
	for _, w := range li.writes {
		k := keys[w.key]
		if k == nil {
			k = &kinfo{c: w.c, nested: w.nested}
			keys[w.key] = k
			order = append(order, w.key)
		}
		switch {
		case w.ref == nil:
			k.all = true
		case w.ref == freshMark:
			k.fresh = true
		default:
			if w.ref.maxSym > mark {
				k.all = true // stale reference of an earlier context
			} else {
				k.refs = append(k.refs, w.ref)
			}
		}
	}
	for _, key := range order {
		k := keys[key]
		old := ex.heapGet(h, key, k.c, k.nested)
		fresh := func() *Term {
			if k.nested {
				return ex.freshElems("hv", k.c)
			}
			t := Sym("hv", k.c.Sort)
			ex.typeScalar(t, k.c, h)
			if k.c.Sort.elem != nil {
				cc := k.c
				cc.Kind = kindOfPath(cc.Kind)
				if cc.Kind == "sarr" {
					cc.Kind = "int"
				}
				cc.Sort = cc.Sort.elem
				ex.typeArray(t, cc, false)
			}
			return t
		}
		if !k.all && !k.fresh {
			nh := old
			for _, r := range k.refs {
				nh = Store(nh, r, fresh())
			}
			h.heap[key] = nh
			ex.entryFrame(h, key, k.c, k.nested, k.refs)
			continue
		}
		nh := Sym("H_"+key, old.sort)
		ex.typeArray(nh, k.c, k.nested)
		h.heap[key] = nh
		if !k.all {
			r := BoundVar("r")
			cs := []*Term{Le(entry.alloc, r)}
			for _, x := range k.refs {
				cs = append(cs, Eq(r, x))
			}
			rd := mk(OSelect, old.sort.elem, "", nil, nh, r)
			ex.rawAssume(Forall([]*Term{r}, Or(append(cs, Eq(rd, Select(old, r)))...)))
			ex.entryFrame(h, key, k.c, k.nested, k.refs)
			continue
		}
		// only the function's frame condition limits the change
		r := BoundVar("r")
		cs := []*Term{Le(ex.alloc0, r)}
		var refs []*Term
		for _, m := range ex.frameMods {
			if m.prefix != "" && m.matches(key) {
				cs = append(cs, Eq(r, m.ref))
				refs = append(refs, m.ref)
			}
		}
		h0 := ex.heap0[key]
		rd := mk(OSelect, old.sort.elem, "", nil, nh, r)
		ex.rawAssume(Forall([]*Term{r}, Or(append(cs, Eq(rd, Select(h0, r)))...)))
		ex.entryFrame(h, key, k.c, k.nested, refs)
	}
}

func (ex *Exec) typeScalar(t *Term, c Comp, st *State) {
	if c.Sort != SInt {
		return
	}
	switch c.Kind {
	case "int":
		lo, hi := c.IK.rng()
		ex.rangeFact(t, lo, hi)
	case "len", "cap", "off", "slen", "soff":
		ex.rangeFact(t, bi(0), maxLen)
	case "ref":
		ex.rangeFact(t, bi(0), nil)
		ex.rawAssume(Lt(t, st.alloc))
	}
}

// entryFrame: for references whose permission is a range of elements, the
// elements outside it still hold their entry values.
func (ex *Exec) entryFrame(h *State, key string, c Comp, nested bool, refs []*Term) {
	if !nested {
		return
	}
	h0 := ex.heap0[key]
	if h0 == nil {
		return
	}
	cur := h.heap[key]
	for _, r := range refs {
		if r.maxSym > ex.entryMark {
			continue
		}
		k := BoundVar("k")
		whole := false
		cs := []*Term{}
		for _, m := range ex.frameMods {
			if m.prefix == "" || !m.matches(key) {
				continue
			}
			if m.lo == nil {
				if m.ref == r {
					whole = true
				}
				cs = append(cs, Eq(m.ref, r))
				continue
			}
			cs = append(cs, And(Eq(m.ref, r), Le(m.lo, k), Lt(k, m.hi)))
		}
		if whole {
			continue
		}
		a := Select(cur, r)
		rd := mk(OSelect, c.Sort, "", nil, a, k)
		ex.rawAssume(Imp(Lt(r, ex.alloc0), Forall([]*Term{k}, Or(append(cs, Eq(rd, Select(Select(h0, r), k)))...))))
	}
}

func (ex *Exec) havocTrace(h *State, o types.Object) {
	tr := h.trace[o]
	n := &Trace{Types: tr.Types, RetT: tr.RetT}
	n.Count = Sym("calls", SInt)
	ex.rawAssume(Le(tr.Count, n.Count))
	keep := func(old *Term, c Comp) *Term {
		var f *Term
		if c.Sort.elem != nil {
			f = Sym("tr", SArr(c.Sort))
		} else {
			f = ex.freshElems("tr", c)
		}
		k := BoundVar("k")
		rd := mk(OSelect, c.Sort, "", nil, f, k)
		ex.rawAssume(Forall([]*Term{k}, Or(Lt(k, Int(0)), Le(tr.Count, k), Eq(rd, Select(old, k)))))
		return f
	}
	for i := range tr.Args {
		var cs []*Term
		for j, c := range comps(tr.Types[i]) {
			cs = append(cs, keep(tr.Args[i][j], c))
		}
		n.Args = append(n.Args, cs)
	}
	if tr.RetT != nil {
		for j, c := range comps(tr.RetT) {
			n.Rets = append(n.Rets, keep(tr.Rets[j], c))
		}
	}
	h.trace[o] = n
}

// measures evaluates the termination measures at the loop head.
func (ex *Exec) measures(fr *Frame, header *State, d *loopDef, spec *LoopSpec) [][]*Term {
	if d.terminates || spec.NoDec {
		return nil
	}
	return ex.measureAt(fr, header, d, spec)
}

func (ex *Exec) measureAt(fr *Frame, s *State, d *loopDef, spec *LoopSpec) [][]*Term {
	if len(spec.Dec) > 0 {
		var ts []*Term
		for _, e := range spec.Dec {
			ts = append(ts, ex.loopEnv(fr, s, d).integer(e))
		}
		return [][]*Term{ts}
	}
	var out [][]*Term
	var rel func(e ast.Expr)
	rel = func(e ast.Expr) {
		b, ok := ast.Unparen(e).(*ast.BinaryExpr)
		if !ok {
			return
		}
		if b.Op == token.LAND {
			rel(b.X)
			rel(b.Y)
			return
		}
		k, isInt := basicKind(ex.typeOf(fr, b.X))
		if !isInt || k.bits == 0 {
			return
		}
		s2 := s.clone()
		sn := ex.snap()
		ex.dry++
		a, c := ex.evalT(fr, s2, b.X), ex.evalT(fr, s2, b.Y)
		ex.dry--
		ex.restore(sn)
		switch b.Op {
		case token.LSS:
			out = append(out, []*Term{Sub(c, a)})
		case token.LEQ:
			out = append(out, []*Term{Add(Sub(c, a), Int(1))})
		case token.GTR:
			out = append(out, []*Term{Sub(a, c)})
		case token.GEQ:
			out = append(out, []*Term{Add(Sub(a, c), Int(1))})
		case token.NEQ:
			out = append(out, []*Term{Sub(c, a)}, []*Term{Sub(a, c)})
		}
	}
	if d.condE != nil && ex.pureExpr(fr, d.condE) {
		rel(d.condE)
	}
	return out
}

func (ex *Exec) checkDec(fr *Frame, back, header *State, d *loopDef, spec *LoopSpec, decs [][]*Term, ord int, li *loopInfo) {
	if d.terminates {
		return
	}
	if spec.NoDec {
		ex.noTerm = append(ex.noTerm, fmt.Sprintf("%s loop %d", ex.con.Key, ord))
		return
	}
	now := ex.measureAt(fr, back, d, spec)
	var goals []*Term
	for i := range decs {
		if i >= len(now) {
			break
		}
		goal := False
		eqs := True
		for j := range decs[i] {
			goal = Or(goal, And(eqs, Lt(now[i][j], decs[i][j]), Le(Int(0), decs[i][j])))
			eqs = And(eqs, Eq(now[i][j], decs[i][j]))
		}
		goals = append(goals, goal)
	}
	if len(goals) == 0 {
		ex.oblige(back, fmt.Sprintf("loop %d termination", ord), "no measure", d.node, False)
		return
	}
	best := goals[0]
	if len(goals) > 1 {
		for _, g := range goals {
			if ex.quickProve(back, g) {
				best = g
				break
			}
		}
	}
	ex.oblige(back, fmt.Sprintf("loop %d termination", ord), spec.DecSrc, d.node, best)
}

// mentionsStart: the expression names the state at the start of an iteration.
func mentionsStart(e *SExpr) bool {
	if e == nil {
		return false
	}
	if e.Kind == "call" && e.S == "start" {
		return true
	}
	for _, a := range e.A {
		if mentionsStart(a) {
			return true
		}
	}
	return false
}
