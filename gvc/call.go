package main

// Calls: builtins, inlining, contracts, models of standard functions.

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

const maxInlineDepth = 14

func (ex *Exec) call(fr *Frame, st *State, x *ast.CallExpr) Value {
	tvf := fr.info.Types[x.Fun]
	if tvf.IsType() {
		to := fr.subst(tvf.Type)
		from := ex.typeOf(fr, x.Args[0])
		v := ex.eval(fr, st, x.Args[0])
		return ex.convert(st, x, v, from, to)
	}
	if tvf.IsBuiltin() {
		return ex.builtin(fr, st, x)
	}
	fun := ast.Unparen(x.Fun)
	if ie, ok := fun.(*ast.IndexExpr); ok {
		if _, ok := ex.typeOf(fr, ie.X).(*types.Signature); ok {
			fun = ast.Unparen(ie.X)
		}
	}
	sig, _ := ex.typeOf(fr, x.Fun).Underlying().(*types.Signature)
	// static callee
	var obj *types.Func
	var recv Value
	hasRecv := false
	var targs map[*types.TypeParam]types.Type
	switch f := fun.(type) {
	case *ast.Ident:
		if o, ok := fr.info.Uses[f].(*types.Func); ok {
			obj = o
			targs = ex.instTargs(fr, f, o)
		}
	case *ast.SelectorExpr:
		if sel, ok := fr.info.Selections[f]; ok {
			if sel.Kind() == types.MethodVal {
				obj = sel.Obj().(*types.Func)
				if ex.prog.Decls[obj.Origin()] != nil {
					recv = ex.receiver(fr, st, f, sel)
					hasRecv = true
					targs = ex.recvTargs(fr, f, sel)
				} else {
					return ex.extMethod(fr, st, x, f, sel, sig)
				}
			}
		} else if o, ok := fr.info.Uses[f.Sel].(*types.Func); ok {
			obj = o
			targs = ex.instTargs(fr, f.Sel, o)
		}
	}
	if obj == nil {
		fv := ex.eval(fr, st, x.Fun)
		args := ex.evalArgs(fr, st, x, sig)
		if st.dead() {
			return ex.deadResult(sig)
		}
		switch f := fv.(type) {
		case VFunc:
			return ex.callFunc(fr, st, x, f, args, sig)
		case VScalar:
			ex.mustNot(st, "nil-func", x, Eq(f.T, Int(0)))
			bail("call of an unknown function value %s", ex.src(x))
		}
		bail("call of %T at %s", fv, ex.pos(x))
	}
	fi := ex.prog.Decls[obj.Origin()]
	if fi == nil {
		return ex.extFunc(fr, st, x, obj, sig)
	}
	args := ex.evalArgs(fr, st, x, sig)
	if st.dead() {
		return ex.deadResult(sig)
	}
	if hasRecv {
		args = append([]Value{recv}, args...)
	}
	return ex.callDecl(fr, st, x, fi, args, targs, sig)
}

func (ex *Exec) deadResult(sig *types.Signature) Value {
	if sig == nil || sig.Results().Len() == 0 {
		return VTuple{}
	}
	if sig.Results().Len() == 1 {
		return ex.deadValue(sig.Results().At(0).Type())
	}
	var vs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, ex.deadValue(sig.Results().At(i).Type()))
	}
	return VTuple{vs}
}

// evalArgs evaluates the arguments (packing variadics), converted to the
// parameter types.
func (ex *Exec) evalArgs(fr *Frame, st *State, x *ast.CallExpr, sig *types.Signature) []Value {
	np := sig.Params().Len()
	var args []Value
	if len(x.Args) == 1 && np > 1 {
		// f(g())
		tv := ex.eval(fr, st, x.Args[0])
		if t, ok := tv.(VTuple); ok {
			tt := ex.typeOf(fr, x.Args[0]).(*types.Tuple)
			for i, v := range t.F {
				args = append(args, ex.implicit(st, v, tt.At(i).Type(), sig.Params().At(i).Type()))
			}
			return args
		}
		args = append(args, ex.implicit(st, tv, ex.typeOf(fr, x.Args[0]), sig.Params().At(0).Type()))
		if sig.Variadic() && np == 2 {
			args = append(args, zeroValue(sig.Params().At(1).Type()))
		}
		return args
	}
	for i := 0; i < np; i++ {
		pt := sig.Params().At(i).Type()
		if sig.Variadic() && i == np-1 {
			if x.Ellipsis != token.NoPos {
				args = append(args, ex.evalAs(fr, st, x.Args[i], pt))
				break
			}
			et := pt.(*types.Slice).Elem()
			if len(x.Args) <= i {
				args = append(args, zeroValue(pt))
				break
			}
			var vals []Value
			for _, a := range x.Args[i:] {
				vals = append(vals, ex.evalAs(fr, st, a, et))
			}
			args = append(args, ex.sliceOf(st, et, vals))
			break
		}
		args = append(args, ex.evalAs(fr, st, x.Args[i], pt))
	}
	return args
}

func (ex *Exec) callFunc(fr *Frame, st *State, x *ast.CallExpr, f VFunc, args []Value, sig *types.Signature) Value {
	if f.Lit != nil {
		return ex.inlineLit(fr, st, x, f, args)
	}
	if f.Decl != nil {
		if f.HasRecv {
			args = append([]Value{f.Recv}, args...)
		}
		return ex.callDecl(fr, st, x, f.Decl, args, f.Targs, sig)
	}
	if f.Param != nil {
		return ex.callback(st, x, f.Param, args, sig)
	}
	bail("call of function value")
	return nil
}

// callback records a call of a function-typed parameter in its ghost trace.
func (ex *Exec) callback(st *State, x ast.Node, o types.Object, args []Value, sig *types.Signature) Value {
	tr := st.trace[o]
	if tr == nil {
		bail("no trace for %s", o.Name())
	}
	n := &Trace{Count: Add(tr.Count, Int(1)), Types: tr.Types, RetT: tr.RetT}
	for i, a := range args {
		if v, ok := a.(VStr); ok {
			a = ex.flatStr(v)
		}
		fl := flatten(tr.Types[i], a)
		var cs []*Term
		for j := range fl {
			cs = append(cs, Store(tr.Args[i][j], tr.Count, fl[j]))
		}
		n.Args = append(n.Args, cs)
	}
	n.Rets = tr.Rets
	st.trace[o] = n
	ex.traceUsed[o] = true
	ex.notes["callback arguments do not modify the memory the function reads, and return"] = true
	if sig.Results().Len() == 0 {
		return VTuple{}
	}
	if sig.Results().Len() == 1 {
		v := ex.fresh(st, "cb", sig.Results().At(0).Type())
		fl := flatten(sig.Results().At(0).Type(), v)
		n.Rets = nil
		for j := range fl {
			n.Rets = append(n.Rets, Store(tr.Rets[j], tr.Count, fl[j]))
		}
		return v
	}
	// several results: arbitrary values, not recorded in the trace
	var t VTuple
	for i := 0; i < sig.Results().Len(); i++ {
		t.F = append(t.F, ex.fresh(st, "cb", sig.Results().At(i).Type()))
	}
	return t
}

// flatStr gives the string a backing array that starts at its first byte.
func (ex *Exec) flatStr(v VStr) VStr {
	if v.Off == Int(0) {
		return v
	}
	f := ex.freshElems("str", comps(types.Typ[types.Uint8])[0])
	k := BoundVar("k")
	rd := mk(OSelect, SInt, "", nil, f, k)
	ex.rawAssume(Forall([]*Term{k}, Or(Lt(k, Int(0)), Le(v.Len, k), Eq(rd, Select(v.Arr, Add(v.Off, k))))))
	return VStr{f, Int(0), v.Len}
}

func (ex *Exec) callDecl(fr *Frame, st *State, x *ast.CallExpr, fi *FuncInfo, args []Value, targs map[*types.TypeParam]types.Type, sig *types.Signature) Value {
	con := ex.db.Funcs[fi.Key]
	hasFn := false
	for _, a := range args {
		if _, ok := a.(VFunc); ok {
			hasFn = true
		}
	}
	if con != nil && !ex.con.Inline[fi.Key] && !ex.con.Inline["*"] && !con.AlwaysInline && (!hasFn || con.Trusted) {
		return ex.callContract(fr, st, x, con, fi, args, targs)
	}
	return ex.inlineDecl(fr, st, x, fi, args, targs)
}

func (ex *Exec) inlineDecl(fr *Frame, st *State, x ast.Node, fi *FuncInfo, args []Value, targs map[*types.TypeParam]types.Type) Value {
	for _, k := range ex.stack {
		if k == fi.Key {
			bail("recursive call of %s without a contract", fi.Key)
		}
	}
	if len(ex.stack) > maxInlineDepth {
		bail("inlining too deep at %s", fi.Key)
	}
	ex.inlined[fi.Key] = true
	ex.stack = append(ex.stack, fi.Key)
	defer func() { ex.stack = ex.stack[:len(ex.stack)-1] }()
	sig := fi.Obj.Type().(*types.Signature)
	nf := &Frame{fi: fi, info: fi.Pkg.Info, targs: targs, sig: sig, depth: fr.depth + 1, path: fr.path + ">" + fi.Key + "@" + ex.siteID(fr, x)}
	i := 0
	bind := func(v *types.Var) {
		if v.Name() != "" && v.Name() != "_" {
			st.vars[v] = args[i]
		}
		i++
	}
	if sig.Recv() != nil {
		bind(sig.Recv())
	}
	for j := 0; j < sig.Params().Len(); j++ {
		bind(sig.Params().At(j))
	}
	return ex.runBody(nf, st, fi.Decl.Body, fi.Decl)
}

func (ex *Exec) inlineLit(fr *Frame, st *State, x *ast.CallExpr, f VFunc, args []Value) Value {
	if len(ex.stack) > maxInlineDepth {
		bail("inlining too deep (closure)")
	}
	key := "lit@" + ex.pos(f.Lit)
	for _, k := range ex.stack {
		if k == key {
			bail("recursive closure")
		}
	}
	ex.stack = append(ex.stack, key)
	defer func() { ex.stack = ex.stack[:len(ex.stack)-1] }()
	df := f.Frame
	sig := df.info.TypeOf(f.Lit).(*types.Signature)
	nf := &Frame{fi: df.fi, info: df.info, parent: df, targs: df.targs, sig: sig, depth: fr.depth + 1, lit: true, path: fr.path + ">" + key + "@" + ex.siteID(fr, x)}
	for j := 0; j < sig.Params().Len(); j++ {
		v := sig.Params().At(j)
		if v.Name() != "" && v.Name() != "_" {
			st.vars[v] = args[j]
		}
	}
	return ex.runBody(nf, st, f.Lit.Body, nil)
}

func (ex *Exec) siteID(fr *Frame, n ast.Node) string { return itoa(int(n.Pos())) }

// runBody executes a function body in st and merges its return states.
func (ex *Exec) runBody(nf *Frame, st *State, body *ast.BlockStmt, decl *ast.FuncDecl) Value {
	res := nf.sig.Results()
	ex.frames = append(ex.frames, nf)
	defer func() { ex.frames = ex.frames[:len(ex.frames)-1] }()
	for j := 0; j < res.Len(); j++ {
		v := res.At(j)
		nf.resObj = append(nf.resObj, v)
		if v.Name() != "" {
			st.vars[v] = zeroValueF(nf.subst(v.Type()))
		}
	}
	out := ex.block(nf, st.clone(), body.List)
	if out != nil && !out.dead() {
		var vs []Value
		if res.Len() > 0 && res.At(0).Name() != "" {
			for _, o := range nf.resObj {
				vs = append(vs, out.vars[o])
			}
		} else if res.Len() > 0 {
			// end of body without return is unreachable (for {} / panic)
			out.pc = False
		}
		nf.rets = append(nf.rets, retState{out, vs, ex.seg})
	}
	var live []retState
	for _, r := range nf.rets {
		if !r.st.dead() {
			live = append(live, r)
		}
	}
	if len(live) == 0 {
		st.pc = False
		return ex.deadResult(ex.substSig(nf, nf.sig))
	}
	cur := live[0].st
	vals := append([]Value{}, live[0].res...)
	for _, r := range live[1:] {
		c := distinguish(cur.pc, r.st.pc)
		for j := range vals {
			vals[j] = ex.mergeVal(c, nf.subst(res.At(j).Type()), vals[j], r.res[j])
		}
		cur = ex.merge2(cur, r.st)
	}
	*st = *cur
	if res.Len() == 0 {
		return VTuple{}
	}
	if res.Len() == 1 {
		return vals[0]
	}
	return VTuple{vals}
}

func (ex *Exec) substSig(fr *Frame, sig *types.Signature) *types.Signature {
	r := substType(sig.Results(), fr.targs).(*types.Tuple)
	return types.NewSignatureType(nil, nil, nil, nil, r, false)
}

func zeroValueF(t types.Type) Value {
	if _, ok := t.Underlying().(*types.Signature); ok {
		return VScalar{Int(0)}
	}
	return zeroValue(t)
}

// --- contract calls ---

func (ex *Exec) callContract(fr *Frame, st *State, x ast.Node, con *Contract, fi *FuncInfo, args []Value, targs map[*types.TypeParam]types.Type) Value {
	sig := fi.Obj.Type().(*types.Signature)
	if con.Trusted {
		ex.trusted[con.Key] = con.Why
	} else {
		ex.used[con.Key] = true
	}
	if len(con.Params) != len(args) {
		bail("contract of %s names %d parameters, the function has %d", con.Key, len(con.Params), len(args))
	}
	var pts []types.Type
	if sig.Recv() != nil {
		pts = append(pts, substType(sig.Recv().Type(), targs))
	}
	for j := 0; j < sig.Params().Len(); j++ {
		pts = append(pts, substType(sig.Params().At(j).Type(), targs))
	}
	pre := st.clone()
	mark := symCount
	env := &senv{ex: ex, st: pre, old: pre, names: map[string]SV{}, pkg: fi.Pkg}
	for i, n := range con.Params {
		env.names[n] = SV{args[i], pts[i]}
	}
	env.oldNames = env.names
	ex.bindLets(env, con)
	bv := env.logicals(con)
	if sig.Recv() != nil {
		if p, ok := args[0].(VPtr); ok && !con.NilOK[con.Params[0]] {
			if p.Pl.Kind == PObj && len(p.Pl.Path) == 0 {
				ex.mustNot(st, "nil-deref", x, Eq(p.Pl.Ref, Int(0)))
			}
		}
	}
	if len(con.Rec) > 0 && con.Key == ex.con.Key {
		ex.recMeasure(st, x, con, env)
	} else if con.Key == ex.con.Key && !con.Trusted {
		bail("recursive function %s without a measure", con.Key)
	}
	for _, r := range con.Requires {
		g := ground(env.boolean(r.E))
		ex.oblige(st, "pre "+con.Key, r.Src, x, g)
	}
	if con.Panics != nil {
		ex.mustNot(st, "panic in "+con.Key, x, ground(env.boolean(con.Panics.E)))
	}
	if con.MayPanic != nil {
		ex.mustNot(st, "panic in "+con.Key, x, ground(env.boolean(con.MayPanic.E)))
	}
	if st.dead() {
		return ex.deadResult(substType2(sig, targs))
	}
	// effects
	// (what a call stores into modified fields may be allocated by it)
	na := Sym("alloc", SInt)
	ex.rawAssume(Le(st.alloc, na))
	ex.allocSyms[na] = symCount
	st.alloc = na
	mods := ex.evalMods(env, con)
	for _, m := range mods {
		ex.havocMod(st, x, m)
	}
	// results
	var vals []Value
	res := sig.Results()
	env2 := &senv{ex: ex, st: st, old: pre, names: map[string]SV{}, oldNames: env.names, pkg: fi.Pkg}
	ex.bindLets(env2, con)
	for k, v := range env.names {
		env2.names[k] = v
	}
	for j := 0; j < res.Len(); j++ {
		t := substType(res.At(j).Type(), targs)
		n := "result"
		if j < len(con.Results) {
			n = con.Results[j]
		}
		v := ex.fresh(st, n, t)
		vals = append(vals, v)
		env2.names[n] = SV{v, t}
	}
	env2.freshFrom = pre.alloc
	var assumed []*Term
	for _, e := range con.Ensures {
		g := ex.forAllOf(env2.boolean(e.E), bv, con.Logical)
		ex.assume(st, g)
		assumed = append(assumed, g)
	}
	tightenAll(assumed, mark)
	ex.noteFresh(assumed, mark)
	if res.Len() == 0 {
		return VTuple{}
	}
	if res.Len() == 1 {
		return vals[0]
	}
	return VTuple{vals}
}

func substType2(sig *types.Signature, targs map[*types.TypeParam]types.Type) *types.Signature {
	r := substType(sig.Results(), targs).(*types.Tuple)
	return types.NewSignatureType(nil, nil, nil, nil, r, false)
}

func (ex *Exec) recMeasure(st *State, x ast.Node, con *Contract, env *senv) {
	var goal *Term = False
	eqs := True
	eenv := ex.entryEnv
	for _, d := range con.Rec {
		cur := env.integer(d)
		ent := eenv.integer(d)
		goal = Or(goal, And(eqs, Lt(cur, ent), Le(Int(0), ent)))
		eqs = And(eqs, Eq(cur, ent))
	}
	ex.oblige(st, "termination "+con.Key, "", x, goal)
}

// modItem is a memory region a contract allows to change.
type modItem struct {
	prefix string // heap key prefix
	exact  bool   // exact component or "."-continuation only
	ref    *Term
	lo, hi *Term // element range (absolute) or nil
	pl     *Place
	t      types.Type
	src    string
	isMap  *types.Map
	elem   types.Type
	cond   *Term
}

func (m modItem) matches(key string) bool {
	if !strings.HasPrefix(key, m.prefix) {
		return false
	}
	rest := key[len(m.prefix):]
	return rest == "" || rest[0] == '.' || strings.HasSuffix(m.prefix, "|")
}

func (ex *Exec) evalMods(env *senv, con *Contract) []modItem {
	var out []modItem
	for i, e := range con.Modifies {
		out = append(out, ex.evalMod(env, e, con.ModSrc[i])...)
	}
	return out
}

func (ex *Exec) evalMod(env *senv, e *SExpr, src string) []modItem {
	if e.Kind == "call" && e.S == "elems" {
		sv := env.eval(e.A[0])
		if m, ok := sv.T.Underlying().(*types.Map); ok {
			return []modItem{{prefix: mapPrefix(m), ref: scalar(sv.V), src: src, isMap: m}}
		}
		s := ex.asSlice(sv.V)
		el := sv.T.Underlying().(*types.Slice).Elem()
		it := modItem{prefix: "E|" + elemKey(el) + "|", ref: s.Ref, src: src, elem: el}
		if len(e.A) == 3 {
			it.lo = Add(s.Off, env.integer(e.A[1]))
			it.hi = Add(s.Off, env.integer(e.A[2]))
		} else {
			it.lo = s.Off
			it.hi = Add(s.Off, s.Cap)
		}
		return []modItem{it}
	}
	pl, t := env.place(e)
	return []modItem{ex.placeMod(pl, t, src)}
}

func (ex *Exec) placeMod(pl *Place, t types.Type, src string) modItem {
	it := modItem{src: src, pl: pl, t: t, ref: pl.Ref}
	if pl.Kind != PVar {
		it.prefix = strings.TrimSuffix(pl.heapPrefix(), "")
		for _, p := range pl.Path {
			if p.Idx != nil {
				bail("modifies through an array index")
			}
		}
		if pl.Kind == PElem {
			it.lo, it.hi = pl.Idx, Add(pl.Idx, Int(1))
		}
	}
	return it
}

// havocMod makes the region arbitrary (within its types), after checking the
// caller may change it.
func (ex *Exec) havocMod(st *State, n ast.Node, m modItem) {
	if m.pl != nil {
		if m.pl.Kind != PVar {
			ex.checkWrite(st, n, m.prefix, m.ref, m.lo, m.hi)
		}
		v := ex.fresh(st, "hv", m.t)
		ex.storeNoCheck(st, m.pl, v)
		return
	}
	if m.isMap != nil {
		u := m.isMap
		ex.checkWrite(st, n, m.prefix, m.ref, nil, nil)
		cs := []Comp{{"", SBool, "bool", intKind{}}}
		keys := []string{m.prefix + "has"}
		for _, c := range comps(u.Elem()) {
			cs = append(cs, c)
			keys = append(keys, m.prefix+"v"+c.Path)
		}
		for i, c := range cs {
			h := ex.heapGet(st, keys[i], c, true)
			ex.writes = append(ex.writes, write{keys[i], m.ref, c, true})
			st.heap[keys[i]] = Store(h, m.ref, ex.freshElems("hvm", c))
		}
		lc := Comp{"", SInt, "len", intKind{}}
		h := ex.heapGet(st, m.prefix+"len", lc, false)
		ex.writes = append(ex.writes, write{m.prefix + "len", m.ref, lc, false})
		l := SymR("maplen", bi(0), maxLen)
		ex.facts = append(ex.facts, And(mk(OLe, SBool, "", nil, Int(0), l), mk(OLe, SBool, "", nil, l, IntB(maxLen))))
		st.heap[m.prefix+"len"] = Store(h, m.ref, l)
		return
	}
	ex.checkWrite(st, n, m.prefix, m.ref, m.lo, m.hi)
	for _, c := range comps(m.elem) {
		key := m.prefix + c.Path
		h := ex.heapGet(st, key, c, true)
		a := Select(h, m.ref)
		f := ex.freshElems("hve", c)
		k := BoundVar("k")
		rd := mk(OSelect, c.Sort, "", nil, f, k)
		ex.assume(st, Forall([]*Term{k}, Or(And(Le(m.lo, k), Lt(k, m.hi)), Eq(rd, Select(a, k)))))
		ex.writes = append(ex.writes, write{key, m.ref, c, true})
		st.heap[key] = Store(h, m.ref, f)
	}
}

// checkWrite demands that a write stays within the contract's frame.
func (ex *Exec) checkWrite(st *State, n ast.Node, key string, ref, lo, hi *Term) {
	if ex.dry > 0 || st.dead() {
		return
	}
	ok := Le(ex.alloc0, ref)
	if ok == True {
		return
	}
	alts := []*Term{ok}
	for _, m := range ex.frameMods {
		if m.prefix == "" || !(m.matches(key) || strings.HasPrefix(m.prefix, key) && m.prefix == key) {
			continue
		}
		c := Eq(ref, m.ref)
		if m.lo != nil {
			if lo == nil {
				continue
			}
			c = And(c, Or(Le(hi, lo), And(Le(m.lo, lo), Le(hi, m.hi))))
		}
		alts = append(alts, c)
	}
	if lo != nil {
		alts = append(alts, Le(hi, lo))
	}
	g := Or(alts...)
	if g == True {
		return
	}
	ex.oblige(st, "frame", ex.src(n), n, g)
}

// --- builtins ---

func (ex *Exec) builtin(fr *Frame, st *State, x *ast.CallExpr) Value {
	name := ""
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = f.Sel.Name // unsafe.X
	}
	switch name {
	case "len", "cap":
		t := ex.typeOf(fr, x.Args[0])
		if at, ok := t.Underlying().(*types.Array); ok {
			return VScalar{Int(at.Len())}
		}
		v := ex.eval(fr, st, x.Args[0])
		switch s := v.(type) {
		case VSlice:
			if name == "cap" {
				return VScalar{s.Cap}
			}
			return VScalar{s.Len}
		case VStr:
			return VScalar{s.Len}
		case VNil:
			return VScalar{Int(0)}
		}
		if m, ok := t.Underlying().(*types.Map); ok {
			return VScalar{ex.mapLen(st, m, scalar(v))}
		}
		bail("len of %T", v)
	case "min", "max":
		t := ex.typeOf(fr, x)
		r := scalar(ex.evalAs(fr, st, x.Args[0], t))
		for _, a := range x.Args[1:] {
			v := scalar(ex.evalAs(fr, st, a, t))
			if name == "min" {
				r = Ite(Le(r, v), r, v)
			} else {
				r = Ite(Le(v, r), r, v)
			}
		}
		return VScalar{r}
	case "panic":
		ex.eval(fr, st, x.Args[0])
		if st.dead() {
			return VTuple{}
		}
		ex.mustNot(st, "panic", x, True)
		st.pc = False
		return VTuple{}
	case "make":
		t := ex.typeOf(fr, x)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := ex.evalT(fr, st, x.Args[1])
			c := n
			if len(x.Args) > 2 {
				c = ex.evalT(fr, st, x.Args[2])
			}
			ex.mustNot(st, "make", x, Not(And(Le(Int(0), n), Le(n, c))))
			ex.notes["allocations succeed: every slice holds fewer than 2^47 elements"] = true
			ex.assume(st, Le(c, IntB(maxLen)))
			r := ex.allocRef(st)
			var arrs []*Term
			for _, cc := range comps(u.Elem()) {
				arrs = append(arrs, ConstArr(SArr(cc.Sort), zeroTerm(cc)))
			}
			ex.setElemArrs(st, u.Elem(), r, arrs)
			return VSlice{r, Int(0), n, c}
		case *types.Map:
			if len(x.Args) > 1 {
				ex.eval(fr, st, x.Args[1])
			}
			return ex.newMap(st, u)
		}
		bail("make %s", t)
	case "new":
		t := ex.typeOf(fr, x).(*types.Pointer).Elem()
		return VPtr{ex.newObj(st, t, zeroValue(t))}
	case "append":
		return ex.appendB(fr, st, x)
	case "copy":
		return ex.copyB(fr, st, x)
	case "clear":
		t := ex.typeOf(fr, x.Args[0])
		v := ex.eval(fr, st, x.Args[0])
		if m, ok := t.Underlying().(*types.Map); ok {
			// clearing a nil map is a no-op
			ref := scalar(v)
			if Ne(ref, Int(0)) == True {
				ex.mapDelete(st, x, m, ref, nil, true)
				return VTuple{}
			}
			s1, s2 := st.with(Ne(ref, Int(0))), st.with(Eq(ref, Int(0)))
			ex.mapDelete(s1, x, m, ref, nil, true)
			*st = *ex.merge([]*State{s1, s2})
			return VTuple{}
		}
		s := ex.asSlice(v)
		el := t.Underlying().(*types.Slice).Elem()
		ex.checkWrite(st, x, "E|"+elemKey(el)+"|", s.Ref, s.Off, Add(s.Off, s.Len))
		cs := comps(el)
		arrs := ex.elemArrs(st, el, s.Ref)
		for i, c := range cs {
			f := ex.freshElems("clr", c)
			k := BoundVar("k")
			rd := mk(OSelect, c.Sort, "", nil, f, k)
			in := And(Le(s.Off, k), Lt(k, Add(s.Off, s.Len)))
			ex.assume(st, Forall([]*Term{k}, Eq(rd, Ite(in, zeroTerm(c), Select(arrs[i], k)))))
			arrs[i] = f
		}
		ex.setElemArrs(st, el, s.Ref, arrs)
		return VTuple{}
	case "delete":
		m := ex.typeOf(fr, x.Args[0]).Underlying().(*types.Map)
		ref := ex.evalT(fr, st, x.Args[0])
		k := ex.mapKey(m.Key(), ex.evalAs(fr, st, x.Args[1], m.Key()))
		ex.mapDelete(st, x, m, ref, k, false)
		return VTuple{}
	case "print", "println":
		for _, a := range x.Args {
			ex.eval(fr, st, a)
		}
		return VTuple{}
	case "String": // unsafe.String(&s[i], n)
		ue, ok := ast.Unparen(x.Args[0]).(*ast.UnaryExpr)
		if !ok || ue.Op != token.AND {
			bail("unsafe.String argument")
		}
		ie, ok := ast.Unparen(ue.X).(*ast.IndexExpr)
		if !ok {
			bail("unsafe.String argument")
		}
		t := ex.typeOf(fr, ie.X)
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			bail("unsafe.String on %s", t)
		}
		s := ex.asSlice(ex.eval(fr, st, ie.X))
		i := ex.evalT(fr, st, ie.Index)
		ex.mustNot(st, "index", ie, Not(And(Le(Int(0), i), Lt(i, s.Len))))
		n := ex.evalT(fr, st, x.Args[1])
		// the string must lie within the slice: memory safety, not a Go panic
		ex.oblige(st, "unsafe-string", ex.src(x), x, And(Le(Int(0), n), Le(Add(i, n), s.Len)))
		return VStr{ex.elemArrs(st, sl.Elem(), s.Ref)[0], Add(s.Off, i), n}
	}
	bail("builtin %s", name)
	return nil
}

func (ex *Exec) appendB(fr *Frame, st *State, x *ast.CallExpr) Value {
	t := ex.typeOf(fr, x)
	el := t.Underlying().(*types.Slice).Elem()
	s := ex.asSlice(ex.eval(fr, st, x.Args[0]))
	if x.Ellipsis != token.NoPos {
		if se, ok := ast.Unparen(x.Args[1]).(*ast.SliceExpr); ok && se.Max == nil {
			if at, ok := ex.typeOf(fr, se.X).Underlying().(*types.Array); ok { // a view of an array, only read here
				a := ex.eval(fr, st, se.X).(VArr)
				lo, hi := Int(0), Int(at.Len())
				if se.Low != nil {
					lo = ex.evalT(fr, st, se.Low)
				}
				if se.High != nil {
					hi = ex.evalT(fr, st, se.High)
				}
				ex.mustNot(st, "slice", se, Not(And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(at.Len())))))
				return ex.appendSpread(st, x, el, s, a.C, lo, Sub(hi, lo))
			}
		}
		at := ex.typeOf(fr, x.Args[1])
		v := ex.eval(fr, st, x.Args[1])
		if isString(at) {
			p := ex.asStr(v)
			return ex.appendSpread(st, x, el, s, []*Term{p.Arr}, p.Off, p.Len)
		}
		p := ex.asSlice(v)
		return ex.appendSpread(st, x, el, s, ex.elemArrs(st, el, p.Ref), p.Off, p.Len)
	}
	var vals []Value
	for _, a := range x.Args[1:] {
		vals = append(vals, ex.evalAs(fr, st, a, el))
	}
	if st.dead() {
		return s
	}
	return ex.appendVals(st, x, el, s, vals)
}

func (ex *Exec) growSlice(st *State, n ast.Node, el types.Type, s VSlice, k *Term) (VSlice, *Term) {
	newLen := Add(s.Len, k)
	inPlace := Le(newLen, s.Cap)
	nr := ex.allocRef(st)
	nc := Sym("cap", SInt)
	ex.rawAssume(And(Le(Int(0), nc), Le(Add(s.Off, nc), IntB(maxLen))))
	ex.assume(st, Le(newLen, nc))
	ex.notes["allocations succeed: every slice holds fewer than 2^47 elements"] = true
	if nc.lo == nil {
		nc.lo, nc.hi = bi(0), maxLen
	}
	ex.assume(st, Imp(inPlace, Eq(nc, s.Cap)))
	ref := Ite(inPlace, s.Ref, nr)
	return VSlice{ref, s.Off, newLen, nc}, inPlace
}

func (ex *Exec) appendVals(st *State, n ast.Node, el types.Type, s VSlice, vals []Value) Value {
	if len(vals) == 0 {
		return s
	}
	arrs := ex.elemArrs(st, el, s.Ref)
	r, inPlace := ex.growSlice(st, n, el, s, Int(int64(len(vals))))
	lo := Add(s.Off, s.Len)
	if inPlace != False {
		s1 := st.with(inPlace)
		ex.checkWrite(s1, n, "E|"+elemKey(el)+"|", s.Ref, lo, Add(lo, Int(int64(len(vals)))))
	}
	for i, v := range vals {
		fl := flatten(el, v)
		for j := range arrs {
			arrs[j] = Store(arrs[j], Add(lo, Int(int64(i))), fl[j])
		}
	}
	ex.setElemArrs(st, el, r.Ref, arrs)
	return r
}

func (ex *Exec) appendSpread(st *State, n ast.Node, el types.Type, s VSlice, src []*Term, soff, slen *Term) Value {
	if st.dead() {
		return s
	}
	if slen.op == OInt && slen.iv.IsInt64() && slen.iv.Int64() <= 8 {
		var vals []Value
		for i := int64(0); i < slen.iv.Int64(); i++ {
			var ts []*Term
			for _, a := range src {
				ts = append(ts, Select(a, Add(soff, Int(i))))
			}
			vals = append(vals, unflatten(el, ts))
		}
		return ex.appendVals(st, n, el, s, vals)
	}
	arrs := ex.elemArrs(st, el, s.Ref)
	r, inPlace := ex.growSlice(st, n, el, s, slen)
	lo := Add(s.Off, s.Len)
	hi := Add(lo, slen)
	s1 := st.with(inPlace)
	ex.checkWrite(s1, n, "E|"+elemKey(el)+"|", s.Ref, lo, hi)
	// appending nothing to a nil slice keeps it nil
	for j, c := range comps(el) {
		arrs[j] = ex.spliced(st, c, arrs[j], lo, hi, src[j], soff)
	}
	ex.setElemArrs(st, el, r.Ref, arrs)
	return r
}

// spliced is array a with [lo,hi) replaced by src[soff..].
func (ex *Exec) spliced(st *State, c Comp, a, lo, hi, src, soff *Term) *Term {
	f := ex.freshElems("spl", c)
	k := BoundVar("k")
	rd := mk(OSelect, c.Sort, "", nil, f, k)
	ex.assume(st, Forall([]*Term{k}, Eq(rd, Ite(And(Le(lo, k), Lt(k, hi)), Select(src, Add(Sub(k, lo), soff)), Select(a, k)))))
	// the reverse direction: an occurrence of the source element names the copy
	k2 := BoundVar("k")
	s2 := Select(src, k2)
	if s2.op == OSelect && s2.args[1] == k2 {
		d := Add(Sub(k2, soff), lo)
		ex.assume(st, Forall([]*Term{k2}, Or(Lt(k2, soff), Le(Add(soff, Sub(hi, lo)), k2), Eq(mk(OSelect, c.Sort, "", nil, f, d), s2))))
	}
	return f
}

func (ex *Exec) copyB(fr *Frame, st *State, x *ast.CallExpr) Value {
	t := ex.typeOf(fr, x.Args[0])
	el := t.Underlying().(*types.Slice).Elem()
	d := ex.asSlice(ex.eval(fr, st, x.Args[0]))
	at := ex.typeOf(fr, x.Args[1])
	v := ex.eval(fr, st, x.Args[1])
	var src []*Term
	var soff, slen *Term
	if isString(at) {
		p := ex.asStr(v)
		src, soff, slen = []*Term{p.Arr}, p.Off, p.Len
	} else {
		p := ex.asSlice(v)
		src, soff, slen = ex.elemArrs(st, el, p.Ref), p.Off, p.Len
	}
	return VScalar{ex.copyTo(st, x, el, d, src, soff, slen)}
}

func (ex *Exec) copyTo(st *State, x ast.Node, el types.Type, d VSlice, src []*Term, soff, slen *Term) *Term {
	n := Ite(Le(d.Len, slen), d.Len, slen)
	if ex.impliedLe(st, d.Len, slen) {
		n = d.Len
	} else if ex.impliedLe(st, slen, d.Len) {
		n = slen
	}
	ex.checkWrite(st, x, "E|"+elemKey(el)+"|", d.Ref, d.Off, Add(d.Off, n))
	arrs := ex.elemArrs(st, el, d.Ref)
	for j, c := range comps(el) {
		arrs[j] = ex.spliced(st, c, arrs[j], d.Off, Add(d.Off, n), src[j], soff)
	}
	ex.setElemArrs(st, el, d.Ref, arrs)
	return n
}

// --- standard library models ---

func (ex *Exec) nonNil(st *State, hint string) Value {
	s := SymR(hint, bi(1), nil)
	ex.symAx[s] = append(ex.symAx[s], mk(OLe, SBool, "", nil, Int(1), s))
	return VScalar{s}
}

func (ex *Exec) extFunc(fr *Frame, st *State, x *ast.CallExpr, obj *types.Func, sig *types.Signature) Value {
	key := obj.Name()
	if obj.Pkg() != nil {
		key = obj.Pkg().Path() + "." + obj.Name()
	}
	switch key {
	case "errors.New", "fmt.Errorf":
		ex.evalArgs(fr, st, x, sig)
		return ex.nonNil(st, "err")
	case "fmt.Sprintf", "fmt.Sprint", "strconv.Itoa":
		ex.evalArgs(fr, st, x, sig)
		return ex.fresh(st, "text", sig.Results().At(0).Type())
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		for _, a := range x.Args {
			ex.eval(fr, st, a)
		}
		if st.dead() {
			return ex.deadResult(sig)
		}
		return VTuple{[]Value{ex.fresh(st, "n", types.Typ[types.Int]), ex.fresh(st, "e", sig.Results().At(1).Type())}}
	case "unicode/utf8.ValidRune":
		r := scalar(ex.evalArgs(fr, st, x, sig)[0])
		return VScalar{Or(And(Le(Int(0), r), Lt(r, Int(0xD800))), And(Lt(Int(0xDFFF), r), Le(r, Int(0x10FFFF))))}
	case "image.Pt":
		a := ex.evalArgs(fr, st, x, sig)
		return VStruct{[]Value{a[0], a[1]}}
	case "image.Rect":
		a := ex.evalArgs(fr, st, x, sig)
		x0, y0, x1, y1 := scalar(a[0]), scalar(a[1]), scalar(a[2]), scalar(a[3])
		mn := func(p, q *Term) Value { return VScalar{Ite(Le(p, q), p, q)} }
		mx := func(p, q *Term) Value { return VScalar{Ite(Le(p, q), q, p)} }
		return VStruct{[]Value{VStruct{[]Value{mn(x0, x1), mn(y0, y1)}}, VStruct{[]Value{mx(x0, x1), mx(y0, y1)}}}}
	case "sort.Slice", "sort.SliceStable":
		return ex.sortSlice(fr, st, x)
	case "slices.Equal":
		t := ex.typeOf(fr, x.Args[0]).Underlying().(*types.Slice)
		a := ex.asSlice(ex.eval(fr, st, x.Args[0]))
		b := ex.asSlice(ex.eval(fr, st, x.Args[1]))
		return VScalar{ex.slicesEqual(st, t.Elem(), a, b)}
	}
	if con := ex.db.Funcs["ext."+key]; con != nil {
		args := ex.evalArgs(fr, st, x, sig)
		return ex.callExt(fr, st, x, con, sig, nil, nil, args)
	}
	bail("call of %s has no model", key)
	return nil
}

// sortSlice models sort.Slice(s, less): the elements of s are permuted (in
// some order: less is only checked not to panic for any two indices).
func (ex *Exec) sortSlice(fr *Frame, st *State, x *ast.CallExpr) Value {
	t, ok := ex.typeOf(fr, x.Args[0]).Underlying().(*types.Slice)
	if !ok {
		bail("sorting %s", ex.typeOf(fr, x.Args[0]))
	}
	el := t.Elem()
	s := ex.asSlice(ex.eval(fr, st, x.Args[0]))
	less, ok := ex.eval(fr, st, x.Args[1]).(VFunc)
	if !ok || less.Lit == nil {
		bail("sorting with an unknown function")
	}
	if st.dead() {
		return VTuple{}
	}
	old := ex.elemArrs(st, el, s.Ref)
	hi := Add(s.Off, s.Len)
	ex.checkWrite(st, x, "E|"+elemKey(el)+"|", s.Ref, s.Off, hi)
	p, q := Sym("perm", SArr(SInt)), Sym("perm", SArr(SInt))
	var arrs []*Term
	k := BoundVar("k")
	in := And(Le(s.Off, k), Lt(k, hi))
	pk := mk(OSelect, SInt, "", nil, p, k)
	qk := mk(OSelect, SInt, "", nil, q, k)
	fw := []*Term{Le(s.Off, pk), Lt(pk, hi), Eq(Select(q, pk), k)}
	bw := []*Term{Le(s.Off, qk), Lt(qk, hi), Eq(Select(p, qk), k)}
	for i, c := range comps(el) {
		f := ex.freshElems("sorted", c)
		arrs = append(arrs, f)
		rd := mk(OSelect, c.Sort, "", nil, f, k)
		fw = append(fw, Eq(rd, Select(old[i], pk)))
		ex.assume(st, Forall([]*Term{k}, Or(in, Eq(rd, Select(old[i], k)))))
		bw = append(bw, Eq(Select(f, qk), Select(old[i], k)))
	}
	ex.assume(st, Forall([]*Term{k}, Imp(in, And(fw...))))
	ex.assume(st, Forall([]*Term{k}, Imp(in, And(bw...))))
	ex.setElemArrs(st, el, s.Ref, arrs)
	// the comparison, on the slice in any intermediate order: panics and writes
	if ex.dry == 0 {
		i, j := Sym("i", SInt), Sym("j", SInt)
		c := st.clone().with(And(Le(Int(0), i), Lt(i, s.Len), Le(Int(0), j), Lt(j, s.Len)))
		w := len(ex.writes)
		ex.inlineLit(fr, c, x, less, []Value{VScalar{i}, VScalar{j}})
		if len(ex.writes) != w {
			bail("comparison with side effects")
		}
	}
	return VTuple{}
}

func (ex *Exec) slicesEqual(st *State, el types.Type, a, b VSlice) *Term {
	r := Sym("sleq", SBool)
	w := Sym("sw", SInt)
	k := BoundVar("k")
	aa, bb := ex.elemArrs(st, el, a.Ref), ex.elemArrs(st, el, b.Ref)
	le := Eq(a.Len, b.Len)
	var eqs, nes []*Term
	for j := range aa {
		eqs = append(eqs, Eq(Select(aa[j], Add(a.Off, k)), Select(bb[j], Add(b.Off, k))))
		nes = append(nes, Ne(Select(aa[j], Add(a.Off, w)), Select(bb[j], Add(b.Off, w))))
	}
	ex.assume(st, Imp(r, And(le, Forall([]*Term{k}, Imp(And(Le(Int(0), k), Lt(k, a.Len)), And(eqs...))))))
	ex.assume(st, Imp(Not(r), Or(Not(le), And(Le(Int(0), w), Lt(w, a.Len), Or(nes...)))))
	return r
}

func (ex *Exec) extMethod(fr *Frame, st *State, x *ast.CallExpr, f *ast.SelectorExpr, sel *types.Selection, sig *types.Signature) Value {
	o := sel.Obj().(*types.Func)
	rt := sel.Recv()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	key := o.Name()
	if n, ok := rt.(*types.Named); ok {
		key = n.Obj().Name() + "." + key
		if n.Obj().Pkg() != nil {
			key = n.Obj().Pkg().Path() + "." + key
		}
	}
	switch key {
	case "image.Rectangle.Dx", "image.Rectangle.Dy", "image.Rectangle.Empty":
		v := ex.eval(fr, st, f.X).(VStruct)
		mn, mxp := v.F[0].(VStruct), v.F[1].(VStruct)
		ik := intKind{64, true}
		if o.Name() == "Empty" {
			return VScalar{Or(Ge(scalar(mn.F[0]), scalar(mxp.F[0])), Ge(scalar(mn.F[1]), scalar(mxp.F[1])))}
		}
		i := 0
		if o.Name() == "Dy" {
			i = 1
		}
		return VScalar{Wrap(Sub(scalar(mxp.F[i]), scalar(mn.F[i])), ik)}
	case "error.Error":
		ex.mustNot(st, "nil-deref", x, Eq(ex.evalT(fr, st, f.X), Int(0)))
		return ex.fresh(st, "text", types.Typ[types.String])
	}
	if con := ex.db.Funcs["ext."+key]; con != nil {
		t := ex.typeOf(fr, f.X)
		recv := ex.eval(fr, st, f.X)
		args := ex.evalArgs(fr, st, x, sig)
		return ex.callExt(fr, st, x, con, sig, recv, t, args)
	}
	bail("method %s has no model", key)
	return nil
}

// callExt applies an assumed contract of an external function.
func (ex *Exec) callExt(fr *Frame, st *State, x ast.Node, con *Contract, sig *types.Signature, recv Value, rt types.Type, args []Value) Value {
	if st.dead() {
		return ex.deadResult(sig)
	}
	ex.trusted[con.Key] = con.Why
	pre := st.clone()
	mark := symCount
	env := &senv{ex: ex, st: pre, old: pre, names: map[string]SV{}, pkg: ex.fi.Pkg}
	i := 0
	if recv != nil {
		env.names[con.Params[0]] = SV{recv, rt}
		i = 1
	}
	for j, a := range args {
		env.names[con.Params[i+j]] = SV{a, sig.Params().At(j).Type()}
	}
	env.oldNames = env.names
	ex.bindLets(env, con)
	bv := env.logicals(con)
	for _, r := range con.Requires {
		ex.oblige(st, "pre "+con.Key, r.Src, x, ground(env.boolean(r.E)))
	}
	na := Sym("alloc", SInt)
	ex.rawAssume(Le(st.alloc, na))
	ex.allocSyms[na] = symCount
	st.alloc = na
	for _, m := range ex.evalMods(env, con) {
		ex.havocMod(st, x, m)
	}
	env2 := &senv{ex: ex, st: st, old: pre, names: map[string]SV{}, oldNames: env.names, pkg: ex.fi.Pkg, freshFrom: pre.alloc}
	for k, v := range env.names {
		env2.names[k] = v
	}
	var vals []Value
	for j := 0; j < sig.Results().Len(); j++ {
		t := sig.Results().At(j).Type()
		v := ex.fresh(st, con.Results[j], t)
		vals = append(vals, v)
		env2.names[con.Results[j]] = SV{v, t}
	}
	var assumed []*Term
	for _, e := range con.Ensures {
		g := ex.forAllOf(env2.boolean(e.E), bv, con.Logical)
		ex.assume(st, g)
		assumed = append(assumed, g)
	}
	tightenAll(assumed, mark)
	ex.noteFresh(assumed, mark)
	if len(vals) == 0 {
		return VTuple{}
	}
	if len(vals) == 1 {
		return vals[0]
	}
	return VTuple{vals}
}
