package main

// Cuts: an assertion at a statement of the verified function after which the
// proof starts afresh. The asserted facts are proved before the statement;
// from there on every changed variable and memory cell is an unknown value of
// which only the asserted facts (and the function's frame condition, and the
// preconditions) are known. A cut can lose facts, never add any: its place and
// its assertions are part of the proof, not of the trusted base.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

type CutSpec struct {
	Anchor    string // the first statement assigning a field, calling a function, or testing a name (if, for), of this name
	Asserts   []Clause
	Reveal    map[string]bool
	Hide      map[string]bool
	Applies   []*SExpr
	Instances []*SExpr
}

// segment is the proof context between two cuts.
type segment struct {
	assumes []*Term
	defs    []defFact
	apps    map[*Term]bool
	reveal  map[string]bool
}

func (ex *Exec) saveSeg() {
	s := ex.segs[ex.seg]
	s.assumes, s.defs, s.apps, s.reveal = ex.assumes, ex.defFacts, ex.recApps, ex.reveal
}

func (ex *Exec) useSeg(k int) {
	ex.saveSeg()
	ex.seg = k
	s := ex.segs[k]
	ex.assumes, ex.defFacts, ex.recApps, ex.reveal = s.assumes, s.defs, s.apps, s.reveal
}

func (ex *Exec) startSegs() {
	ex.segs = []*segment{{}}
	ex.seg = 0
	ex.reveal = ex.con.Reveal
	ex.baseAssumes = ex.assumes[:len(ex.assumes):len(ex.assumes)]
	ex.baseDefs = ex.defFacts[:len(ex.defFacts):len(ex.defFacts)]
	ex.baseApps = map[*Term]bool{}
	for k := range ex.recApps {
		ex.baseApps[k] = true
	}
}

// anchored finds the cut placed at a statement, if any.
func (ex *Exec) anchored(fr *Frame, s ast.Stmt) *CutSpec {
	if len(ex.con.Cuts) == 0 || ex.dry > 0 || ex.segs == nil {
		return nil
	}
	var names []string
	call := func(e ast.Expr) {
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				switch f := ast.Unparen(x.Fun).(type) {
				case *ast.SelectorExpr:
					names = append(names, f.Sel.Name)
				case *ast.Ident:
					names = append(names, f.Name)
				}
			case *ast.FuncLit:
				return false
			}
			return true
		})
	}
	idents := func(e ast.Expr) {
		ast.Inspect(e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				names = append(names, id.Name)
			}
			return true
		})
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			if se, ok := ast.Unparen(l).(*ast.SelectorExpr); ok && x.Tok == token.ASSIGN {
				names = append(names, se.Sel.Name)
			}
		}
		for _, r := range x.Rhs {
			call(r)
		}
	case *ast.ExprStmt:
		call(x.X)
	case *ast.IfStmt:
		if x.Init != nil {
			return ex.anchored(fr, x.Init)
		}
		call(x.Cond)
		idents(x.Cond)
	case *ast.ForStmt:
		if x.Cond != nil {
			call(x.Cond)
			idents(x.Cond)
		}
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			call(r)
		}
	}
	for _, c := range ex.con.Cuts {
		if ex.cutsDone[c] {
			continue
		}
		for _, n := range names {
			if n == c.Anchor {
				return c
			}
		}
	}
	return nil
}

func (ex *Exec) cutAt(fr *Frame, st *State, s ast.Stmt, c *CutSpec) *State {
	ex.cutsDone[c] = true
	// inside a loop, what the iteration has not changed keeps its value
	var head *State
	if len(ex.heads) > 0 && len(fr.loops) > 0 {
		head = ex.heads[len(ex.heads)-1]
	}
	env := func(st *State) *senv {
		en := &senv{ex: ex, st: st, old: ex.entry, names: map[string]SV{}, oldNames: ex.entryNames, pkg: fr.fi.Pkg}
		ex.bindLets(en, ex.con)
		en.local = func(name string) (SV, bool) { return ex.lookupLocal(fr, st, s.Pos(), name) }
		if head != nil {
			en.start = &senv{ex: ex, st: head, old: ex.entry, names: map[string]SV{}, oldNames: ex.entryNames, pkg: fr.fi.Pkg}
			ex.bindLets(en.start, ex.con)
			en.start.local = func(name string) (SV, bool) { return ex.lookupLocal(fr, head, s.Pos(), name) }
		}
		return en
	}
	extra := func(st *State) {
		en := env(st)
		for _, u := range c.Applies {
			if g := en.tryInst(u); g != nil {
				ex.assume(st, g)
			}
		}
		for _, m := range c.Instances {
			en.try(func() { en.eval(m) })
		}
	}
	// the assertions hold here
	e := env(st)
	var goals []*Term
	ok := e.try(func() {
		for _, a := range c.Asserts {
			goals = append(goals, e.boolean(a.E))
		}
	})
	if !ok {
		ex.notes["the proof's intermediate assertions before "+c.Anchor+" name a variable the code does not have"] = true
		return st
	}
	for i, g := range goals {
		ps := conjuncts(g)
		for j, p := range ps {
			at := ""
			if len(ps) > 1 {
				at = fmt.Sprintf(" part %d", j+1)
			}
			ex.oblige(st, fmt.Sprintf("assertion %d before %s%s", i+1, c.Anchor, at), "", s, p)
		}
	}
	// the state from here on
	mark := symCount
	seg := &segment{assumes: ex.baseAssumes, defs: ex.baseDefs, apps: map[*Term]bool{}, reveal: map[string]bool{}}
	for k := range ex.baseApps {
		seg.apps[k] = true
	}
	for k := range ex.con.Reveal {
		if !c.Hide[k] {
			seg.reveal[k] = true
		}
	}
	for k := range c.Reveal {
		seg.reveal[k] = true
	}
	ex.segs = append(ex.segs, seg)
	ex.useSeg(len(ex.segs) - 1)
	ex.wfDone = map[*Term]bool{}
	n := st.clone()
	n.pc = Sym("here", SBool)
	if head == nil || st.alloc != head.alloc {
		na := Sym("alloc", SInt)
		ex.rawAssume(Le(ex.alloc0, na))
		ex.allocSyms[na] = symCount
		n.alloc = na
	} else {
		ex.rawAssume(Le(ex.alloc0, n.alloc))
	}
	vs := map[types.Object]Value{}
	for o, v := range st.vars {
		vs[o] = v
	}
	for _, o := range sortedObjs(vs) {
		v := st.vars[o]
		if ev, ok := ex.entry.vars[o]; ok && eqVal(v, ev) {
			continue
		}
		if head != nil {
			if hv, ok := head.vars[o]; ok && eqVal(v, hv) {
				continue
			}
		}
		t := ex.varType(fr, o)
		if t == nil || !allFlat(t, v) {
			continue
		}
		n.vars[o] = ex.fresh(n, o.Name(), t)
	}
	seen := map[string]bool{}
	for _, w := range ex.writes {
		if seen[w.key] {
			continue
		}
		seen[w.key] = true
		old := ex.heapGet(n, w.key, w.c, w.nested)
		h0 := ex.heap0[w.key]
		if h0 == nil || old == h0 {
			continue
		}
		if head != nil && head.heap[w.key] == old {
			continue
		}
		nh := Sym("H_"+w.key, old.sort)
		ex.typeArray(nh, w.c, w.nested)
		n.heap[w.key] = nh
		r := BoundVar("r")
		cs := []*Term{Le(ex.alloc0, r)}
		var refs []*Term
		for _, m := range ex.frameMods {
			if m.prefix != "" && m.matches(w.key) {
				cs = append(cs, Eq(r, m.ref))
				refs = append(refs, m.ref)
			}
		}
		rd := mk(OSelect, old.sort.elem, "", nil, nh, r)
		ex.rawAssume(Forall([]*Term{r}, Or(append(cs, Eq(rd, Select(h0, r)))...)))
		ex.entryFrame(n, w.key, w.c, w.nested, refs)
	}
	e = env(n)
	var assumed []*Term
	for _, a := range c.Asserts {
		g := e.boolean(a.E)
		ex.assume(n, g)
		assumed = append(assumed, g)
	}
	tightenAll(assumed, mark)
	extra(n)
	return n
}

// allFlat reports that a value is made of terms only.
func allFlat(t types.Type, v Value) bool {
	switch x := v.(type) {
	case VPoison, VFunc, VTuple:
		return false
	case VPtr:
		return x.Pl.Kind == PObj && len(x.Pl.Path) == 0
	case VStruct:
		for _, f := range x.F {
			if !allFlat(nil, f) {
				return false
			}
		}
	}
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Signature, *types.Tuple:
		return false
	}
	return true
}

// segDefs are the definitional equations that may be used in a segment.
func (ex *Exec) segDefs(k int) []defFact {
	if ex.segs == nil || k == ex.seg {
		return ex.defFacts
	}
	return ex.segs[k].defs
}
