package main

// Symbolic execution of Go function bodies, producing proof obligations.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Trace struct {
	Count *Term
	Args  [][]*Term // per argument, per component: array from call index
	Types []types.Type
	Rets  []*Term // component arrays of the (single) result
	RetT  types.Type
}

type State struct {
	pc    *Term
	vars  map[types.Object]Value
	heap  map[string]*Term
	alloc *Term
	trace map[types.Object]*Trace
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, vars: make(map[types.Object]Value, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), trace: map[types.Object]*Trace{}}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.trace {
		n.trace[k] = v
	}
	return n
}
func (s *State) with(c *Term) *State {
	n := s.clone()
	n.pc = And(s.pc, c)
	return n
}
func (s *State) dead() bool { return s == nil || s.pc == False }

type Obligation struct {
	Name    string
	Kind    string
	Pos     string
	Src     string
	Goal    *Term
	Assumes []*Term
	Seg     int
	Fn      string
	PC      *Term
	Params  []modelVar
	// results
	Status string // proved, failed, unknown
	By     string
	Ms     int64
	Model  string
}

type modelVar struct {
	Name string
	T    *Term
}

type retState struct {
	st  *State
	res []Value
	seg int
}

type Frame struct {
	fi     *FuncInfo
	info   *types.Info
	parent *Frame
	rets   []retState
	path   string
	targs  map[*types.TypeParam]types.Type
	sig    *types.Signature
	resObj []types.Object
	brk    map[string][]*State // collected by label ("" = innermost)
	loops  []*loopCtx
	depth  int
	lit    bool
}

type loopCtx struct {
	label     string
	brk, cont []*State
	isSwitch  bool
}

type write struct {
	key    string
	ref    *Term
	c      Comp
	nested bool
}

type Exec struct {
	prog        *Program
	db          *SpecDB
	fi          *FuncInfo
	con         *Contract
	assumes     []*Term
	obs         []*Obligation
	heap0       map[string]*Term
	symAx       map[*Term][]*Term // axioms attached to a symbol
	dry         int
	writes      []write
	wfDone      map[*Term]bool
	loopIdx     map[string]int
	entry       *State
	panicOK     *Term // entry-state condition under which panics are allowed
	params      []types.Object
	names       map[types.Object]string
	modelVars   []modelVar
	alloc0      *Term
	kindCnt     map[string]int
	strConst    map[string]VStr
	trusted     map[string]string // trusted contracts used
	used        map[string]bool   // contracts used at call sites
	notes       map[string]bool
	recApps     map[*Term]bool
	rebind      map[string]string
	unresolved  map[string]bool
	noTerm      []string
	nobound     int
	frameMods   []modItem
	hasMods     bool
	globals     map[types.Object]Value
	modelTerms  []*Term
	loopsSeen   map[int]bool
	heads       []*State // the states at the heads of the enclosing loops
	inlined     map[string]bool
	stack       []string
	heapElem    map[string]Comp
	defFacts    []defFact // definitional equations, relevant where the defined application is
	facts       []*Term   // unconditional facts about typed memory and definitions
	wfLog       []*Term
	frames      []*Frame
	loopCache   map[string]*loopInfo
	allocSyms   map[*Term]int
	entryMark   int
	entryNames  map[string]SV
	entryEnv    *senv
	traceUsed   map[types.Object]bool
	so          *symsOf
	quickN      int
	quickMs     int64
	vacuity     []vacCheck
	logical     map[string]*Term // arbitrary constants named by the contract
	splitGoal   *Term            // the last goal of pathQuery, after substitution
	splitDefs   []defFact
	segs        []*segment // proof contexts between cuts
	seg         int
	reveal      map[string]bool
	cutsDone    map[*CutSpec]bool
	baseAssumes []*Term
	baseDefs    []defFact
	baseApps    map[*Term]bool
	vacRes      map[string][]string
}

func NewExec(p *Program, db *SpecDB, fi *FuncInfo, con *Contract) *Exec {
	return &Exec{prog: p, db: db, fi: fi, con: con, heap0: map[string]*Term{}, symAx: map[*Term][]*Term{}, wfDone: map[*Term]bool{}, loopIdx: map[string]int{}, kindCnt: map[string]int{}, strConst: map[string]VStr{}, trusted: map[string]string{}, used: map[string]bool{}, notes: map[string]bool{}, recApps: map[*Term]bool{}, rebind: map[string]string{}, unresolved: map[string]bool{}, names: map[types.Object]string{}, globals: map[types.Object]Value{}, loopsSeen: map[int]bool{}, inlined: map[string]bool{}, heapElem: map[string]Comp{}, loopCache: map[string]*loopInfo{}, allocSyms: map[*Term]int{}, traceUsed: map[types.Object]bool{}, cutsDone: map[*CutSpec]bool{}, reveal: con.Reveal, so: &symsOf{map[*Term]map[*Term]bool{}}}
}

func (ex *Exec) pos(n ast.Node) string {
	if n == nil {
		return ""
	}
	p := ex.prog.Fset.Position(n.Pos())
	f := p.Filename
	f = strings.TrimPrefix(f, ex.prog.Dir+"/")
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (ex *Exec) src(n ast.Node) string {
	a, b := ex.prog.Fset.Position(n.Pos()), ex.prog.Fset.Position(n.End())
	s := ex.prog.Src[a.Filename]
	if s == nil || b.Offset > len(s) {
		return "?"
	}
	r := strings.Join(strings.Fields(string(s[a.Offset:b.Offset])), " ")
	if len(r) > 80 {
		r = r[:77] + "..."
	}
	return r
}

func (ex *Exec) rawAssume(t *Term) {
	if t == True {
		return
	}
	ex.assumes = append(ex.assumes, t)
}

func (ex *Exec) assume(st *State, t *Term) {
	if st.dead() {
		return
	}
	ex.rawAssume(Imp(st.pc, t))
}

func (ex *Exec) oblige(st *State, kind, src string, n ast.Node, goal *Term) {
	if st.dead() {
		return
	}
	if ex.dry == 0 {
		base := ex.con.Key + "/" + kind
		if src != "" {
			base += " " + src
		}
		ex.kindCnt[base]++
		name := base
		if c := ex.kindCnt[base]; c > 1 {
			name = fmt.Sprintf("%s #%d", base, c)
		}
		ob := &Obligation{Name: name, Kind: kind, Src: src, Pos: ex.pos(n), Goal: Imp(st.pc, goal), Assumes: ex.assumes[:len(ex.assumes):len(ex.assumes)], Seg: ex.seg, Fn: ex.con.Key, PC: st.pc}
		ex.obs = append(ex.obs, ob)
	}
	ex.assume(st, goal)
}

// mustNot demands that the panic condition cannot occur (or is allowed).
func (ex *Exec) mustNot(st *State, kind string, n ast.Node, bad *Term) {
	if st.dead() || bad == False {
		return
	}
	goal := Not(bad)
	if ex.panicOK != nil && ex.panicOK != False {
		goal = Imp(bad, ex.panicOK)
	}
	src := ""
	if n != nil {
		src = ex.src(n)
	}
	if ex.con.NoPanicCheck {
		ex.assume(st, Not(bad))
	} else {
		if st.pc == False {
			return
		}
		// the obligation is assumed as an implication, then the panic is excluded
		ex.oblige(st, kind, src, n, goal)
		ex.assume(st, Not(bad))
	}
	if bad == True {
		st.pc = False
	}
}

// --- memory ---

func (ex *Exec) heapGet(st *State, key string, c Comp, elems bool) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if t, ok := ex.heap0[key]; ok {
		return t
	}
	s := SArr(c.Sort)
	if elems {
		s = SArr(SArr(c.Sort))
	}
	t := Sym("H_"+key, s)
	ex.heap0[key] = t
	ex.heapElem[key] = c
	ex.typeArray(t, c, elems)
	return t
}

// typeArray attaches the range axiom of a typed memory symbol.
func (ex *Exec) typeArray(t *Term, c Comp, nested bool) {
	if c.Sort != SInt {
		return
	}
	var lo, hi *big.Int
	switch c.Kind {
	case "int":
		lo, hi = c.IK.rng()
	case "len", "cap", "off", "slen", "soff":
		lo, hi = bi(0), maxLen
	case "ref":
		lo = bi(0)
	default:
		return
	}
	k := BoundVar("k")
	var rd *Term
	var vs []*Term
	if nested {
		r := BoundVar("r")
		rd = mk(OSelect, t.sort.elem.elem, "", nil, mk(OSelect, t.sort.elem, "", nil, t, r), k)
		vs = []*Term{r, k}
	} else {
		rd = mk(OSelect, t.sort.elem, "", nil, t, k)
		vs = []*Term{k}
	}
	var cs []*Term
	if lo != nil {
		cs = append(cs, mk(OLe, SBool, "", nil, IntB(lo), rd))
	}
	if hi != nil {
		cs = append(cs, mk(OLe, SBool, "", nil, rd, IntB(hi)))
	}
	ex.symAx[t] = append(ex.symAx[t], Forall(vs, And(cs...)))
}

// freshElems is a fresh typed element array.
func (ex *Exec) freshElems(hint string, c Comp) *Term {
	t := Sym(hint, SArr(c.Sort))
	ex.typeArray(t, c, false)
	return t
}

func (pl *Place) heapPrefix() string {
	s := ""
	if pl.Kind == PObj {
		s = "F|" + pl.Key + "|"
	} else {
		s = "E|" + pl.Key + "|"
	}
	for _, p := range pl.Path {
		if p.Idx != nil {
			break
		}
		s += "." + p.Name
	}
	return s
}

// typeAt is the type after following the field steps up to the first array step.
func (ex *Exec) typeAt(root types.Type, path []Step) (types.Type, []Step) {
	t := root
	for i, p := range path {
		if p.Idx != nil {
			return t, path[i:]
		}
		if p.Field < 0 {
			t = ghosts[-1-p.Field].typ
			continue
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			bail("field step on %s", t)
		}
		t = st.Field(p.Field).Type()
	}
	return t, nil
}

func (ex *Exec) typeFull(root types.Type, path []Step) types.Type {
	t := root
	for _, p := range path {
		if p.Idx != nil {
			t = t.Underlying().(*types.Array).Elem()
			continue
		}
		if p.Field < 0 {
			t = ghosts[-1-p.Field].typ
			continue
		}
		t = t.Underlying().(*types.Struct).Field(p.Field).Type()
	}
	return t
}

func (ex *Exec) getPath(t types.Type, v Value, path []Step) (types.Type, Value) {
	for _, p := range path {
		if p.Idx != nil {
			at := t.Underlying().(*types.Array)
			a, ok := v.(VArr)
			if !ok {
				bail("array path on %T", v)
			}
			var ts []*Term
			for _, c := range a.C {
				ts = append(ts, Select(c, p.Idx))
			}
			t = at.Elem()
			v = unflatten(t, ts)
			continue
		}
		s, ok := v.(VStruct)
		if !ok {
			if po, ok := v.(VPoison); ok {
				bail("poison: %s", po.Why)
			}
			bail("field path on %T", v)
		}
		t = t.Underlying().(*types.Struct).Field(p.Field).Type()
		v = s.F[p.Field]
	}
	return t, v
}

func (ex *Exec) setPath(t types.Type, v Value, path []Step, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.Idx != nil {
		at := t.Underlying().(*types.Array)
		a := v.(VArr)
		var ts []*Term
		for _, c := range a.C {
			ts = append(ts, Select(c, p.Idx))
		}
		nv2 := nv
		if len(path) > 1 {
			nv2 = ex.setPath(at.Elem(), unflatten(at.Elem(), ts), path[1:], nv)
		}
		fl := flatten(at.Elem(), nv2)
		out := VArr{}
		for i, c := range a.C {
			out.C = append(out.C, Store(c, p.Idx, fl[i]))
		}
		return out
	}
	s, ok := v.(VStruct)
	if !ok {
		bail("setPath on %T", v)
	}
	ns := VStruct{F: append([]Value{}, s.F...)}
	ns.F[p.Field] = ex.setPath(t.Underlying().(*types.Struct).Field(p.Field).Type(), s.F[p.Field], path[1:], nv)
	return ns
}

func (ex *Exec) load(st *State, pl *Place) Value {
	if pl.Kind == PVar {
		v, ok := st.vars[pl.Obj]
		if !ok {
			v = ex.globalValue(st, pl.Obj)
		}
		_, v = ex.getPath(pl.Root, v, pl.Path)
		if p, ok := v.(VPoison); ok {
			bail("poison value: %s", p.Why)
		}
		return v
	}
	t, rest := ex.typeAt(pl.Root, pl.Path)
	v := ex.loadHeap(st, pl, t)
	_, v = ex.getPath(t, v, rest)
	return v
}

func (ex *Exec) loadHeap(st *State, pl *Place, t types.Type) Value {
	pre := pl.heapPrefix()
	var ts []*Term
	cs := comps(t)
	for _, c := range cs {
		if pl.Kind == PObj {
			ts = append(ts, Select(ex.heapGet(st, pre+c.Path, c, false), pl.Ref))
		} else {
			ts = append(ts, Select(Select(ex.heapGet(st, pre+c.Path, c, true), pl.Ref), pl.Idx))
		}
	}
	ex.wellFormed(st, t, ts)
	return unflatten(t, ts)
}

func (ex *Exec) storeNoCheck(st *State, pl *Place, v Value) {
	if st.dead() {
		return
	}
	if pl.Kind == PVar {
		if len(pl.Path) == 0 {
			st.vars[pl.Obj] = v
			return
		}
		old, ok := st.vars[pl.Obj]
		if !ok {
			bail("store to global %s", pl.Obj.Name())
		}
		st.vars[pl.Obj] = ex.setPath(pl.Root, old, pl.Path, v)
		return
	}
	t, rest := ex.typeAt(pl.Root, pl.Path)
	if len(rest) > 0 {
		old := ex.loadHeap(st, pl, t)
		v = ex.setPath(t, old, rest, v)
	}
	pre := pl.heapPrefix()
	fl := flatten(t, v)
	for i, c := range comps(t) {
		key := pre + c.Path
		ex.writes = append(ex.writes, write{key, pl.Ref, c, pl.Kind == PElem})
		if pl.Kind == PObj {
			h := ex.heapGet(st, key, c, false)
			st.heap[key] = Store(h, pl.Ref, fl[i])
		} else {
			h := ex.heapGet(st, key, c, true)
			st.heap[key] = Store(h, pl.Ref, Store(Select(h, pl.Ref), pl.Idx, fl[i]))
		}
	}
}

// elemArr returns the backing array terms of a slice's elements.
func (ex *Exec) elemArrs(st *State, elem types.Type, ref *Term) []*Term {
	var out []*Term
	k := elemKey(elem)
	for _, c := range comps(elem) {
		out = append(out, Select(ex.heapGet(st, "E|"+k+"|"+c.Path, c, true), ref))
	}
	return out
}
func (ex *Exec) setElemArrs(st *State, elem types.Type, ref *Term, arrs []*Term) {
	k := elemKey(elem)
	for i, c := range comps(elem) {
		key := "E|" + k + "|" + c.Path
		h := ex.heapGet(st, key, c, true)
		ex.writes = append(ex.writes, write{key, ref, c, true})
		st.heap[key] = Store(h, ref, arrs[i])
	}
}

// wellFormed asserts (and records as intervals) the type invariants of
// components read from typed memory or freshly introduced.
func (ex *Exec) wellFormed(st *State, t types.Type, ts []*Term) {
	cs := comps(t)
	for i, c := range cs {
		x := ts[i]
		if x.sort != SInt || x.op == OInt {
			continue
		}
		switch c.Kind {
		case "int":
			lo, hi := c.IK.rng()
			ex.rangeFact(x, lo, hi)
		case "ref":
			ex.rangeFact(x, bi(0), nil)
			if !x.bound && st != nil && !ex.wfDone[x] {
				ex.assume(st, Lt(x, st.alloc))
				if st.alloc == ex.alloc0 && x.op == OSym {
					entryRefs[x] = true
				}
				ex.wfDone[x] = true
				ex.wfLog = append(ex.wfLog, x)
			}
		case "len", "cap", "off", "slen", "soff":
			ex.rangeFact(x, bi(0), maxLen)
			if !x.bound && !ex.wfDone[x] {
				ex.wfDone[x] = true
				ex.wfLog = append(ex.wfLog, x)
				if c.Kind == "cap" {
					ref, off, ln := ts[i-3], ts[i-2], ts[i-1]
					ex.rawAssume(And(Le(ln, x), Le(Add(off, x), IntB(maxLen)), Imp(Eq(ref, Int(0)), Eq(x, Int(0)))))
				}
				if c.Kind == "slen" {
					ex.rawAssume(Le(Add(ts[i-1], x), IntB(maxLen)))
				}
			}
		}
	}
}

func (ex *Exec) rangeFact(x *Term, lo, hi *big.Int) {
	if x.op == OInt {
		return
	}
	need := false
	if lo != nil && (x.lo == nil || x.lo.Cmp(lo) < 0) {
		need = true
	}
	if hi != nil && (x.hi == nil || x.hi.Cmp(hi) > 0) {
		need = true
	}
	if !need {
		return
	}
	if x.op == OSym || x.op == OSelect || x.op == OApp || x.op == OIte {
		var cs []*Term
		if !x.bound {
			if lo != nil {
				cs = append(cs, mk(OLe, SBool, "", nil, IntB(lo), x))
			}
			if hi != nil {
				cs = append(cs, mk(OLe, SBool, "", nil, x, IntB(hi)))
			}
			ex.facts = append(ex.facts, And(cs...))
		}
		if lo != nil && (x.lo == nil || x.lo.Cmp(lo) < 0) {
			x.lo = lo
		}
		if hi != nil && (x.hi == nil || x.hi.Cmp(hi) > 0) {
			x.hi = hi
		}
	}
}

// fresh makes an arbitrary value of type t.
func (ex *Exec) fresh(st *State, hint string, t types.Type) Value {
	var ts []*Term
	for _, c := range comps(t) {
		x := Sym(hint+c.Path, c.Sort)
		if c.Sort.elem != nil {
			cc := c
			cc.Kind = kindOfPath(c.Kind)
			if c.Kind == "sarr" {
				cc.Kind = "int"
			}
			cc.Sort = c.Sort.elem
			ex.typeArray(x, cc, false)
		}
		ts = append(ts, x)
	}
	ex.wellFormed(st, t, ts)
	return unflatten(t, ts)
}

func (ex *Exec) allocRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	return r
}

// --- merging ---

func distinguish(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inB := map[*Term]bool{}
	for _, c := range cb {
		inB[c] = true
	}
	var rest []*Term
	for _, c := range ca {
		if inB[Not(c)] {
			return c
		}
		if !inB[c] {
			rest = append(rest, c)
		}
	}
	return And(rest...)
}

func (ex *Exec) mergeVal(c *Term, t types.Type, a, b Value) Value {
	if eqVal(a, b) {
		return a
	}
	if pa, ok := a.(VPoison); ok {
		return pa
	}
	if pb, ok := b.(VPoison); ok {
		return pb
	}
	pa, ok1 := a.(VPtr)
	pb, ok2 := b.(VPtr)
	if ok1 && ok2 {
		if pa.Pl.Kind == PObj && pb.Pl.Kind == PObj && len(pa.Pl.Path) == 0 && len(pb.Pl.Path) == 0 && pa.Pl.Key == pb.Pl.Key {
			p := *pa.Pl
			p.Ref = Ite(c, pa.Pl.Ref, pb.Pl.Ref)
			return VPtr{&p}
		}
		if pa.Pl.Kind == PElem && pb.Pl.Kind == PElem && pa.Pl.Key == pb.Pl.Key && len(pa.Pl.Path) == 0 && len(pb.Pl.Path) == 0 {
			p := *pa.Pl
			p.Ref = Ite(c, pa.Pl.Ref, pb.Pl.Ref)
			p.Idx = Ite(c, pa.Pl.Idx, pb.Pl.Idx)
			return VPtr{&p}
		}
		return VPoison{"merge of different pointers"}
	}
	switch x := a.(type) {
	case VScalar:
		if y, ok := b.(VScalar); ok && x.T.sort == y.T.sort {
			return VScalar{Ite(c, x.T, y.T)}
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			return VSlice{Ite(c, x.Ref, y.Ref), Ite(c, x.Off, y.Off), Ite(c, x.Len, y.Len), Ite(c, x.Cap, y.Cap)}
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return VStr{Ite(c, x.Arr, y.Arr), Ite(c, x.Off, y.Off), Ite(c, x.Len, y.Len)}
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			r := VStruct{}
			for i := range x.F {
				r.F = append(r.F, ex.mergeVal(c, nil, x.F[i], y.F[i]))
			}
			return r
		}
	case VArr:
		if y, ok := b.(VArr); ok {
			r := VArr{}
			for i := range x.C {
				r.C = append(r.C, Ite(c, x.C[i], y.C[i]))
			}
			return r
		}
	}
	return VPoison{fmt.Sprintf("merge of %T and %T", a, b)}
}

func eqVal(a, b Value) bool {
	switch x := a.(type) {
	case VScalar:
		y, ok := b.(VScalar)
		return ok && x.T == y.T
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x == y
	case VStr:
		y, ok := b.(VStr)
		return ok && x == y
	case VPtr:
		y, ok := b.(VPtr)
		return ok && samePlace(x.Pl, y.Pl)
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !eqVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case VArr:
		y, ok := b.(VArr)
		if !ok || len(x.C) != len(y.C) {
			return false
		}
		for i := range x.C {
			if x.C[i] != y.C[i] {
				return false
			}
		}
		return true
	case VFunc:
		y, ok := b.(VFunc)
		return ok && x.Lit == y.Lit && x.Decl == y.Decl && x.Param == y.Param && x.Recv == nil && y.Recv == nil
	case VPoison:
		_, ok := b.(VPoison)
		return ok
	case VNil:
		_, ok := b.(VNil)
		return ok
	}
	return false
}

func (ex *Exec) merge(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if !s.dead() {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	r := live[0]
	for _, s := range live[1:] {
		r = ex.merge2(r, s)
	}
	return r
}

func (ex *Exec) merge2(a, b *State) *State {
	c := distinguish(a.pc, b.pc)
	n := &State{pc: Or(a.pc, b.pc), vars: map[types.Object]Value{}, heap: map[string]*Term{}, trace: map[types.Object]*Trace{}}
	n.alloc = Ite(c, a.alloc, b.alloc)
	for _, k := range sortedObjs(a.vars) {
		v := a.vars[k]
		if w, ok := b.vars[k]; ok {
			n.vars[k] = ex.mergeVal(c, k.Type(), v, w)
		}
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		x, ok := a.heap[k]
		if !ok {
			x = ex.heap0[k]
		}
		y, ok := b.heap[k]
		if !ok {
			y = ex.heap0[k]
		}
		n.heap[k] = mergeMem(c, x, y)
	}
	for _, k := range sortedTraces(a.trace) {
		x, y := a.trace[k], b.trace[k]
		if y == nil {
			continue
		}
		if x == y {
			n.trace[k] = x
			continue
		}
		t := &Trace{Count: Ite(c, x.Count, y.Count), Types: x.Types, RetT: x.RetT}
		for i := range x.Args {
			var cs []*Term
			for j := range x.Args[i] {
				cs = append(cs, Ite(c, x.Args[i][j], y.Args[i][j]))
			}
			t.Args = append(t.Args, cs)
		}
		for j := range x.Rets {
			t.Rets = append(t.Rets, Ite(c, x.Rets[j], y.Rets[j]))
		}
		n.trace[k] = t
	}
	return n
}

// mergeMem merges two memory terms; stores over a common base are pushed in.
func mergeMem(c, x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.op == OStore && y.op == OStore && x.args[1] == y.args[1] {
		return Store(mergeMem(c, x.args[0], y.args[0]), x.args[1], Ite(c, x.args[2], y.args[2]))
	}
	if x.op == OStore && x.args[0] == y {
		return Store(y, x.args[1], Ite(c, x.args[2], Select(y, x.args[1])))
	}
	if y.op == OStore && y.args[0] == x {
		return Store(x, y.args[1], Ite(c, Select(x, y.args[1]), y.args[2]))
	}
	return Ite(c, x, y)
}

// --- types ---

func (fr *Frame) subst(t types.Type) types.Type {
	if t == nil || len(fr.targs) == 0 {
		return t
	}
	return substType(t, fr.targs)
}

func substType(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	switch x := t.(type) {
	case *types.TypeParam:
		if r, ok := m[x]; ok {
			return r
		}
		return t
	case *types.Slice:
		return types.NewSlice(substType(x.Elem(), m))
	case *types.Pointer:
		return types.NewPointer(substType(x.Elem(), m))
	case *types.Array:
		return types.NewArray(substType(x.Elem(), m), x.Len())
	case *types.Map:
		return types.NewMap(substType(x.Key(), m), substType(x.Elem(), m))
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < x.Len(); i++ {
			v := x.At(i)
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), m)))
		}
		return types.NewTuple(vs...)
	case *types.Named:
		ta := x.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return t
		}
		var args []types.Type
		ch := false
		for i := 0; i < ta.Len(); i++ {
			a := substType(ta.At(i), m)
			if a != ta.At(i) {
				ch = true
			}
			args = append(args, a)
		}
		if !ch {
			return t
		}
		n, err := types.Instantiate(nil, x.Origin(), args, false)
		if err != nil {
			bail("instantiate %s: %v", t, err)
		}
		return n
	}
	return t
}

func (ex *Exec) typeOf(fr *Frame, e ast.Expr) types.Type {
	t := fr.info.TypeOf(e)
	if t == nil {
		bail("no type for %s", ex.src(e))
	}
	return fr.subst(t)
}

// --- constants and globals ---

func (ex *Exec) constStr(s string) VStr {
	if v, ok := ex.strConst[s]; ok {
		return v
	}
	a := Sym("str", SArr(SInt))
	var cs []*Term
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			cs = append(cs, Eq(Select(a, Int(int64(i))), Int(int64(s[i]))))
		}
	}
	ex.symAx[a] = append(ex.symAx[a], cs...)
	v := VStr{a, Int(0), Int(int64(len(s)))}
	ex.strConst[s] = v
	return v
}

func (ex *Exec) constVal(v constant.Value, t types.Type) Value {
	switch v.Kind() {
	case constant.Bool:
		return VScalar{boolT(constant.BoolVal(v))}
	case constant.String:
		return ex.constStr(constant.StringVal(v))
	case constant.Int:
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			bail("constant %s", v)
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			return VScalar{App("float_"+sanitize(v.ExactString()), SInt)}
		}
		return VScalar{IntB(b)}
	case constant.Float:
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			iv := constant.ToInt(v)
			b, _ := new(big.Int).SetString(iv.ExactString(), 10)
			return VScalar{IntB(b)}
		}
		f, _ := constant.Float64Val(v)
		return VScalar{App("float_"+sanitize(constant.MakeFloat64(f).ExactString()), SInt)}
	}
	bail("constant kind")
	return nil
}

// globalValue is the value of a package-level variable: known contents for
// variables initialised by a literal and never assigned; otherwise opaque.
func (ex *Exec) globalValue(st *State, o types.Object) Value {
	if v, ok := ex.globals[o]; ok {
		return v
	}
	vr, ok := o.(*types.Var)
	if !ok || vr.Pkg() == nil {
		bail("no value for %s", o.Name())
	}
	pkg := ex.prog.Pkgs[vr.Pkg().Path()]
	if pkg == nil || vr.Parent() != vr.Pkg().Scope() {
		if vr.Parent() != nil && vr.Parent() != vr.Pkg().Scope() {
			bail("variable %s not in scope of the symbolic state", o.Name())
		}
		if types.IsInterface(vr.Type()) {
			s := SymR("glob_"+o.Name(), bi(1), nil)
			ex.symAx[s] = append(ex.symAx[s], mk(OLe, SBool, "", nil, Int(1), s))
			v := VScalar{s}
			ex.globals[o] = v
			return v
		}
		bail("external variable %s", o.Name())
	}
	var init ast.Expr
	assigned := false
	for _, f := range pkg.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ValueSpec:
				for i, id := range x.Names {
					if pkg.Info.Defs[id] == o && len(x.Values) == len(x.Names) {
						init = x.Values[i]
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if rootObj(pkg.Info, l) == o {
						assigned = true
					}
				}
			case *ast.IncDecStmt:
				if rootObj(pkg.Info, x.X) == o {
					assigned = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND && rootObj(pkg.Info, x.X) == o {
					assigned = true
				}
			}
			return true
		})
	}
	if assigned || init == nil {
		v := ex.fresh(st, "glob_"+o.Name(), vr.Type())
		ex.globals[o] = v
		return v
	}
	fr := &Frame{info: pkg.Info, fi: &FuncInfo{Pkg: pkg}}
	if cl, ok := init.(*ast.CompositeLit); ok {
		if sl, ok := vr.Type().Underlying().(*types.Slice); ok {
			// content known in the entry memory
			n := int64(len(cl.Elts))
			ref := SymR("rom_"+o.Name(), bi(1), nil)
			ex.symAx[ref] = append(ex.symAx[ref], mk(OLe, SBool, "", nil, Int(1), ref), Lt(ref, ex.alloc0))
			entryRefs[ref] = true
			cs := comps(sl.Elem())
			if _, isBasic := sl.Elem().Underlying().(*types.Basic); isBasic {
				for i, el := range cl.Elts {
					tv := pkg.Info.Types[el]
					if tv.Value == nil {
						bail("global %s: non-constant element", o.Name())
					}
					fl := flatten(sl.Elem(), ex.constVal(tv.Value, sl.Elem()))
					for j, c := range cs {
						key := "E|" + elemKey(sl.Elem()) + "|" + c.Path
						h0 := ex.heap0[key]
						if h0 == nil {
							h0 = ex.heapGet(&State{heap: map[string]*Term{}}, key, c, true)
						}
						ex.symAx[ref] = append(ex.symAx[ref], Eq(Select(Select(h0, ref), Int(int64(i))), fl[j]))
					}
				}
				v := VSlice{ref, Int(0), Int(n), Int(n)}
				ex.globals[o] = v
				ex.notes["package variable "+o.Name()+" keeps its initial value (no assignment in the package)"] = true
				return v
			}
		}
	}
	if tv := pkg.Info.Types[init]; tv.Value != nil {
		v := ex.constVal(tv.Value, vr.Type())
		ex.globals[o] = v
		return v
	}
	_ = fr
	if types.IsInterface(vr.Type()) {
		s := SymR("glob_"+o.Name(), bi(1), nil)
		ex.symAx[s] = append(ex.symAx[s], mk(OLe, SBool, "", nil, Int(1), s))
		gl := map[types.Object]Value{}
		for oo, vv := range ex.globals {
			gl[oo] = vv
		}
		for _, oo := range sortedObjs(gl) {
			vv := gl[oo]
			if types.IsInterface(oo.Type()) {
				ex.symAx[s] = append(ex.symAx[s], Ne(s, vv.(VScalar).T))
			}
		}
		v := VScalar{s}
		ex.globals[o] = v
		ex.notes["package-level error values are non-nil and pairwise distinct"] = true
		return v
	}
	v := ex.fresh(st, "glob_"+o.Name(), vr.Type())
	ex.globals[o] = v
	return v
}

func rootObj(info *types.Info, e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			if o := info.Uses[x]; o != nil {
				return o
			}
			return info.Defs[x]
		case *ast.IndexExpr:
			e = x.X
		case *ast.SelectorExpr:
			if _, ok := info.Selections[x]; !ok {
				return info.Uses[x.Sel]
			}
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func sortedTraces(m map[types.Object]*Trace) []types.Object {
	o := map[types.Object]Value{}
	for k := range m {
		o[k] = nil
	}
	return sortedObjs(o)
}

func sortedObjs(m map[types.Object]Value) []types.Object {
	var os []types.Object
	for o := range m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool {
		if os[i].Pos() != os[j].Pos() {
			return os[i].Pos() < os[j].Pos()
		}
		return os[i].Name() < os[j].Name()
	})
	return os
}
