package main

// Verification of one function against its contract.

import (
	"context"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

type FnResult struct {
	Key         string
	Obligations []*Obligation
	Trusted     map[string]string
	Used        []string
	Inlined     []string
	Notes       []string
	NoTerm      []string
	Unsupported string
	Vacuous     string
	QuickN      int
	QuickMs     int64
	Lines       int
}

func verifyFunc(prog *Program, db *SpecDB, key string, limit float64) *FnResult {
	res := &FnResult{Key: key, Trusted: map[string]string{}}
	con := db.Funcs[key]
	fi := prog.ByKey[key]
	if con.Lemma || con.IsTable {
		fi = &FuncInfo{Key: key, Pkg: prog.pkgNamed(con.PkgName)}
	} else if fi == nil {
		res.Unsupported = "function not found in the source"
		return res
	}
	if con.IsTable {
		verifyTable(prog, con, res)
		return res
	}
	ex := NewExec(prog, db, fi, con)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					res.Unsupported = u.msg
					return
				}
				buf := make([]byte, 6000)
				buf = buf[:runtime.Stack(buf, false)]
				res.Unsupported = fmt.Sprintf("internal: %v\n%s", r, buf)
			}
		}()
		if con.Lemma {
			ex.runLemma()
			return
		}
		ex.run()
	}()
	if fi.Decl != nil {
		a, b := prog.Fset.Position(fi.Decl.Pos()), prog.Fset.Position(fi.Decl.End())
		res.Lines = b.Line - a.Line + 1
	}
	res.Obligations = ex.obs
	for k, v := range ex.trusted {
		res.Trusted[k] = v
	}
	res.Used = sortedKeys(ex.used)
	res.Inlined = sortedKeys(ex.inlined)
	res.Notes = sortedKeys(ex.notes)
	res.NoTerm = ex.noTerm
	// discharge
	if con.Timeout > 0 {
		limit = float64(con.Timeout)
	}
	var mu sync.Mutex
	misses := 0
	sem := make(chan bool, nPar)
	var wg sync.WaitGroup
	for _, ob := range ex.obs {
		if o := os.Getenv("GVC_ONLY"); o != "" && !strings.Contains(ob.Name, o) {
			ob.Status = "proved (skipped)" // development only
			continue
		}
		if ob.Goal == True {
			ob.Status, ob.By = "proved", "simplifier"
			continue
		}
		vacMu.Lock()
		text, lite := ex.query(ob.Assumes, ex.segDefs(ob.Seg), ob.Goal, ob.PC, true)
		vacMu.Unlock()
		wg.Add(1)
		sem <- true
		go func(ob *Obligation, text, lite string) {
			defer func() { <-sem; wg.Done() }()
			mu.Lock()
			lim := limit
			if misses >= 3 && lim > 2 && os.Getenv("GVC_PATIENT") == "" {
				lim = 2 // the function has failed already
			}
			mu.Unlock()
			if left := time.Until(deadline).Seconds(); left < lim {
				lim = left
			}
			s, by, ms, m := "unknown", "no time left", int64(0), ""
			if lim > 0.05 {
				s, by, ms, m = ex.prove(ob, text, lite, lim, 0)
			}
			mu.Lock()
			if s != "proved" {
				misses++
			}
			ob.Status, ob.By, ob.Ms, ob.Model = s, by, ms, m
			mu.Unlock()
			if dumpFailed != "" && strings.Contains(ob.Name, os.Getenv("GVC_ONLY")) && (s != "proved" || ms > 2000 || os.Getenv("GVC_DUMPALL") != "") {
				dump(ob, text)
			}
		}(ob, text, lite)
	}
	wg.Wait()
	// a few undecided obligations get another, longer try, one at a time
	var open []*Obligation
	for _, ob := range ex.obs {
		if ob.Status == "unknown" {
			open = append(open, ob)
		}
	}
	if misses <= 3 {
		for _, ob := range open {
			lim := math.Min(1.5*limit, time.Until(deadline).Seconds()/4)
			if lim < 3 {
				break
			}
			text, lite := ex.query(ob.Assumes, ex.segDefs(ob.Seg), ob.Goal, ob.PC, true)
			s, by, ms, m := ex.prove(ob, text, lite, lim, 77)
			ob.Ms += ms
			if s == "unknown" {
				break // the violation stands
			}
			ob.Status, ob.By, ob.Model = s, by, m
		}
	}
	// vacuity: the precondition and at least one exit must be satisfiable
	var vnames []string
	byName := map[string][]vacCheck{}
	for _, v := range ex.vacuity {
		if byName[v.name] == nil {
			vnames = append(vnames, v.name)
		}
		byName[v.name] = append(byName[v.name], v)
	}
	for _, name := range vnames {
		vs := byName[name]
		wg.Add(1)
		sem <- true
		go func(name string) {
			defer func() { <-sem; wg.Done() }()
			for _, v := range vs {
				vacMu.Lock()
				text, _ := ex.query(v.assumes, ex.segDefs(v.seg), Not(v.t), v.t, false)
				vacMu.Unlock()
				f := tmpFile(text)
				r, _ := runSolver(context.Background(), solvers[0], f, 2)
				os.Remove(f)
				mu.Lock()
				ex.vacRes[name] = append(ex.vacRes[name], r)
				mu.Unlock()
				if probe {
					if r != "unsat" {
						f := tmpFile(text)
						for k := 1; k < len(solvers) && r != "unsat"; k++ {
							r, _ = runSolver(context.Background(), solvers[k], f, 10)
						}
						os.Remove(f)
					}
					if r == "unsat" {
						mu.Lock()
						fmt.Printf("probe: %s: %s is unsatisfiable (%s)\n", ex.con.Key, name, v.where)
						mu.Unlock()
					}
					continue
				}
				if r != "unsat" {
					return // satisfiable as far as the solver can tell
				}
			}
		}(name)
	}
	wg.Wait()
	for name, rs := range ex.vacRes {
		all := len(rs) > 0
		for _, r := range rs {
			if r != "unsat" {
				all = false
			}
		}
		if all {
			res.Vacuous += name + " is unsatisfiable; "
		}
	}
	res.QuickN, res.QuickMs = ex.quickN, ex.quickMs
	return res
}

var nPar = 4
var vacMu sync.Mutex // queries are built by one goroutine at a time
var deadline = time.Now().Add(24 * time.Hour)
var dumpFailed = ""
var probe = false // report every return that cannot be reached (a development aid)

type vacCheck struct {
	name    string
	t       *Term
	assumes []*Term
	seg     int
	where   string
}

func (ex *Exec) run() {
	con, fi := ex.con, ex.fi
	sig := fi.Obj.Type().(*types.Signature)
	st := &State{pc: True, vars: map[types.Object]Value{}, heap: map[string]*Term{}, trace: map[types.Object]*Trace{}}
	ex.logical = map[string]*Term{}
	for _, n := range con.Logical {
		ex.logical[n] = Sym("any_"+n, SInt)
	}
	ex.alloc0 = SymR("alloc0", bi(1), nil)
	ex.symAx[ex.alloc0] = append(ex.symAx[ex.alloc0], mk(OLe, SBool, "", nil, Int(1), ex.alloc0))
	st.alloc = ex.alloc0
	var vars []*types.Var
	if sig.Recv() != nil {
		vars = append(vars, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		vars = append(vars, sig.Params().At(i))
	}
	if len(vars) != len(con.Params) {
		bail("the contract names %d parameters, the function has %d", len(con.Params), len(vars))
	}
	if sig.Results().Len() != len(con.Results) && len(con.Results) > 0 {
		bail("the contract names %d results, the function has %d", len(con.Results), sig.Results().Len())
	}
	ex.entryNames = map[string]SV{}
	for i, v := range vars {
		t := v.Type()
		var val Value
		if fs, ok := t.Underlying().(*types.Signature); ok && !isTypeParam(t) {
			val = VFunc{Param: v}
			tr := &Trace{Count: Int(0)}
			for j := 0; j < fs.Params().Len(); j++ {
				pt := fs.Params().At(j).Type()
				tr.Types = append(tr.Types, pt)
				var cs []*Term
				for _, c := range comps(pt) {
					cs = append(cs, ex.traceArr("arg", c))
				}
				tr.Args = append(tr.Args, cs)
			}
			if fs.Results().Len() == 1 {
				tr.RetT = fs.Results().At(0).Type()
				for _, c := range comps(tr.RetT) {
					tr.Rets = append(tr.Rets, ex.traceArr("ret", c))
				}
			}
			st.trace[v] = tr
		} else {
			val = ex.fresh(st, con.Params[i], t)
			if _, ok := t.Underlying().(*types.Pointer); ok && !con.NilOK[con.Params[i]] {
				ex.rawAssume(Ne(scalar(val), Int(0)))
				if sig.Recv() != nil && i == 0 {
					ex.notes["pointer receivers and pointer parameters are not nil"] = true
				}
			}
			ex.addModel(con.Params[i], t, val)
		}
		ex.params = append(ex.params, v)
		st.vars[v] = val
		ex.entryNames[con.Params[i]] = SV{val, t}
	}
	ex.entry = st.clone()
	ex.entryMark = symCount
	env := &senv{ex: ex, st: ex.entry, old: ex.entry, names: ex.entryNames, oldNames: ex.entryNames, pkg: fi.Pkg}
	ex.bindLets(env, con)
	ex.entryEnv = env
	for _, grp := range con.Distinct {
		for i := range grp {
			for j := i + 1; j < len(grp); j++ {
				x, y := mustParse(grp[i]), mustParse(grp[j])
				ex.rawAssume(Ne(env.refOf(env.eval(x)), env.refOf(env.eval(y))))
			}
		}
	}
	var reqs []*Term
	for _, r := range con.Requires {
		g := env.boolean(r.E)
		ex.rawAssume(g)
		reqs = append(reqs, g)
		noteDistinct(g)
	}
	tightenAll(reqs, 0)
	ex.vacRes = map[string][]string{}
	ex.vacuity = append(ex.vacuity, vacCheck{"the precondition", True, ex.assumes[:len(ex.assumes):len(ex.assumes)], ex.seg, ""})
	if con.Panics != nil {
		ex.panicOK = env.boolean(con.Panics.E)
	} else if con.MayPanic != nil {
		ex.panicOK = env.boolean(con.MayPanic.E)
	}
	ex.frameMods = ex.evalMods(env, con)
	for _, m := range con.Uses {
		env.eval(m)
	}
	for _, u := range con.Applies {
		if g := env.tryInst(u); g != nil {
			ex.rawAssume(g)
		}
	}
	ex.entryMark = symCount
	nf := &Frame{fi: fi, info: fi.Pkg.Info, sig: sig}
	ex.frames = []*Frame{nf}
	ex.stack = []string{fi.Key}
	for j := 0; j < sig.Results().Len(); j++ {
		v := sig.Results().At(j)
		nf.resObj = append(nf.resObj, v)
		if v.Name() != "" {
			st.vars[v] = zeroValueF(v.Type())
		}
	}
	ex.startSegs()
	out := ex.block(nf, st, fi.Decl.Body.List)
	if out != nil && !out.dead() {
		var vs []Value
		ok := true
		if sig.Results().Len() > 0 {
			if sig.Results().At(0).Name() == "" {
				ok = false
			} else {
				for _, o := range nf.resObj {
					vs = append(vs, out.vars[o])
				}
			}
		}
		if ok {
			nf.rets = append(nf.rets, retState{out, vs, ex.seg})
		}
	}
	for i, r := range nf.rets {
		if r.st.dead() {
			continue
		}
		ex.useSeg(r.seg)
		at := fmt.Sprintf("return %d", i+1)
		env := &senv{ex: ex, st: r.st, old: ex.entry, names: map[string]SV{}, oldNames: ex.entryNames, pkg: fi.Pkg}
		ex.bindLets(env, con)
		for k, v := range ex.entryNames {
			env.names[k] = v
		}
		for j := 0; j < sig.Results().Len(); j++ {
			n := "result"
			if j < len(con.Results) {
				n = con.Results[j]
			}
			env.names[n] = SV{r.res[j], sig.Results().At(j).Type()}
		}
		for _, u := range con.Applies {
			if g := env.tryInst(u); g != nil {
				ex.assume(r.st, g)
			}
		}
		if con.Panics != nil {
			ex.oblige(r.st, "panics exactly when "+con.Panics.Src, at, fi.Decl, Not(ex.panicOK))
		}
		var cases []*Term
		if con.Cases != nil {
			o := env.oldEnv()
			q := con.Cases
			lo, hi := o.integer(q.A[0]), o.integer(q.A[1])
			if lo.op != OInt || hi.op != OInt {
				bail("cases without constant bounds")
			}
			e := o.integer(q.A[2].A[0])
			ex.oblige(r.st, "cases "+q.A[2].A[0].String(), at, fi.Decl, And(Le(lo, e), Lt(e, hi)))
			for k := lo.iv.Int64(); k < hi.iv.Int64(); k++ {
				cases = append(cases, Eq(e, Int(k)))
			}
		}
		for _, e := range con.Ensures {
			g := env.boolean(e.E)
			parts := conjuncts(g)
			if cases != nil && g != True {
				for pi, p := range parts {
					for ci, cs := range cases {
						ex.oblige(r.st, "ensures "+e.Src, fmt.Sprintf("%s part %d case %d", at, pi+1, ci), fi.Decl, Imp(cs, p))
					}
				}
				continue
			}
			if len(parts) <= 1 {
				ex.oblige(r.st, "ensures "+e.Src, at, fi.Decl, g)
				continue
			}
			for pi, p := range parts {
				ex.oblige(r.st, "ensures "+e.Src, fmt.Sprintf("%s part %d", at, pi+1), fi.Decl, p)
			}
		}
		ex.vacuity = append(ex.vacuity, vacCheck{"every return", r.st.pc, ex.assumes[:len(ex.assumes):len(ex.assumes)], ex.seg, at})
	}
	if len(nf.rets) == 0 && con.Panics == nil && con.MayPanic == nil {
		bail("the function never returns")
	}
}

// runLemma proves a lemma: its ensures clauses from its requires clauses, the
// definitions and the lemma instances it names, for all parameter values.
func (ex *Exec) runLemma() {
	con := ex.con
	st := &State{pc: True, vars: map[types.Object]Value{}, heap: map[string]*Term{}, trace: map[types.Object]*Trace{}}
	ex.alloc0 = SymR("alloc0", bi(1), nil)
	ex.symAx[ex.alloc0] = append(ex.symAx[ex.alloc0], mk(OLe, SBool, "", nil, Int(1), ex.alloc0))
	st.alloc = ex.alloc0
	ex.entryNames = map[string]SV{}
	for i, p := range con.Params {
		switch k := con.Kinds[i]; k {
		case "", "int":
			ex.entryNames[p] = sI(Sym(p, SInt))
		case "nat":
			ex.entryNames[p] = sI(SymR(p, bi(0), nil))
			ex.rawAssume(mk(OLe, SBool, "", nil, Int(0), ex.entryNames[p].V.(VScalar).T))
		case "seq", "ints":
			el := types.Typ[types.Uint8]
			if k == "ints" {
				el = types.Typ[types.Int]
			}
			bt := types.NewSlice(el)
			var cs []*Term
			for _, c := range comps(el) {
				cs = append(cs, ex.freshElems(p, c))
			}
			off, ln := SymR(p+".off", bi(0), nil), SymR(p+".len", bi(0), nil)
			ex.rawAssume(mk(OLe, SBool, "", nil, Int(0), off))
			ex.rawAssume(mk(OLe, SBool, "", nil, Int(0), ln))
			ex.entryNames[p] = SV{VSeq{cs, off, ln, el}, bt}
		default:
			tv, err := types.Eval(ex.prog.Fset, ex.fi.Pkg.Types, 0, k)
			if err != nil {
				bail("lemma parameter %s: %v", p, err)
			}
			v := ex.fresh(st, p, tv.Type)
			if _, ok := tv.Type.Underlying().(*types.Pointer); ok {
				ex.rawAssume(Ne(scalar(v), Int(0)))
			}
			ex.entryNames[p] = SV{v, tv.Type}
		}
	}
	ex.entry = st.clone()
	env := &senv{ex: ex, st: st, old: st, names: ex.entryNames, oldNames: ex.entryNames, pkg: ex.fi.Pkg}
	ex.bindLets(env, con)
	ex.entryEnv = env
	ex.vacRes = map[string][]string{}
	for _, r := range con.Requires {
		ex.rawAssume(env.boolean(r.E))
	}
	ex.vacuity = append(ex.vacuity, vacCheck{"the precondition", True, ex.assumes[:len(ex.assumes):len(ex.assumes)], ex.seg, ""})
	for _, m := range con.Uses {
		env.eval(m)
	}
	for _, u := range con.Applies {
		ex.rawAssume(env.lemmaInst(u))
	}
	for _, e := range con.Ensures {
		g := env.boolean(e.E)
		for pi, p := range conjuncts(g) {
			ex.oblige(st, "lemma "+e.Src, fmt.Sprintf("part %d", pi+1), nil, p)
		}
	}
}

func mustParse(s string) *SExpr {
	e, err := parseSpec(s)
	if err != nil {
		bail("%v in %q", err, s)
	}
	return e
}

func (ex *Exec) traceArr(hint string, c Comp) *Term {
	if c.Sort.elem != nil {
		return Sym(hint, SArr(c.Sort))
	}
	return ex.freshElems(hint, c)
}

func (ex *Exec) addModel(name string, t types.Type, v Value) {
	switch x := v.(type) {
	case VScalar:
		ex.modelTerms = append(ex.modelTerms, x.T)
	case VSlice:
		ex.modelTerms = append(ex.modelTerms, x.Len, x.Cap)
	case VStr:
		ex.modelTerms = append(ex.modelTerms, x.Len)
	case VStruct:
		u := t.Underlying().(*types.Struct)
		for i, f := range x.F {
			ex.addModel(name+"."+u.Field(i).Name(), u.Field(i).Type(), f)
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func (r *FnResult) failures() []string {
	var out []string
	if r.Unsupported != "" {
		out = append(out, r.Key+"/verifiable: "+r.Unsupported)
	}
	if r.Vacuous != "" {
		out = append(out, r.Key+"/vacuity: "+r.Vacuous)
	}
	for _, o := range r.Obligations {
		if o.Status != "proved" {
			out = append(out, fmt.Sprintf("%s (%s) at %s: %s", o.Name, o.Status, o.Pos, strings.ReplaceAll(o.Model, "\n", " ")))
		}
	}
	return out
}

// verifyTable checks that a package-level array or slice of strings has the
// given constants as its elements and that nothing in the package can write it.
func verifyTable(prog *Program, con *Contract, res *FnResult) {
	name := strings.TrimPrefix(con.Key, "table.")
	pkg := prog.pkgNamed(con.PkgName)
	var vr *types.Var
	if pkg != nil {
		vr, _ = pkg.Types.Scope().Lookup(name).(*types.Var)
	}
	if vr == nil {
		res.Unsupported = "package variable not found in the source"
		return
	}
	got := map[int64]string{}
	n := int64(-1)
	frozen, why := true, ""
	for _, f := range pkg.Files {
		ast.Inspect(f, func(nd ast.Node) bool {
			bad := func(e ast.Expr) {
				if rootObj(pkg.Info, e) == vr {
					frozen, why = false, prog.Fset.Position(e.Pos()).String()
				}
			}
			switch x := nd.(type) {
			case *ast.ValueSpec:
				for i, id := range x.Names {
					if pkg.Info.Defs[id] != vr || i >= len(x.Values) {
						continue
					}
					cl, ok := x.Values[i].(*ast.CompositeLit)
					if !ok {
						continue
					}
					k := int64(0)
					n = 0
					for _, el := range cl.Elts {
						if kv, ok := el.(*ast.KeyValueExpr); ok {
							k, _ = constant.Int64Val(pkg.Info.Types[kv.Key].Value)
							el = kv.Value
						}
						if tv := pkg.Info.Types[el]; tv.Value != nil && tv.Value.Kind() == constant.String {
							got[k] = constant.StringVal(tv.Value)
						}
						k++
						if k > n {
							n = k
						}
					}
					if a, ok := vr.Type().Underlying().(*types.Array); ok {
						for k := n; k < a.Len(); k++ {
							got[k] = ""
						}
						n = a.Len()
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					bad(l)
				}
			case *ast.IncDecStmt:
				bad(x.X)
			case *ast.SliceExpr:
				bad(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					bad(x.X)
				}
			case *ast.RangeStmt:
				if x.Key != nil {
					bad(x.Key)
				}
				if x.Value != nil {
					bad(x.Value)
				}
			}
			return true
		})
	}
	add := func(what string, ok bool, model string) {
		o := &Obligation{Name: con.Key + "/" + what, Kind: "table", Fn: con.Key, Goal: True, Status: "proved", By: "constants", Pos: prog.Fset.Position(vr.Pos()).String()}
		if !ok {
			o.Status, o.Model = "failed", model
		}
		res.Obligations = append(res.Obligations, o)
	}
	add("never written", frozen, "may be written at "+why)
	add("length", n == int64(len(con.Table)), fmt.Sprintf("%d elements, expected %d", n, len(con.Table)))
	for i, w := range con.Table {
		s, ok := got[int64(i)]
		add(fmt.Sprintf("element %d", i), ok && s == w, fmt.Sprintf("%q, expected %q", s, w))
	}
}

// prove decides one obligation: as it is, path by path, by cases, and at
// length; salt other than 0 puts the hypotheses in another order.
func (ex *Exec) prove(ob *Obligation, text, lite string, lim float64, salt int64) (string, string, int64, string) {
	mix := func(s string) string {
		if salt == 0 || s == "" {
			return s
		}
		return shuffle(s, salt)
	}
	lock := func(f func()) { vacMu.Lock(); defer vacMu.Unlock(); f() }
	text, lite = mix(text), mix(lite)
	var paths [][]*Term
	lock(func() { paths = pathsOf(ob.PC) })
	first := 3.0
	if paths != nil {
		first = 0.4
	}
	t0 := time.Now()
	until := t0.Add(time.Duration(3 * lim * 1e9))
	s, by, _, m := discharge(text, lite, math.Min(lim, first), true)
	if s == "unknown" && paths != nil {
		s = "proved"
		for _, p := range paths {
			var pt, pl string
			lock(func() { pt, pl = ex.pathQuery(ob.Assumes, ex.segDefs(ob.Seg), ob.Goal, p) })
			s, by, _, m = discharge(mix(pt), mix(pl), math.Min(lim, 4), true)
			if s == "unknown" && lim > 2 {
				var start []*Term
				lock(func() { start = append(startLits(ob.Goal), p...) })
				s, by, m = ex.splitProve(ob, start, map[*Term]bool{}, 10, lim/2, until, lock)
			}
			if s != "proved" {
				break
			}
		}
	}
	if s == "unknown" && paths == nil && lim > 2 {
		var start []*Term
		lock(func() { start = startLits(ob.Goal) })
		s, by, m = ex.splitProve(ob, start, map[*Term]bool{}, 11, lim/2, until, lock)
	}
	if s == "unknown" && lim > 3 {
		s, by, _, m = discharge(text, lite, lim, true)
	}
	return s, by, time.Since(t0).Milliseconds(), m
}
