package main

// Translation of obligations to SMT-LIB and the solver portfolio.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type solverCfg struct {
	name string
	args func(file string, sec float64) []string
	mod  string // text placed before the query
}

var solvers = []solverCfg{
	{"z3-5 (E-matching)", func(f string, s float64) []string {
		return []string{"z3-new", fmt.Sprintf("-t:%d", int(s*1000)), "smt.mbqi=false", "smt.auto_config=false", "smt.arith.solver=6", f}
	}, ""},
	{"z3-5", func(f string, s float64) []string {
		return []string{"z3-new", fmt.Sprintf("-t:%d", int(s*1000)), f}
	}, ""},
	{"cvc5", func(f string, s float64) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", int(s*1000)), "--produce-models", f}
	}, ""},
	{"z3-4.8", func(f string, s float64) []string {
		return []string{"z3", fmt.Sprintf("-t:%d", int(s*1000)), "smt.arith.solver=2", "smt.mbqi=false", "smt.auto_config=false", f}
	}, ""},
	{"cvc5 (nl)", func(f string, s float64) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", int(s*1000)), "--nl-ext-tplanes", "--enum-inst", f}
	}, ""},
}

func collectSyms(t *Term, memo map[*Term]bool, out map[*Term]bool) {
	if memo[t] {
		return
	}
	memo[t] = true
	if t.op == OSym {
		out[t] = true
	}
	if t.op == OApp {
		// uninterpreted functions count as symbols for relevance only through
		// their arguments
	}
	for _, a := range t.args {
		collectSyms(a, memo, out)
	}
}

type symsOf struct{ m map[*Term]map[*Term]bool }

func (s *symsOf) get(t *Term) map[*Term]bool {
	if r, ok := s.m[t]; ok {
		return r
	}
	r := map[*Term]bool{}
	collectSyms(t, map[*Term]bool{}, r)
	s.m[t] = r
	return r
}

// literals of a path condition, for discarding hypotheses of other paths
func pcLits(t *Term) map[*Term]bool {
	m := map[*Term]bool{}
	for _, c := range conjuncts(t) {
		m[c] = true
	}
	return m
}

func otherPath(h *Term, lits map[*Term]bool) bool {
	if h.op != OOr || h.name != "=>" {
		return false
	}
	for _, c := range conjuncts(Not(h.args[0])) {
		if lits[Not(c)] {
			return true
		}
	}
	return false
}

// propagate drops the premises of hypotheses that are themselves hypotheses
// (or literals of the path condition), until nothing changes.
func propagate(hyps []*Term, lits map[*Term]bool) []*Term {
	known := map[*Term]bool{}
	for l := range lits {
		known[l] = true
	}
	add := func(t *Term) bool {
		ch := false
		for _, c := range conjuncts(t) {
			if !known[c] {
				known[c] = true
				ch = true
			}
		}
		return ch
	}
	var simp func(t *Term) *Term
	simp = func(t *Term) *Term {
		if t.op == OAnd {
			var cs []*Term
			for _, c := range t.args {
				cs = append(cs, simp(c))
			}
			return And(cs...)
		}
		if t.op != OOr || t.name != "=>" {
			return t
		}
		var pre []*Term
		for _, c := range conjuncts(Not(t.args[0])) {
			if !known[c] {
				pre = append(pre, c)
			}
		}
		return Imp(And(pre...), simp(t.args[1]))
	}
	out := append([]*Term{}, hyps...)
	for ch := true; ch; {
		ch = false
		for i, h := range out {
			n := simp(h)
			out[i] = n
			if add(n) {
				ch = true
			}
		}
	}
	return out
}

// query builds the SMT-LIB text of hyps |- goal; it is valid iff unsat.
func (ex *Exec) query(hyps []*Term, defs []defFact, goal *Term, pc *Term, wantModel bool) (string, string) {
	return ex.queryF(hyps, defs, ex.facts, goal, pc, wantModel)
}

// pathsOf splits a path condition at its disjunctions into the conditions of
// single paths; nil if there is one path or too many.
func pathsOf(pc *Term) [][]*Term {
	const max = 12
	paths := [][]*Term{nil}
	for _, c := range conjuncts(pc) {
		alts := [][]*Term{{c}}
		if c.op == OOr && c.name != "=>" {
			alts = nil
			for _, a := range c.args {
				if p := pathsOf(a); p != nil {
					alts = append(alts, p...)
				} else {
					alts = append(alts, conjuncts(a))
				}
			}
		}
		var n [][]*Term
		for _, p := range paths {
			for _, a := range alts {
				n = append(n, append(p[:len(p):len(p)], a...))
			}
		}
		if len(n) > max {
			return nil
		}
		paths = n
	}
	if len(paths) < 2 {
		return nil
	}
	return paths
}

// pathQuery is the query of an obligation on one path: the literals of the
// path condition decide the conditional terms they occur in.
func (ex *Exec) pathQuery(hyps []*Term, defs []defFact, goal *Term, lits []*Term) (string, string) {
	m := litMap(lits)
	memo := map[*Term]*Term{}
	sub := func(ts []*Term) []*Term {
		var out []*Term
		for _, t := range ts {
			out = append(out, substMemo(t, m, memo))
		}
		return out
	}
	var nd []defFact
	for _, d := range defs {
		nd = append(nd, defFact{substMemo(d.app, m, memo), substMemo(d.eq, m, memo)})
	}
	pc := And(lits...)
	g := substMemo(goal, m, memo)
	ex.splitGoal, ex.splitDefs = g, nd
	return ex.queryF(sub(hyps), nd, sub(ex.facts), Imp(pc, g), pc, true)
}

func (ex *Exec) queryF(hyps []*Term, defs []defFact, allFacts []*Term, goal *Term, pc *Term, wantModel bool) (string, string) {
	so := ex.so
	lits := pcLits(pc)
	hyps = propagate(hyps, lits)
	reached := map[*Term]bool{}
	var used []*Term
	usedSet := map[*Term]bool{}
	var queue []*Term
	reach := func(m map[*Term]bool) {
		k := len(queue)
		for s := range m {
			if !reached[s] {
				reached[s] = true
				queue = append(queue, s)
			}
		}
		// in a fixed order: the solvers are sensitive to that of the axioms
		q := queue[k:]
		sort.Slice(q, func(i, j int) bool { return q[i].name < q[j].name })
	}
	ng := Not(goal)
	reach(so.get(ng))
	var cand []*Term
	for _, h := range hyps {
		if h == True || otherPath(h, lits) {
			continue
		}
		cand = append(cand, h)
	}
	for len(queue) > 0 {
		for len(queue) > 0 {
			s := queue[0]
			queue = queue[1:]
			for _, a := range ex.symAx[s] {
				if !usedSet[a] {
					usedSet[a] = true
					used = append(used, a)
					reach(so.get(a))
				}
			}
		}
		var rest []*Term
		for _, h := range cand {
			ss := so.get(h)
			hit := len(ss) == 0
			for s := range ss {
				if reached[s] {
					hit = true
					break
				}
			}
			if hit {
				if !usedSet[h] {
					usedSet[h] = true
					used = append(used, h)
					reach(ss)
				}
			} else {
				rest = append(rest, h)
			}
		}
		cand = rest
		var later []defFact
		for _, d := range defs {
			ok := true
			for s := range so.get(d.app) {
				ok = ok && reached[s]
			}
			if !ok {
				later = append(later, d)
			} else if !usedSet[d.eq] {
				usedSet[d.eq] = true
				used = append(used, d.eq)
				reach(so.get(d.eq))
			}
		}
		defs = later
	}
	// unconditional facts about terms: only over reached symbols
	var facts []*Term
	for _, f := range allFacts {
		ok := true
		for s := range so.get(f) {
			if !reached[s] {
				ok = false
				break
			}
		}
		if ok && !usedSet[f] {
			usedSet[f] = true
			facts = append(facts, f)
		}
	}
	// skolemise the goal and instantiate nothing else
	all := append(append([]*Term{}, used...), facts...)
	var asserts []*Term
	for i, h := range all {
		if h.op == ONot && h.args[0].op == OForall {
			all[i] = And(skolem(h)...)
		}
	}
	for _, h := range all {
		asserts = append(asserts, rebaseHyps(h)...)
	}
	gs := skolem(ng)
	var seeds []*Term
	for _, g := range gs {
		seeds = append(seeds, rebaseHyps(g)...)
	}
	asserts = append(asserts, seeds...)
	full := smtText(asserts, ex.modelTerms, wantModel)
	if len(asserts) < 40 {
		return full, ""
	}
	var lite []*Term
	for _, h := range relevant(all, gs) {
		lite = append(lite, rebaseHyps(h)...)
	}
	if 10*len(lite) > 7*(len(asserts)-len(seeds)) {
		return full, ""
	}
	return full, smtText(append(lite, seeds...), nil, false)
}

// relevant selects the hypotheses that share a rare part with the goal, or
// with those selected so far, for a few rounds.  A proof from them is a proof.
func relevant(hyps, seeds []*Term) []*Term {
	type feat struct {
		t *Term
		s string
	}
	feats := func(t *Term) map[feat]bool {
		out := map[feat]bool{}
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			switch t.op {
			case OApp:
				out[feat{nil, t.name}] = true
				if !t.bound {
					out[feat{t, ""}] = true
				}
			case OSelect, OSym, OMul, ODiv, OMod:
				if !t.bound && t.sort == SInt {
					out[feat{t, ""}] = true
				}
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return out
	}
	fs := make([]map[feat]bool, len(hyps))
	freq := map[feat]int{}
	for i, h := range hyps {
		fs[i] = feats(h)
		for f := range fs[i] {
			freq[f]++
		}
	}
	limit := len(hyps) / 12
	if limit < 12 {
		limit = 12
	}
	reached := map[feat]bool{}
	for _, g := range seeds {
		for f := range feats(g) {
			reached[f] = true
		}
	}
	in := make([]bool, len(hyps))
	for round := 0; round < 3; round++ {
		var add []int
		for i := range hyps {
			if in[i] {
				continue
			}
			hit := len(fs[i]) == 0
			for f := range fs[i] {
				if reached[f] && freq[f] <= limit {
					hit = true
					break
				}
			}
			if hit {
				add = append(add, i)
			}
		}
		for _, i := range add {
			in[i] = true
			for f := range fs[i] {
				reached[f] = true
			}
		}
	}
	var out []*Term
	for i, h := range hyps {
		small := in[i]
		if !small && h.size <= 12 {
			// short facts about parts that matter
			small = true
			for f := range fs[i] {
				small = small && reached[f]
			}
		}
		if small {
			out = append(out, h)
		}
	}
	return out
}

// skolem replaces top-level negated universal quantifiers by fresh constants.
func skolem(t *Term) []*Term {
	if t.op == OAnd {
		var out []*Term
		for _, a := range t.args {
			out = append(out, skolem(a)...)
		}
		return out
	}
	if t.op == ONot {
		x := t.args[0]
		if x.op == OOr && x.name == "=>" {
			return append(skolem(Not(x.args[0])), skolem(Not(x.args[1]))...)
		}
		if x.op == OForall {
			m := map[*Term]*Term{}
			for _, v := range x.bvars {
				m[v] = Sym("sk_"+v.name, SInt)
			}
			return skolem(Not(Subst(x.args[0], m)))
		}
		if x.op == OOr {
			var out []*Term
			for _, a := range x.args {
				out = append(out, skolem(Not(a))...)
			}
			return out
		}
	}
	return []*Term{t}
}

func smtText(asserts []*Term, modelTerms []*Term, wantModel bool) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	if wantModel {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	syms := map[*Term]bool{}
	memo := map[*Term]bool{}
	apps := map[string]bool{}
	refs := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if t.op == OApp {
			apps[t.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		collectSyms(a, memo, syms)
		walk(a)
	}
	var names []*Term
	for s := range syms {
		names = append(names, s)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].id < names[j].id })
	for _, s := range names {
		fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", s.name, s.sort.name)
	}
	var fs []string
	for f := range apps {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		d := funcDecls[f]
		var as []string
		for _, a := range d.args {
			as = append(as, a.name)
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", f, strings.Join(as, " "), d.res.name)
	}
	nm := map[*Term]string{}
	for _, t := range order {
		if t.bound || len(t.args) == 0 || refs[t] < 2 || t.size < 8 {
			continue
		}
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort.name, smtStr(t, nm))
		nm[t] = n
	}
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", smtStr(a, nm))
	}
	sb.WriteString("(check-sat)\n")
	if wantModel {
		var ms []string
		for _, m := range modelTerms {
			in := map[*Term]bool{}
			collectSyms(m, map[*Term]bool{}, in)
			ok := true
			for s := range in {
				if !syms[s] {
					ok = false
				}
			}
			if ok {
				ms = append(ms, smtStr(m, nil))
			}
		}
		if len(ms) > 0 {
			fmt.Fprintf(&sb, "(get-value (%s))\n", strings.Join(ms, " "))
		}
	}
	return sb.String()
}

var tmpDir string
var tmpOnce sync.Once
var qCount int
var qMu sync.Mutex

func tmpFile(text string) string {
	tmpOnce.Do(func() {
		d, err := os.MkdirTemp("", "gvc")
		if err != nil {
			panic(err)
		}
		tmpDir = d
	})
	qMu.Lock()
	qCount++
	f := filepath.Join(tmpDir, fmt.Sprintf("q%d.smt2", qCount))
	qMu.Unlock()
	os.WriteFile(f, []byte(text), 0o600)
	return f
}

func cleanTmp() {
	if tmpDir != "" {
		os.RemoveAll(tmpDir)
	}
}

var cacheDir = os.Getenv("GVC_CACHE") // development only; never set by the registered checks

func runSolver(parent context.Context, cfg solverCfg, file string, sec float64) (string, string) {
	args := cfg.args(file, sec)
	ctx, cancel := context.WithTimeout(parent, time.Duration((sec+2)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	first, rest, _ := strings.Cut(strings.TrimSpace(s), "\n")
	first = strings.TrimSpace(first)
	switch first {
	case "unsat", "sat", "unknown":
		return first, rest
	}
	if strings.Contains(s, "error") && !strings.Contains(s, "timeout") && os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "solver error %s: %s\n", args[0], s)
	}
	return "unknown", s
}

// quickProve is used to select automatic loop invariants.
func (ex *Exec) quickProve(st *State, g *Term) bool {
	if g == True || st.dead() {
		return true
	}
	if g == False {
		return false
	}
	goal := Imp(st.pc, g)
	if goal == True {
		return true
	}
	mark := symCount
	text, _ := ex.query(ex.assumes, ex.defFacts, goal, st.pc, false)
	_ = mark
	key := ""
	if cacheDir != "" {
		h := sha256.Sum256([]byte("quick" + text))
		key = filepath.Join(cacheDir, hex.EncodeToString(h[:16]))
		if b, err := os.ReadFile(key); err == nil {
			return string(b) == "1"
		}
	}
	f := tmpFile(text)
	defer os.Remove(f)
	ex.quickN++
	t0 := time.Now()
	r, _ := runSolver(context.Background(), solvers[0], f, 2)
	ex.quickMs += time.Since(t0).Milliseconds()
	if key != "" {
		v := "0"
		if r == "unsat" {
			v = "1"
		}
		os.WriteFile(key, []byte(v), 0o600)
	}
	return r == "unsat"
}

// discharge runs the portfolio on one obligation text.
func discharge(text, lite string, limit float64, wantModel bool) (status, by string, ms int64, model string) {
	key := ""
	if cacheDir != "" {
		h := sha256.Sum256([]byte(text))
		key = filepath.Join(cacheDir, hex.EncodeToString(h[:16]))
		if b, err := os.ReadFile(key); err == nil {
			return "proved", string(b), 0, ""
		}
	}
	f := tmpFile(text)
	defer os.Remove(f)
	fl := ""
	if lite != "" {
		fl = tmpFile(lite)
		defer os.Remove(fl)
	}
	t0 := time.Now()
	fin := func(st, name, rest string) (string, string, int64, string) {
		if st == "proved" && key != "" {
			os.WriteFile(key, []byte(name), 0o600)
		}
		return st, name, time.Since(t0).Milliseconds(), rest
	}
	// a short first try, then the portfolio races
	first := 0.4
	if limit < first {
		first = limit
	}
	switch r, rest := runSolver(context.Background(), solvers[0], f, first); r {
	case "unsat":
		return fin("proved", solvers[0].name, "")
	case "sat":
		return fin("failed", solvers[0].name, rest)
	}
	if fl != "" && limit > first {
		if r, _ := runSolver(context.Background(), solvers[0], fl, first); r == "unsat" {
			return fin("proved", solvers[0].name, "")
		}
	}
	type answer struct {
		cfg     solverCfg
		r, rest string
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan answer, 3*len(solvers))
	n := 0
	for _, s := range solvers {
		n++
		go func(s solverCfg) {
			r, rest := runSolver(ctx, s, f, limit)
			ch <- answer{s, r, rest}
		}(s)
	}
	if fl != "" {
		for _, s := range solvers[:3] {
			n++
			go func(s solverCfg) {
				r, _ := runSolver(ctx, s, fl, limit)
				if r != "unsat" {
					r = "unknown" // some hypotheses are missing
				}
				ch <- answer{s, r, ""}
			}(s)
		}
	}
	// the same obligation in other orders
	for i := 1; i <= 2; i++ {
		n++
		go func(i int) {
			select {
			case <-ctx.Done():
				ch <- answer{solvers[0], "unknown", ""}
				return
			case <-time.After(time.Duration(i) * 500 * time.Millisecond):
			}
			fs := tmpFile(shuffle(text, int64(i)))
			defer os.Remove(fs)
			r, rest := runSolver(ctx, solvers[0], fs, limit)
			ch <- answer{solvers[0], r, rest}
		}(i)
	}
	for ; n > 0; n-- {
		a := <-ch
		switch a.r {
		case "unsat":
			return fin("proved", a.cfg.name, "")
		case "sat":
			return fin("failed", a.cfg.name, a.rest)
		}
	}
	return "unknown", "", time.Since(t0).Milliseconds(), ""
}

// shuffle permutes the assertions of a query.
func shuffle(text string, seed int64) string {
	lines := strings.Split(text, "\n")
	var at []int
	for i, l := range lines {
		if strings.HasPrefix(l, "(assert ") {
			at = append(at, i)
		}
	}
	out := append([]string{}, lines...)
	for i, j := range rand.New(rand.NewSource(seed)).Perm(len(at)) {
		out[at[i]] = lines[at[j]]
	}
	return strings.Join(out, "\n")
}
