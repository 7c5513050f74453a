package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"time"
)

// caseLits picks a condition to split an obligation on: the one that decides
// the most conditional terms and disjunctions of the goal and of the
// definitions it rests on.
func caseLits(goal *Term, defs []defFact, used map[*Term]bool) (*Term, bool) {
	ites := false
	cnt := map[*Term]int{}
	order := map[*Term]int{}
	note := func(c *Term, w int) {
		if c.bound || c == True || c == False {
			return
		}
		if c.op == ONot {
			c = c.args[0]
		}
		if used[c] || c.op == OForall || c.op == OAnd || c.op == OOr {
			return
		}
		if _, ok := order[c]; !ok {
			order[c] = len(order)
		}
		cnt[c] += w
	}
	var atoms func(c *Term, w int)
	atoms = func(c *Term, w int) {
		switch c.op {
		case OAnd, OOr, ONot:
			for _, a := range c.args {
				atoms(a, w)
			}
		default:
			note(c, w)
		}
	}
	seen := map[*Term]bool{}
	var rec func(t *Term, w int)
	rec = func(t *Term, w int) {
		if seen[t] || t.bound {
			return
		}
		seen[t] = true
		if t.op == OIte {
			n := len(cnt)
			atoms(t.args[0], w)
			ites = ites || len(cnt) > n
		}
		if t.op == OOr {
			atoms(t, 1)
		}
		for _, a := range t.args {
			rec(a, w)
		}
	}
	rec(goal, 4)
	for _, d := range defs {
		if seen[d.app] {
			rec(d.eq, 1)
		}
	}
	var cs []*Term
	for c := range cnt {
		cs = append(cs, c)
	}
	if len(cs) == 0 {
		return nil, false
	}
	sort.Slice(cs, func(i, j int) bool {
		if cnt[cs[i]] != cnt[cs[j]] {
			return cnt[cs[i]] > cnt[cs[j]]
		}
		return order[cs[i]] < order[cs[j]]
	})
	return cs[0], ites
}

// litMap is the substitution a set of literals justifies.
func litMap(lits []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, l := range lits {
		m[l] = True
		m[Not(l)] = False
		// a term fixed to a constant
		eq, neg := l, false
		if l.op == ONot {
			eq, neg = l.args[0], true
		}
		if eq.op != OEq || len(eq.args) != 2 {
			continue
		}
		a, b := eq.args[0], eq.args[1]
		if b.op == OInt {
			a, b = b, a
		}
		if a.op != OInt || b.sort != SInt || b.op == OInt {
			continue
		}
		if !neg {
			m[b] = a
		} else if b.op == OMod && b.args[1].op == OInt && b.args[1].iv.Cmp(bi(2)) == 0 {
			m[b] = Int(1 - a.iv.Int64())
		}
	}
	return m
}

// startLits are the literals an obligation comes with: whatever makes one of
// them false makes the goal, a disjunction, true.
func startLits(goal *Term) []*Term {
	if goal.op != OOr {
		return nil
	}
	var out []*Term
	for _, d := range goal.args {
		if d.op == OOr || d.op == OForall || d.op == OEq && d.args[0].sort == SInt {
			out = append(out, startLits(d)...)
			continue
		}
		for _, c := range conjuncts(Not(d)) {
			a := c
			if a.op == ONot {
				a = a.args[0]
			}
			if a.op != OAnd && a.op != OOr && a.op != OForall && !a.bound {
				out = append(out, c)
			}
		}
	}
	return out
}

// splitProve discharges an obligation by cases on the conditions in it.
func (ex *Exec) splitProve(ob *Obligation, lits []*Term, used map[*Term]bool, depth int, limit float64, until time.Time, lock func(func())) (string, string, string) {
	left := time.Until(until).Seconds()
	if left <= 0.05 {
		return "unknown", "split", ""
	}
	var pt, pl string
	var c, nc *Term
	ites := false
	lock(func() {
		pt, pl = ex.pathQuery(ob.Assumes, ex.segDefs(ob.Seg), ob.Goal, lits)
		c, ites = caseLits(ex.splitGoal, ex.splitDefs, used)
		if c != nil {
			nc = Not(c)
		}
	})
	lim := math.Min(0.4, left)
	if !ites {
		lim = math.Min(2, left) // no conditional term is left
	}
	if c == nil || depth == 0 {
		lim = math.Min(limit, left)
	}
	s, by, m := "unknown", "", ""
	if depth < 11 || c == nil { // not worth a try right after a failed one
		s, by, _, m = discharge(pt, pl, lim, true)
	}
	if os.Getenv("GVC_SPLITLOG") != "" {
		cs := "-"
		if c != nil {
			cs = smtStr(c, nil)
		}
		if f := os.Getenv("GVC_SPLITDUMP"); f != "" && s != "proved" {
			os.WriteFile(f, []byte(pt), 0o644)
		}
		fmt.Fprintf(os.Stderr, "%d %v %s %s split %.120s\n", depth, ites, s, by, cs)
	}
	if s == "proved" || c == nil || depth == 0 {
		return s, by, m
	}
	u := map[*Term]bool{c: true}
	for k := range used {
		u[k] = true
	}
	type res struct{ s, by, m string }
	branch := func(l *Term) res {
		s, by, m := ex.splitProve(ob, append(lits[:len(lits):len(lits)], l), u, depth-1, limit, until, lock)
		return res{s, by, m}
	}
	if depth >= 9 {
		// both branches at once
		ch := make(chan res)
		go func() { ch <- branch(c) }()
		r1 := branch(nc)
		r2 := <-ch
		if r1.s == "proved" {
			r1 = r2
		}
		s, by, m = r1.s, r1.by, r1.m
	} else {
		for _, l := range []*Term{c, nc} {
			r := branch(l)
			s, by, m = r.s, r.by, r.m
			if s != "proved" {
				break
			}
		}
	}
	if s != "proved" {
		return s, by, m
	}
	return "proved", by + " (cases)", ""
}
