package main

// Contract files: parsing of contracts and of the specification language.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type SExpr struct {
	Kind string // num, str, id, bin, un, call, field, index, slice, forall, exists, cmp, bool
	S    string
	N    *big.Int
	A    []*SExpr
	Src  string
}

type Clause struct {
	E    *SExpr
	Src  string
	Name string
}

// EndItem is a lemma instance used, or an assertion proved, at the end of a
// loop's body.
type EndItem struct {
	Use    *SExpr
	Assert *Clause
}

type LoopSpec struct {
	Ends []EndItem

	Inv       []Clause
	Dec       []*SExpr
	DecSrc    string
	Unroll    int
	NoDec     bool
	Instances []*SExpr // spec terms to mention (instantiates definitions)
	Applies   []*SExpr // lemma instances used
}

type Contract struct {
	Key          string
	Params       []string // includes the receiver
	Results      []string
	Props        []string
	Requires     []Clause
	Ensures      []Clause
	Modifies     []*SExpr
	ModSrc       []string
	Panics       *Clause // exact panic condition, over the entry state
	MayPanic     *Clause // panics only if
	NoPanicCheck bool
	Loops        map[int]*LoopSpec
	Trusted      bool   // assumed, body not verified
	Why          string // reason for trusted
	File         string
	Ghost        []string
	Uses         []*SExpr
	Lets         []LetDef
	NilOK        map[string]bool
	Inline       map[string]bool // callees to inline although they have a contract
	Unfold       int             // how deep recursive definitions are unfolded
	Logical      []string
	Timeout      int
	Partial      bool
	Rec          []*SExpr // decreases measure for recursive functions
	Distinct     [][]string
	Cases        *SExpr // case split of the postconditions: forall-shaped (name, lo..hi, expression)
	AlwaysInline bool
	Reveal       map[string]bool // opaque definitions unfolded here
	Cuts         []*CutSpec
	Lemma        bool     // a statement about specification terms, proved on its own
	Kinds        []string // lemma: parameter types
	PkgName      string
	Applies      []*SExpr // lemma instances used
	Ord          int
	Table        []string // the string constants of a package variable that is never assigned
	IsTable      bool
	IsMeasure    bool
}

type LetDef struct {
	Name string
	E    *SExpr
}

type SpecDef struct {
	Name   string
	Params []string
	Body   *SExpr
	Rec    bool // uninterpreted with definitional unfolding
	Bool   bool
	Kinds  []string // parameter kinds for rec: int or bytes
	Depth  int
	Opaque bool // uninterpreted, unfolded at ground instances only
	useLen int  // whether the value may depend on a sequence's length: 0 unknown, 1 no, 2 yes
	// measure of a (mutually) recursive definition, proved to decrease
	MKinds  map[string]string
	Measure []*SExpr
	pkg     string
}

type SpecDB struct {
	Funcs map[string]*Contract
	Defs  map[string]*SpecDef
	Order []string
}

func LoadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{Funcs: map[string]*Contract{}, Defs: map[string]*SpecDef{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := db.loadFile(f); err != nil {
			return nil, err
		}
	}
	if err := db.recursion(); err != nil {
		return nil, err
	}
	return db, nil
}

func (db *SpecDB) loadFile(path string) error {
	raw, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	// logical lines: indented-more continuation with trailing backslash
	var lines []string
	var nums []int
	cur := ""
	start := 0
	for i, l := range strings.Split(string(raw), "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		t := strings.TrimRight(l, " \t\r")
		if cur == "" {
			start = i + 1
		}
		if strings.HasSuffix(t, "\\") {
			cur += strings.TrimSuffix(t, "\\") + " "
			continue
		}
		cur += t
		if strings.TrimSpace(cur) != "" {
			lines = append(lines, cur)
			nums = append(nums, start)
		}
		cur = ""
	}
	pkg := ""
	var c *Contract
	var loop *LoopSpec
	var cut *CutSpec
	var lastDef *SpecDef
	for li, l := range lines {
		fail := func(format string, a ...any) error {
			return fmt.Errorf("%s:%d: %s", path, nums[li], fmt.Sprintf(format, a...))
		}
		l = strings.TrimSpace(l)
		word, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		expr := func() (*SExpr, error) {
			e, err := parseSpec(rest)
			if err != nil {
				return nil, fail("%v in %q", err, rest)
			}
			return e, nil
		}
		switch word {
		case "package":
			pkg = rest
		case "ghost":
			// ghost <pkgpath.Type> <name> <int|bool|string>
			f := strings.Fields(rest)
			if len(f) != 3 {
				return fail("ghost <type> <name> <int|bool|string>")
			}
			kt := map[string]types.Type{"int": types.Typ[types.Int], "bool": types.Typ[types.Bool], "string": types.Typ[types.String]}[f[2]]
			if kt == nil {
				return fail("ghost type %s", f[2])
			}
			ghosts = append(ghosts, ghostDef{f[0], "$" + f[1], kt})
		case "def", "rec", "recb", "opaque", "opaqueb":
			head, body, ok := strings.Cut(rest, " = ")
			if !ok {
				return fail("def without =")
			}
			he, err := parseSpec(head)
			if err != nil || he.Kind != "call" {
				return fail("bad def head %q: %v", head, err)
			}
			be, err := parseSpec(body)
			if err != nil {
				return fail("%v in %q", err, body)
			}
			d := &SpecDef{Name: he.S, Body: be, Rec: word != "def", Bool: strings.HasSuffix(word, "b"), Opaque: strings.HasPrefix(word, "opaque")}
			for _, a := range he.A {
				d.Params = append(d.Params, a.S)
			}
			if _, dup := db.Defs[d.Name]; dup {
				return fail("duplicate definition %s", d.Name)
			}
			d.pkg = pkg
			db.Defs[d.Name] = d
			lastDef = d
		case "measure":
			// measure [d: seq, ... |] e1, e2, ...: of the definition above
			if lastDef == nil || !lastDef.Rec || lastDef.Opaque {
				return fail("measure without a recursive definition")
			}
			ks, ms, ok := strings.Cut(rest, "|")
			if !ok {
				ks, ms = "", rest
			}
			lastDef.MKinds = map[string]string{}
			for _, a := range splitNames(ks) {
				n, k, _ := strings.Cut(a, ":")
				lastDef.MKinds[strings.TrimSpace(n)] = strings.TrimSpace(k)
			}
			for _, part := range splitTop(ms) {
				e, err := parseSpec(part)
				if err != nil {
					return fail("%v in %q", err, part)
				}
				lastDef.Measure = append(lastDef.Measure, e)
			}
		case "lemma":
			i, j := strings.Index(rest, "("), strings.LastIndex(rest, ")")
			c = &Contract{Key: "lemma." + strings.TrimSpace(rest[:i]), Lemma: true, PkgName: pkg, Loops: map[int]*LoopSpec{}, File: path, NilOK: map[string]bool{}, Reveal: map[string]bool{}, Inline: map[string]bool{}, Ord: len(db.Order)}
			for _, a := range splitNames(rest[i+1 : j]) {
				n, k, _ := strings.Cut(a, ":")
				c.Params = append(c.Params, strings.TrimSpace(n))
				c.Kinds = append(c.Kinds, strings.TrimSpace(k))
			}
			if _, dup := db.Funcs[c.Key]; dup {
				return fail("duplicate lemma %s", c.Key)
			}
			db.Funcs[c.Key] = c
			db.Order = append(db.Order, c.Key)
			loop, cut = nil, nil
		case "use":
			e, err := expr()
			if err != nil {
				return err
			}
			if cut != nil {
				cut.Applies = append(cut.Applies, e)
			} else if loop != nil {
				loop.Applies = append(loop.Applies, e)
				loop.Ends = append(loop.Ends, EndItem{Use: e})
			} else {
				c.Applies = append(c.Applies, e)
			}
		case "fn":
			// fn Name(params) (results)
			i := strings.Index(rest, "(")
			name := strings.TrimSpace(rest[:i])
			j := strings.Index(rest, ")")
			c = &Contract{Key: pkg + "." + name, Loops: map[int]*LoopSpec{}, File: path, NilOK: map[string]bool{}, Reveal: map[string]bool{}, Inline: map[string]bool{}}
			c.Params = splitNames(rest[i+1 : j])
			tail := strings.TrimSpace(rest[j+1:])
			if tail != "" {
				tail = strings.TrimPrefix(tail, "(")
				tail = strings.TrimSuffix(tail, ")")
				c.Results = splitNames(tail)
			}
			if _, dup := db.Funcs[c.Key]; dup {
				return fail("duplicate contract %s", c.Key)
			}
			db.Funcs[c.Key] = c
			db.Order = append(db.Order, c.Key)
			loop, cut = nil, nil
		case "table":
			// table variable: its elements follow, as quoted strings
			c = &Contract{Key: "table." + rest, IsTable: true, PkgName: pkg, File: path}
			if _, dup := db.Funcs[c.Key]; dup {
				return fail("duplicate table %s", rest)
			}
			db.Funcs[c.Key] = c
			db.Order = append(db.Order, c.Key)
			loop, cut = nil, nil
		case "row":
			for rest != "" {
				q, err := strconv.QuotedPrefix(rest)
				if err != nil {
					return fail("bad row %q", rest)
				}
				u, _ := strconv.Unquote(q)
				c.Table = append(c.Table, u)
				rest = strings.TrimSpace(rest[len(q):])
			}
		case "props":
			c.Props = append(c.Props, strings.Fields(rest)...)
		case "requires", "ensures", "panics", "panics_only_if":
			e, err := expr()
			if err != nil {
				return err
			}
			cl := Clause{E: e, Src: rest}
			switch word {
			case "requires":
				c.Requires = append(c.Requires, cl)
			case "ensures":
				c.Ensures = append(c.Ensures, cl)
			case "panics":
				c.Panics = &cl
			case "panics_only_if":
				c.MayPanic = &cl
			}
		case "modifies":
			for _, part := range splitTop(rest) {
				e, err := parseSpec(part)
				if err != nil {
					return fail("%v in %q", err, part)
				}
				c.Modifies = append(c.Modifies, e)
				c.ModSrc = append(c.ModSrc, part)
			}
		case "let":
			n, b, ok := strings.Cut(rest, " = ")
			if !ok {
				return fail("let without =")
			}
			e, err := parseSpec(b)
			if err != nil {
				return fail("%v in %q", err, b)
			}
			c.Lets = append(c.Lets, LetDef{strings.TrimSpace(n), e})
		case "trusted":
			c.Trusted = true
			c.Why = rest
		case "inlined":
			c.AlwaysInline = true
		case "partial":
			c.Partial = true
		case "nilok":
			for _, n := range strings.Fields(rest) {
				c.NilOK[n] = true
			}
		case "inline":
			for _, n := range strings.Fields(rest) {
				c.Inline[n] = true
			}
		case "reveal":
			for _, n := range strings.Fields(rest) {
				if cut != nil {
					cut.Reveal[n] = true
				} else {
					c.Reveal[n] = true
				}
			}
		case "hide": // the contract's revealed definitions are opaque again after this cut
			if cut == nil {
				return fail("hide outside of a cut")
			}
			for _, n := range strings.Fields(rest) {
				cut.Hide[n] = true
			}
		case "cut":
			cut = &CutSpec{Anchor: rest, Reveal: map[string]bool{}, Hide: map[string]bool{}}
			c.Cuts = append(c.Cuts, cut)
			loop = nil
		case "assert":
			e, err := expr()
			if err != nil {
				return err
			}
			if cut == nil && loop != nil { // proved at the end of the body, in the order written
				loop.Ends = append(loop.Ends, EndItem{Assert: &Clause{E: e, Src: rest}})
				break
			}
			if cut == nil {
				return fail("assert outside of a cut or a loop")
			}
			cut.Asserts = append(cut.Asserts, Clause{E: e, Src: rest})
		case "cases":
			// cases e in lo..hi
			i := strings.LastIndex(rest, " in ")
			if i < 0 {
				return fail("cases without a range")
			}
			e, err := parseSpec("forall _c in " + rest[i+4:] + " :: " + rest[:i] + " == _c")
			if err != nil {
				return fail("%v in %q", err, rest)
			}
			c.Cases = e
		case "distinct":
			c.Distinct = append(c.Distinct, strings.Fields(rest))
		case "timeout":
			fmt.Sscanf(rest, "%d", &c.Timeout)
		case "logical":
			// names of arbitrary integers: what is proved of them holds for all
			c.Logical = append(c.Logical, strings.Fields(rest)...)
		case "unfold":
			fmt.Sscanf(rest, "%d", &c.Unfold)
		case "loop":
			var k int
			fmt.Sscanf(rest, "%d", &k)
			loop = &LoopSpec{}
			c.Loops[k] = loop
			cut = nil
		case "invariant":
			e, err := expr()
			if err != nil {
				return err
			}
			loop.Inv = append(loop.Inv, Clause{E: e, Src: rest})
		case "decreases":
			var es []*SExpr
			for _, part := range splitTop(rest) {
				e, err := parseSpec(part)
				if err != nil {
					return fail("%v in %q", err, part)
				}
				es = append(es, e)
			}
			if loop != nil {
				loop.Dec = es
				loop.DecSrc = rest
			} else {
				c.Rec = es
			}
		case "unroll":
			fmt.Sscanf(rest, "%d", &loop.Unroll)
		case "nodecreases":
			loop.NoDec = true
		case "mention":
			e, err := expr()
			if err != nil {
				return err
			}
			if cut != nil {
				cut.Instances = append(cut.Instances, e)
			} else if loop != nil {
				loop.Instances = append(loop.Instances, e)
			} else {
				c.Uses = append(c.Uses, e)
			}
		default:
			return fail("unknown directive %q", word)
		}
	}
	return nil
}

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := 0
	for i, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}

// --- expression parser ---

type tok struct{ k, s string }

func lexSpec(s string) ([]tok, error) {
	var out []tok
	rs := []rune(s)
	i := 0
	ops := []string{"<==>", "==>", "::", "..", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", ",", ".", ":", "&", "|", "?"}
outer:
	for i < len(rs) {
		c := rs[i]
		if unicode.IsSpace(c) {
			i++
			continue
		}
		if unicode.IsLetter(c) || c == '_' || c == '$' {
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j])})
			i = j
			continue
		}
		if unicode.IsDigit(c) {
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			out = append(out, tok{"num", string(rs[i:j])})
			i = j
			continue
		}
		if c == '\'' {
			if i+2 < len(rs) && rs[i+2] == '\'' {
				out = append(out, tok{"num", fmt.Sprint(int(rs[i+1]))})
				i += 3
				continue
			}
		}
		if c == '"' {
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				j++
			}
			out = append(out, tok{"str", string(rs[i+1 : j])})
			i = j + 1
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(string(rs[i:]), o) {
				out = append(out, tok{"op", o})
				i += len(o)
				continue outer
			}
		}
		return nil, fmt.Errorf("bad character %q", c)
	}
	return append(out, tok{"eof", ""}), nil
}

type sparser struct {
	t []tok
	i int
}

func parseSpec(s string) (e *SExpr, err error) {
	ts, err := lexSpec(s)
	if err != nil {
		return nil, err
	}
	p := &sparser{t: ts}
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(string); ok {
				err = fmt.Errorf("%s", m)
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.t[p.i].k != "eof" {
		return nil, fmt.Errorf("unexpected %q", p.t[p.i].s)
	}
	e.Src = s
	return e, nil
}

func (p *sparser) peek() tok { return p.t[p.i] }
func (p *sparser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *sparser) isOp(s string) bool {
	t := p.peek()
	return t.k == "op" && t.s == s
}
func (p *sparser) want(s string) {
	t := p.next()
	if t.s != s {
		panic(fmt.Sprintf("expected %q, got %q", s, t.s))
	}
}

var precs = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "|": 6, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7}

func (p *sparser) expr(min int) *SExpr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := precs[t.s]
		if !ok || pr < min {
			return l
		}
		if pr == 5 { // comparison chain
			var parts []*SExpr
			prev := l
			for {
				t := p.peek()
				if t.k != "op" || precs[t.s] != 5 {
					break
				}
				p.next()
				r := p.expr(6)
				parts = append(parts, &SExpr{Kind: "bin", S: t.s, A: []*SExpr{prev, r}})
				prev = r
			}
			l = parts[0]
			for _, q := range parts[1:] {
				l = &SExpr{Kind: "bin", S: "&&", A: []*SExpr{l, q}}
			}
			continue
		}
		p.next()
		var r *SExpr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &SExpr{Kind: "bin", S: t.s, A: []*SExpr{l, r}}
	}
}

func (p *sparser) unary() *SExpr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*") {
		p.next()
		return &SExpr{Kind: "un", S: t.s, A: []*SExpr{p.unary()}}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		v := p.next().s
		p.want("in")
		lo := p.expr(6)
		p.want("..")
		hi := p.expr(6)
		p.want("::")
		b := p.expr(0)
		return &SExpr{Kind: t.s, S: v, A: []*SExpr{lo, hi, b}}
	}
	return p.postfix(p.primary())
}

func (p *sparser) primary() *SExpr {
	t := p.next()
	switch t.k {
	case "num":
		n, ok := new(big.Int).SetString(strings.ReplaceAll(t.s, "_", ""), 0)
		if !ok {
			panic("bad number " + t.s)
		}
		return &SExpr{Kind: "num", N: n}
	case "str":
		return &SExpr{Kind: "str", S: t.s}
	case "id":
		return &SExpr{Kind: "id", S: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.want(")")
			return e
		}
	}
	panic("unexpected " + t.s)
}

func (p *sparser) postfix(e *SExpr) *SExpr {
	for {
		switch {
		case p.isOp("."):
			p.next()
			f := p.next()
			e = &SExpr{Kind: "field", S: f.s, A: []*SExpr{e}}
		case p.isOp("["):
			p.next()
			if p.isOp(":") {
				p.next()
				hi := p.expr(0)
				p.want("]")
				e = &SExpr{Kind: "slice", A: []*SExpr{e, {Kind: "num", N: bi(0)}, hi}}
				continue
			}
			i := p.expr(0)
			if p.isOp(":") {
				p.next()
				if p.isOp("]") {
					p.next()
					e = &SExpr{Kind: "slice", A: []*SExpr{e, i}}
				} else {
					hi := p.expr(0)
					p.want("]")
					e = &SExpr{Kind: "slice", A: []*SExpr{e, i, hi}}
				}
				continue
			}
			p.want("]")
			e = &SExpr{Kind: "index", A: []*SExpr{e, i}}
		case p.isOp("(") && (e.Kind == "id"):
			p.next()
			var as []*SExpr
			for !p.isOp(")") {
				as = append(as, p.expr(0))
				if p.isOp(",") {
					p.next()
				}
			}
			p.want(")")
			e = &SExpr{Kind: "call", S: e.S, A: as}
		default:
			return e
		}
	}
}

func (e *SExpr) String() string {
	switch e.Kind {
	case "num":
		return e.N.String()
	case "str":
		return fmt.Sprintf("%q", e.S)
	case "id":
		return e.S
	case "bin":
		return "(" + e.A[0].String() + " " + e.S + " " + e.A[1].String() + ")"
	case "un":
		return e.S + e.A[0].String()
	case "field":
		return e.A[0].String() + "." + e.S
	case "index":
		return e.A[0].String() + "[" + e.A[1].String() + "]"
	case "slice":
		s := e.A[0].String() + "[" + e.A[1].String() + ":"
		if len(e.A) > 2 {
			s += e.A[2].String()
		}
		return s + "]"
	case "call":
		var as []string
		for _, a := range e.A {
			as = append(as, a.String())
		}
		return e.S + "(" + strings.Join(as, ", ") + ")"
	case "forall", "exists":
		return "(" + e.Kind + " " + e.S + " in " + e.A[0].String() + ".." + e.A[1].String() + " :: " + e.A[2].String() + ")"
	}
	return "?"
}

// recursion checks how definitions depend on themselves: opaque ones and
// macros not at all; recursive ones directly with a structural decrease
// (wellFounded, checked where they are used), or with a measure, for which an
// obligation is made: every call inside the cycle decreases it.
func (db *SpecDB) recursion() error {
	reach := map[string]map[string]bool{}
	for n := range db.Defs {
		seen := map[string]bool{}
		var rec func(e *SExpr)
		rec = func(e *SExpr) {
			if e.Kind == "call" {
				if o := db.Defs[e.S]; o != nil && !seen[e.S] {
					seen[e.S] = true
					rec(o.Body)
				}
			}
			for _, a := range e.A {
				rec(a)
			}
		}
		rec(db.Defs[n].Body)
		reach[n] = seen
	}
	names := []string{}
	for n := range db.Defs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := db.Defs[n]
		if !reach[n][n] {
			continue
		}
		if d.Opaque || !d.Rec {
			return fmt.Errorf("definition %s depends on itself", n)
		}
		mutual := false
		for o := range reach[n] {
			if o != n && reach[o][n] {
				mutual = true
			}
		}
		if d.Measure == nil {
			if mutual {
				return fmt.Errorf("definition %s is mutually recursive without a measure", n)
			}
			continue
		}
		c := &Contract{Key: "measure." + n, Lemma: true, IsMeasure: true, PkgName: d.pkg, Loops: map[int]*LoopSpec{}, File: "", NilOK: map[string]bool{}, Reveal: map[string]bool{}, Inline: map[string]bool{}, Ord: len(db.Order)}
		var opaques func(e *SExpr)
		opaques = func(e *SExpr) {
			if e == nil {
				return
			}
			if o := db.Defs[e.S]; e.Kind == "call" && o != nil && o.Opaque {
				c.Reveal[e.S] = true
			}
			for _, a := range e.A {
				opaques(a)
			}
		}
		opaques(d.Body)
		sub := map[string]*SExpr{}
		for i, p := range d.Params {
			c.Params = append(c.Params, p)
			c.Kinds = append(c.Kinds, d.MKinds[p])
			sub[p] = &SExpr{Kind: "id", S: p, Src: p}
			_ = i
		}
		bin := func(op string, a, b *SExpr) *SExpr { return &SExpr{Kind: "bin", S: op, A: []*SExpr{a, b}} }
		for _, m := range d.Measure {
			c.Ensures = append(c.Ensures, Clause{E: bin("<=", &SExpr{Kind: "num", N: big.NewInt(0)}, m), Src: "the measure of " + n + " is not negative"})
		}
		var err error
		calls := 0
		var walk func(e *SExpr, conds []*SExpr)
		walk = func(e *SExpr, conds []*SExpr) {
			with := func(x *SExpr) []*SExpr { return append(append([]*SExpr{}, conds...), x) }
			not := func(x *SExpr) *SExpr { return &SExpr{Kind: "un", S: "!", A: []*SExpr{x}} }
			switch {
			case e.Kind == "call" && e.S == "ite":
				walk(e.A[0], conds)
				walk(e.A[1], with(e.A[0]))
				walk(e.A[2], with(not(e.A[0])))
				return
			case e.Kind == "bin" && (e.S == "&&" || e.S == "==>"):
				walk(e.A[0], conds)
				walk(e.A[1], with(e.A[0]))
				return
			case e.Kind == "bin" && e.S == "||":
				walk(e.A[0], conds)
				walk(e.A[1], with(not(e.A[0])))
				return
			case e.Kind == "forall" || e.Kind == "exists":
				if mentions(e, func(s string) bool { return reach[s][n] }) {
					err = fmt.Errorf("recursion of %s under a quantifier", n)
				}
				return
			case e.Kind == "call" && db.Defs[e.S] != nil && reach[e.S][n]:
				o := db.Defs[e.S]
				if !o.Rec || o.Measure == nil || len(o.Measure) != len(d.Measure) {
					err = fmt.Errorf("recursion of %s through %s, which has no measure of the same length", n, e.S)
					return
				}
				os := map[string]*SExpr{}
				for i, p := range o.Params {
					os[p] = e.A[i]
				}
				var lex *SExpr
				for i := len(d.Measure) - 1; i >= 0; i-- {
					a, b := substSpec(o.Measure[i], os), d.Measure[i]
					lt := bin("<", a, b)
					if lex == nil {
						lex = lt
					} else {
						lex = bin("||", lt, bin("&&", bin("==", a, b), lex))
					}
				}
				g := lex
				for i := len(conds) - 1; i >= 0; i-- {
					g = bin("==>", conds[i], g)
				}
				calls++
				c.Ensures = append(c.Ensures, Clause{E: g, Src: fmt.Sprintf("call %d in %s, of %s, decreases the measure", calls, n, e.S)})
			}
			for _, a := range e.A {
				walk(a, conds)
			}
		}
		walk(d.Body, nil)
		if err != nil {
			return err
		}
		db.Funcs[c.Key] = c
		db.Order = append(db.Order, c.Key)
	}
	return nil
}

func mentions(e *SExpr, f func(string) bool) bool {
	if e.Kind == "call" && f(e.S) {
		return true
	}
	for _, a := range e.A {
		if mentions(a, f) {
			return true
		}
	}
	return false
}

// substSpec replaces identifiers; quantifiers are not entered with capture in
// mind, so the expression must have none.
func substSpec(e *SExpr, m map[string]*SExpr) *SExpr {
	if e.Kind == "id" {
		if r := m[e.S]; r != nil {
			return r
		}
		return e
	}
	c := *e
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, substSpec(a, m))
	}
	return &c
}
