package main

import (
	"fmt"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- contract files

type Clause struct {
	Kind   string // requires ensures modifies invariant decreases event
	Tags   []string
	Name   string
	E      *Node
	Es     []*Node
	File   string
	Line   int
	Alias  bool // result === expr
	Assume bool // stated for the callers, not proved: an assumption
}

type LoopSpec struct {
	Inv   []*Clause
	Decr  *Node
	Event bool
	Alts  []*LoopSpec // invariants for other ways of writing the loop
	Cut   bool        // paths that reach the loop continue as one, of which only the invariants are known
}

type Contract struct {
	Kind     string // func extern interface callback send recv close
	Name     string
	Params   []string
	Results  []string
	Clauses  []*Clause
	Loops    map[int]*LoopSpec
	Decr     *Node
	File     string
	Line     int
	Trusted  bool
	Anything bool // may change anything (never called, only started)
	NoPanic  bool
	By       []string        // properties whose checks prove the contract (none: every one that uses it)
	Hide     map[string]bool // functions whose definitions its obligations do not need
	Using    map[string]bool // local axioms and lemmas its obligations may use
	Helper   bool            // verified where it is called, inlined where it is gone
	Served   bool            // of a send: somebody always receives
	Keep     []string        // tags: never inlined, even without clauses in the view
}

type GhostDecl struct {
	Name string
	Sort *Sort
}

type LemmaDecl struct {
	Tags   []string
	Name   string
	E      *Node
	Induct string
	Line   int
	File   string
	Term   *Term
	Goal   *Term    // with the hints
	Uses   []string // what the proof may use besides the axioms (nil: every lemma before it that is not local)
	Opaque bool     // no definition is unfolded
	Local  bool     // used only where a lemma names it
	before int      // the axioms and lemmas before it
}

type Specs struct {
	Contracts map[string]*Contract
	Order     []string
	Ghosts    map[string]*GhostDecl
	GhostOrd  []string
	Lemmas    []*LemmaDecl
	MacroDefs map[string]*SpecDef
	Consts    map[string]*Node
	TypeInvs  map[string]*TypeInv
}

// TypeInv holds of every object of a type whenever a function under contract is entered or left.
type TypeInv struct {
	Type string
	Var  string
	Tags []string
	E    *Node
}

type specItem struct {
	name   string
	params []string
	sorts  []*Sort
	ret    *Sort
	body   *Node
}

// ---------------------------------------------------------------- tokens

type tok struct {
	k    byte // i ident, n number, s string, c char, o operator, 0 eof
	s    string
	line int
	bol  bool
}

type lexer struct {
	toks []tok
	pos  int
	file string
	noIn bool // "in" ends the expression
}

func lex(src, file string) *lexer {
	l := &lexer{file: file}
	line := 1
	bol := true
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == '\n':
			line++
			bol = true
			i++
			continue
		case c == ' ' || c == '\t' || c == '\r':
			i++
			continue
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		case c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '$' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			l.toks = append(l.toks, tok{'i', src[i:j], line, bol})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F') {
				j++
			}
			l.toks = append(l.toks, tok{'n', src[i:j], line, bol})
			i = j
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			k := byte('s')
			if c == '\'' {
				k = 'c'
			}
			l.toks = append(l.toks, tok{k, src[i : j+1], line, bol})
			i = j + 1
		default:
			n := 1
			for _, op := range []string{"<==>", "===", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ".."} {
				if strings.HasPrefix(src[i:], op) {
					n = len(op)
					break
				}
			}
			l.toks = append(l.toks, tok{'o', src[i : i+n], line, bol})
			i += n
		}
		bol = false
	}
	l.toks = append(l.toks, tok{0, "", line, true})
	return l
}

func (l *lexer) peek() tok { return l.toks[l.pos] }
func (l *lexer) next() tok { t := l.toks[l.pos]; l.pos++; return t }
func (l *lexer) is(s string) bool {
	t := l.peek()
	return (t.k == 'o' || t.k == 'i') && t.s == s
}
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.pos++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		l.fail("expected " + s + ", got " + l.peek().s)
	}
}
func (l *lexer) ident() string {
	t := l.next()
	if t.k != 'i' {
		l.pos--
		l.fail("identifier expected, got " + t.s)
	}
	return t.s
}
func (l *lexer) fail(m string) {
	panic(fmt.Errorf("%s:%d: %s", l.file, l.peek().line, m))
}

// ---------------------------------------------------------------- expressions

type Node struct {
	Op   string
	S    string
	N    *big.Int
	A    []*Node
	Vars []specVar
	Trig [][]*Node
	Line int
	File string
}
type specVar struct {
	Name string
	Sort *Sort
	Type string
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "===": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (l *lexer) expr(min int) *Node {
	lhs := l.unary()
	for {
		t := l.peek()
		if t.k != 'o' && !(t.k == 'i' && t.s == "in" && !l.noIn) {
			break
		}
		p, ok := prec[t.s]
		if !ok || p < min {
			break
		}
		l.next()
		n := p + 1
		if t.s == "==>" {
			n = p
		}
		rhs := l.expr(n)
		lhs = &Node{Op: t.s, A: []*Node{lhs, rhs}, Line: t.line, File: l.file}
	}
	if min <= 0 && l.is("?") {
		l.next()
		a := l.expr(0)
		l.expect(":")
		b := l.expr(0)
		return &Node{Op: "ite", A: []*Node{lhs, a, b}, File: l.file}
	}
	return lhs
}

func (l *lexer) unary() *Node {
	t := l.peek()
	if l.accept("!") {
		return &Node{Op: "!", A: []*Node{l.unary()}, Line: t.line, File: l.file}
	}
	if l.accept("-") {
		return &Node{Op: "neg", A: []*Node{l.unary()}, Line: t.line, File: l.file}
	}
	if l.accept("*") {
		return &Node{Op: "deref", A: []*Node{l.unary()}, Line: t.line, File: l.file}
	}
	return l.postfix(l.primary())
}

func (l *lexer) postfix(n *Node) *Node {
	for {
		t := l.peek()
		switch {
		case l.accept("."):
			if l.accept("*") {
				n = &Node{Op: "allfields", A: []*Node{n}, Line: t.line, File: l.file}
				continue
			}
			n = &Node{Op: ".", S: l.ident(), A: []*Node{n}, Line: t.line, File: l.file}
		case t.k == 'o' && t.s == "[" && !t.bol:
			l.next()
			if l.accept("*") {
				l.expect("]")
				n = &Node{Op: "allelems", A: []*Node{n}, Line: t.line, File: l.file}
				continue
			}
			var lo, hi *Node
			if !l.is(":") {
				lo = l.expr(1)
			}
			if l.accept(":") {
				if !l.is("]") {
					hi = l.expr(1)
				}
				l.expect("]")
				n = &Node{Op: "slice", A: []*Node{n, lo, hi}, Line: t.line, File: l.file}
			} else {
				l.expect("]")
				n = &Node{Op: "index", A: []*Node{n, lo}, Line: t.line, File: l.file}
			}
		case t.k == 'o' && t.s == "(" && !t.bol && (n.Op == "id" || n.Op == "."):
			l.next()
			c := &Node{Op: "call", S: n.S, Line: t.line, File: l.file}
			if n.Op == "." {
				l.fail("method calls are not supported in contracts")
			}
			for !l.is(")") {
				c.A = append(c.A, l.expr(0))
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			n = c
		default:
			return n
		}
	}
}

func (l *lexer) primary() *Node {
	t := l.next()
	switch t.k {
	case 'n':
		v, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			l.fail("number " + t.s)
		}
		return &Node{Op: "int", N: v, Line: t.line, File: l.file}
	case 's':
		s, err := strconv.Unquote(t.s)
		if err != nil {
			l.fail("string " + t.s)
		}
		return &Node{Op: "str", S: s, Line: t.line, File: l.file}
	case 'c':
		r, _, _, err := strconv.UnquoteChar(t.s[1:len(t.s)-1], '\'')
		if err != nil {
			l.fail("char " + t.s)
		}
		return &Node{Op: "int", N: big.NewInt(int64(r)), Line: t.line, File: l.file}
	case 'i':
		switch t.s {
		case "true", "false", "nil":
			return &Node{Op: t.s, Line: t.line, File: l.file}
		case "forall", "exists":
			n := &Node{Op: t.s, Line: t.line, File: l.file}
			n.Vars = l.varlist("::")
			l.expect("::")
			for l.is("{") {
				l.next()
				var tr []*Node
				for {
					tr = append(tr, l.expr(0))
					if !l.accept(",") {
						break
					}
				}
				l.expect("}")
				n.Trig = append(n.Trig, tr)
			}
			n.A = []*Node{l.expr(0)}
			return n
		case "let":
			v := l.ident()
			l.expect("=")
			sv := l.noIn
			l.noIn = true
			e := l.expr(0)
			l.noIn = sv
			l.expect("in")
			return &Node{Op: "let", S: v, A: []*Node{e, l.expr(0)}, Line: t.line, File: l.file}
		case "if":
			c := l.expr(0)
			l.expect("then")
			a := l.expr(0)
			l.expect("else")
			return &Node{Op: "ite", A: []*Node{c, a, l.expr(0)}, Line: t.line, File: l.file}
		}
		return &Node{Op: "id", S: t.s, Line: t.line, File: l.file}
	case 'o':
		if t.s == "(" {
			sv := l.noIn
			l.noIn = false
			e := l.expr(0)
			l.noIn = sv
			l.expect(")")
			return e
		}
	}
	l.pos--
	l.fail("unexpected " + t.s)
	return nil
}

// varlist parses "a, b int, c bytes"
func (l *lexer) varlist(end string) []specVar {
	var r []specVar
	var pend []string
	for !l.is(end) {
		pend = append(pend, l.ident())
		if l.accept(",") {
			continue
		}
		s := l.sort()
		for _, p := range pend {
			r = append(r, specVar{Name: p, Sort: s})
		}
		pend = nil
		if !l.accept(",") {
			break
		}
	}
	if len(pend) > 0 {
		l.fail("sort expected")
	}
	return r
}

var goTypeSort func(name string) *Sort

func (l *lexer) sort() *Sort {
	n := l.ident()
	switch n {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "bytes", "string":
		return SBytes
	case "ref":
		return SRef
	case "seq":
		l.expect("(")
		e := l.sort()
		l.expect(")")
		return SeqSort(e)
	case "map":
		l.expect("(")
		k := l.sort()
		l.expect(",")
		v := l.sort()
		l.expect(")")
		return MapSort(k, v)
	case "opaque":
		l.expect("(")
		k := l.ident()
		if l.accept(".") {
			k += "." + l.ident()
		}
		l.expect(")")
		return USort(k)
	}
	if l.accept(".") {
		n += "." + l.ident()
	}
	if s := goTypeSort(n); s != nil {
		return s
	}
	l.fail("unknown sort " + n)
	return nil
}

// ---------------------------------------------------------------- file parser

var headRe = regexp.MustCompile(`(?m)^(func|extern|interface|callback|send|recv|close|trusted)\s+((?:go\.)?\(\*?[\w.]+\)\.\w+|[\w.$]+)\(([^()]*)\)\s*(?:\(([^()]*)\))?\s*\{`)

func splitNames(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			r = append(r, p)
		}
	}
	return r
}

func (sp *Specs) parseFile(path string) (err error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(evalErr); ok {
				err = fmt.Errorf("%s", string(x))
				return
			}
			if x, ok := e.(error); ok && !strings.HasPrefix(fmt.Sprintf("%T", e), "runtime") {
				err = x
				return
			}
			panic(e)
		}
	}()
	src := string(data)
	// headers are replaced by: @contract <n> {
	var heads [][]string
	src = headRe.ReplaceAllStringFunc(src, func(m string) string {
		h := headRe.FindStringSubmatch(m)
		heads = append(heads, h)
		return fmt.Sprintf("contract %d {", len(heads)-1) + strings.Repeat("\n", strings.Count(m, "\n"))
	})
	l := lex(src, path[strings.LastIndex(path, "/")+1:])
	for l.peek().k != 0 {
		t := l.peek()
		switch {
		case l.accept("contract"):
			n, _ := strconv.Atoi(l.next().s)
			h := heads[n]
			c := &Contract{Kind: h[1], Name: h[2], Params: splitNames(h[3]), Results: splitNames(h[4]), Loops: map[int]*LoopSpec{}, File: l.file, Line: t.line}
			l.expect("{")
			l.contractBody(c)
			key := c.Name
			switch c.Kind {
			case "callback":
				key = "call:" + key
			case "send", "recv", "close":
				key = c.Kind + ":" + key
			}
			if sp.Contracts[key] != nil {
				l.fail("duplicate contract " + key)
			}
			sp.Contracts[key] = c
			sp.Order = append(sp.Order, key)
		case l.accept("ghost"):
			n := l.ident()
			sp.Ghosts[n] = &GhostDecl{n, l.sort()}
			sp.GhostOrd = append(sp.GhostOrd, n)
		case l.accept("const"):
			n := l.ident()
			l.expect("=")
			sp.Consts[n] = l.expr(0)
		case l.is("spec") || l.is("def"):
			kept := l.next().s == "def" // applications stay, their definition is added to the queries
			n := l.ident()
			l.expect("(")
			vs := l.varlist(")")
			l.expect(")")
			ret := l.sort()
			d := &SpecDef{Name: n, Ret: ret}
			if l.accept("range") {
				lo := l.expr(0)
				l.expect("..")
				hi := l.expr(0)
				r := [2]*big.Int{constOf(lo), constOf(hi)}
				appRange[n] = r
			}
			var vars = map[string]Val{}
			for _, v := range vs {
				b := BoundV(v.Name+"?"+n, v.Sort)
				d.Params = append(d.Params, b)
				vars[v.Name] = b
			}
			if theory.Defs[n] != nil {
				l.fail("duplicate spec " + n)
			}
			theory.Defs[n] = d
			if l.accept("=") {
				body := l.expr(0)
				d.Rec = kept || mentions(body, n)
				ev := &evalCtx{sp: sp, vars: vars}
				bt := ev.term(body)
				if bt.Sort != ret {
					l.fail(fmt.Sprintf("spec %s: body has sort %s, want %s", n, bt.Sort.Name, ret.Name))
				}
				d.Body = bt
				if !d.Rec {
					sp.MacroDefs[n] = d
				}
			}
		case l.accept("typeinv"):
			ti := &TypeInv{Tags: l.tags()}
			ti.Type = l.ident()
			l.expect(".")
			ti.Type += "." + l.ident()
			l.expect("(")
			ti.Var = l.ident()
			l.expect(")")
			l.expect(":")
			ti.E = l.expr(0)
			sp.TypeInvs[ti.Type] = ti
		case l.accept("axiom"):
			n := l.ident()
			l.expect(":")
			e := l.expr(0)
			f := (&evalCtx{sp: sp, vars: map[string]Val{}}).term(e)
			addAxiom(n, f, false)
		case t.s == "local" || t.s == "lemma":
			local := l.accept("local")
			if l.accept("axiom") {
				n := l.ident()
				l.expect(":")
				addAxiom(n, (&evalCtx{sp: sp, vars: map[string]Val{}}).term(l.expr(0)), false)
				theory.Axioms[len(theory.Axioms)-1].Local = true
				continue
			}
			l.expect("lemma")
			ld := &LemmaDecl{Local: local, before: len(theory.Axioms), Tags: l.tags(), Name: l.ident(), Line: t.line, File: l.file}
			if l.accept("induction") {
				ld.Induct = l.ident()
			}
			if l.accept("using") {
				for {
					ld.Uses = append(ld.Uses, l.ident())
					if !l.accept(",") {
						break
					}
				}
			}
			ld.Opaque = l.accept("opaque")
			l.expect(":")
			ld.E = l.expr(0)
			sp.Lemmas = append(sp.Lemmas, ld)
			ld.Term = (&evalCtx{sp: sp, vars: map[string]Val{}}).term(ld.E)
			addAxiom(ld.Name, ld.Term, true)
			theory.Axioms[len(theory.Axioms)-1].Local = local
			ld.Goal = (&evalCtx{sp: sp, vars: map[string]Val{}, hints: true}).term(ld.E)
		default:
			l.fail("unexpected " + t.s)
		}
	}
	return nil
}

func constOf(n *Node) *big.Int {
	if n.Op == "neg" {
		return new(big.Int).Neg(n.A[0].N)
	}
	return n.N
}

func mentions(n *Node, f string) bool {
	if n == nil {
		return false
	}
	if n.Op == "call" && n.S == f {
		return true
	}
	for _, a := range n.A {
		if mentions(a, f) {
			return true
		}
	}
	return false
}

func addAxiom(n string, f *Term, lemma bool) {
	ax := &Axiom{Name: n, F: f, Lemma: lemma}
	groups := f.Trig
	if f.Op != OForall {
		groups = [][]*Term{{f}}
	} else if len(groups) == 0 {
		groups = autoTrig(f)
		if len(groups) == 0 {
			panic(fmt.Errorf("axiom %s: no trigger", n))
		}
	}
	for _, g := range groups {
		names := map[string]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if t.Op == OApp {
				names[t.Name] = true
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		for _, t := range g {
			walk(t)
		}
		var r []string
		for k := range names {
			r = append(r, k)
		}
		ax.Trig = append(ax.Trig, r)
	}
	theory.Axioms = append(theory.Axioms, ax)
}

func (l *lexer) tags() []string {
	var r []string
	if t := l.peek(); t.k == 'o' && t.s == "[" {
		l.next()
		for !l.is("]") {
			r = append(r, l.ident())
			if !l.accept(",") {
				break
			}
		}
		l.expect("]")
	}
	return r
}

func (l *lexer) clause(kind string) *Clause {
	c := &Clause{Kind: kind, File: l.file, Line: l.peek().line, Tags: l.tags()}
	// optional name
	if l.peek().k == 'i' && l.toks[l.pos+1].k == 'o' && l.toks[l.pos+1].s == ":" {
		c.Name = l.ident()
		l.expect(":")
	}
	c.E = l.expr(0)
	if c.E.Op == "===" {
		c.Alias = true
	}
	return c
}

func (l *lexer) contractBody(c *Contract) {
	for !l.accept("}") {
		t := l.peek()
		switch {
		case l.accept("requires"):
			c.Clauses = append(c.Clauses, l.clause("requires"))
		case l.accept("ensures"):
			c.Clauses = append(c.Clauses, l.clause("ensures"))
		case l.accept("assumes"):
			cl := l.clause("ensures")
			cl.Assume = true
			c.Clauses = append(c.Clauses, cl)
		case l.accept("modifies"):
			if l.accept("anything") {
				c.Anything = true
				break
			}
			cl := &Clause{Kind: "modifies", File: l.file, Line: t.line, Tags: l.tags()}
			for {
				cl.Es = append(cl.Es, l.expr(0))
				if !l.accept(",") {
					break
				}
			}
			c.Clauses = append(c.Clauses, cl)
		case l.accept("decreases"):
			c.Decr = l.expr(0)
		case l.accept("hide"):
			if c.Hide == nil {
				c.Hide = map[string]bool{}
			}
			for {
				c.Hide[l.ident()] = true
				if !l.accept(",") {
					break
				}
			}
		case l.accept("helper"):
			c.Helper = true
		case l.accept("served"):
			c.Served = true
		case l.accept("using"):
			if c.Using == nil {
				c.Using = map[string]bool{}
			}
			for {
				c.Using[l.ident()] = true
				if !l.accept(",") {
					break
				}
			}
		case l.accept("by"):
			for {
				c.By = append(c.By, l.ident())
				if !l.accept(",") {
					break
				}
			}
		case l.accept("keep"):
			c.Keep = l.tags()
			if len(c.Keep) == 0 {
				c.Keep = []string{"*"}
			}
		case l.accept("loop"):
			n, err := strconv.Atoi(l.next().s)
			if err != nil {
				l.fail("loop number")
			}
			ls := &LoopSpec{}
			c.Loops[n] = ls
			l.expect("{")
			for !l.accept("}") {
				switch {
				case l.accept("invariant"):
					ls.Inv = append(ls.Inv, l.clause("invariant"))
				case l.accept("decreases"):
					ls.Decr = l.expr(0)
				case l.accept("event"):
					ls.Event = true
				case l.accept("cut"):
					ls.Cut = true
				case l.accept("or"):
					ls = &LoopSpec{}
					c.Loops[n].Alts = append(c.Loops[n].Alts, ls)
				default:
					l.fail("unexpected " + l.peek().s + " in loop")
				}
			}
		default:
			l.fail("unexpected " + t.s + " in contract")
		}
	}
}

func inView(tags []string, prop string) bool {
	if len(tags) == 0 || prop == "" {
		return true
	}
	for _, t := range tags {
		if t == prop {
			return true
		}
	}
	return false
}

func hasTag(tags []string, prop string) bool {
	for _, t := range tags {
		if t == prop {
			return true
		}
	}
	return false
}

// pick chooses between the ways of writing a loop.
func (l *LoopSpec) pick(k int) *LoopSpec {
	if l == nil || k == 0 || k > len(l.Alts) {
		return l
	}
	return l.Alts[k-1]
}
