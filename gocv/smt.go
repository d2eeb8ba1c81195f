package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- printer

// Printer writes declarations and definitions on demand.
type Printer struct {
	w         *strings.Builder
	declared  map[string]bool
	defs      map[int64]string
	lits      map[string]string
	apps      map[string]bool // uninterpreted function names used
	sortsUsed map[*Sort]bool
}

func NewPrinter() *Printer {
	return &Printer{w: &strings.Builder{}, declared: map[string]bool{}, defs: map[int64]string{}, lits: map[string]string{}, apps: map[string]bool{}, sortsUsed: map[*Sort]bool{}}
}

func q(n string) string {
	ok := true
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '.' || c == '!' || c == '$' || c == '@' || (c >= '0' && c <= '9' && i > 0)) {
			ok = false
			break
		}
	}
	if ok {
		return n
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|"
}

func (p *Printer) sort(s *Sort) string {
	if s.Kind == KInt || s.Kind == KBool {
		return s.Name
	}
	if p.sortsUsed[s] {
		return q(s.Name)
	}
	p.sortsUsed[s] = true
	n := q(s.Name)
	switch s.Kind {
	case KU:
		fmt.Fprintf(p.w, "(declare-sort %s 0)\n", n)
	case KStruct:
		var fs []string
		for i, f := range s.Fields {
			fs = append(fs, fmt.Sprintf("(%s %s)", q(fmt.Sprintf("%s.%s#%d", s.Name, f.Name, i)), p.sort(f.Sort)))
		}
		fmt.Fprintf(p.w, "(declare-datatypes ((%s 0)) (((%s %s))))\n", n, q("mk."+s.Name), strings.Join(fs, " "))
	case KMap:
		k, v := p.sort(s.Key), p.sort(s.Val)
		fmt.Fprintf(p.w, "(declare-sort %s 0)\n", n)
		d, vl, u, de, em := q("dom."+s.Name), q("val."+s.Name), q("mupd."+s.Name), q("mdel."+s.Name), q("mempty."+s.Name)
		fmt.Fprintf(p.w, "(declare-fun %s (%s %s) Bool)(declare-fun %s (%s %s) %s)(declare-fun %s (%s %s %s) %s)(declare-fun %s (%s %s) %s)(declare-const %s %s)\n", d, n, k, vl, n, k, v, u, n, k, v, n, de, n, k, n, em, n)
		fmt.Fprintf(p.w, "(assert (forall ((k %s)) (! (not (%s %s k)) :pattern ((%s %s k)))))\n", k, d, em, d, em)
		fmt.Fprintf(p.w, "(assert (forall ((m %s)(k %s)(v %s)(j %s)) (! (= (%s (%s m k v) j) (or (= j k) (%s m j))) :pattern ((%s (%s m k v) j)))))\n", n, k, v, k, d, u, d, d, u)
		fmt.Fprintf(p.w, "(assert (forall ((m %s)(k %s)(v %s)(j %s)) (! (= (%s (%s m k v) j) (ite (= j k) v (%s m j))) :pattern ((%s (%s m k v) j)))))\n", n, k, v, k, vl, u, vl, vl, u)
		fmt.Fprintf(p.w, "(assert (forall ((m %s)(k %s)(j %s)) (! (= (%s (%s m k) j) (and (not (= j k)) (%s m j))) :pattern ((%s (%s m k) j)))))\n", n, k, k, d, de, d, d, de)
		fmt.Fprintf(p.w, "(assert (forall ((m %s)(k %s)(j %s)) (! (=> (not (= j k)) (= (%s (%s m k) j) (%s m j))) :pattern ((%s (%s m k) j)))))\n", n, k, k, vl, de, vl, vl, de)
	case KSeq:
		e := p.sort(s.Elem)
		fmt.Fprintf(p.w, "(declare-sort %s 0)\n", n)
		f := func(x string) string { return q(x + "." + s.Name) }
		l, at, cat, sub, upd, unit, rep, emp := f("len"), f("at"), f("cat"), f("sub"), f("upd"), f("unit"), f("rep"), f("empty")
		fmt.Fprintf(p.w, "(declare-fun %s (%s) Int)(declare-fun %s (%s Int) %s)(declare-fun %s (%s %s) %s)(declare-fun %s (%s Int Int) %s)(declare-fun %s (%s Int %s) %s)(declare-fun %s (%s) %s)(declare-fun %s (Int %s) %s)(declare-const %s %s)\n",
			l, n, at, n, e, cat, n, n, n, sub, n, n, upd, n, e, n, unit, e, n, rep, e, n, emp, n)
		w := p.w
		fmt.Fprintf(w, "(assert (= (%s %s) 0))\n", l, emp)
		fmt.Fprintf(w, "(assert (forall ((s %s)) (! (>= (%s s) 0) :pattern ((%s s)))))\n", n, l, l)
		if s.Byte {
			fmt.Fprintf(w, "(assert (forall ((s %s)(i Int)) (! (and (<= 0 (%s s i)) (<= (%s s i) 255)) :pattern ((%s s i)))))\n", n, at, at, at)
		}
		fmt.Fprintf(w, "(assert (forall ((a %s)(b %s)) (! (= (%s (%s a b)) (+ (%s a) (%s b))) :pattern ((%s a b)))))\n", n, n, l, cat, l, l, cat)
		fmt.Fprintf(w, "(assert (forall ((a %s)(b %s)(i Int)) (! (=> (and (<= 0 i) (< i (%s a))) (= (%s (%s a b) i) (%s a i))) :pattern ((%s (%s a b) i)))))\n", n, n, l, at, cat, at, at, cat)
		fmt.Fprintf(w, "(assert (forall ((a %s)(b %s)(i Int)) (! (=> (and (<= (%s a) i) (< i (+ (%s a) (%s b)))) (= (%s (%s a b) i) (%s b (- i (%s a))))) :pattern ((%s (%s a b) i)))))\n", n, n, l, l, l, at, cat, at, l, at, cat)
		fmt.Fprintf(w, "(assert (forall ((a %s)(x Int)(y Int)) (! (=> (and (<= 0 x) (<= x y) (<= y (%s a))) (= (%s (%s a x y)) (- y x))) :pattern ((%s a x y)))))\n", n, l, l, sub, sub)
		fmt.Fprintf(w, "(assert (forall ((a %s)(x Int)(y Int)(i Int)) (! (=> (and (<= 0 x) (<= x y) (<= y (%s a)) (<= 0 i) (< i (- y x))) (= (%s (%s a x y) i) (%s a (+ x i)))) :pattern ((%s (%s a x y) i)))))\n", n, l, at, sub, at, at, sub)
		fmt.Fprintf(w, "(assert (forall ((a %s)(k Int)(v %s)) (! (= (%s (%s a k v)) (%s a)) :pattern ((%s a k v)))))\n", n, e, l, upd, l, upd)
		vr := "v"
		if s.Byte {
			vr = "(ite (and (<= 0 v) (<= v 255)) v 0)"
		}
		fmt.Fprintf(w, "(assert (forall ((a %s)(k Int)(v %s)(i Int)) (! (=> (and (<= 0 i) (< i (%s a))) (= (%s (%s a k v) i) (ite (= i k) %s (%s a i)))) :pattern ((%s (%s a k v) i)))))\n", n, e, l, at, upd, vr, at, at, upd)
		fmt.Fprintf(w, "(assert (forall ((v %s)) (! (and (= (%s (%s v)) 1) (= (%s (%s v) 0) %s)) :pattern ((%s v)))))\n", e, l, unit, at, unit, vr, unit)
		fmt.Fprintf(w, "(assert (forall ((k Int)(v %s)) (! (=> (<= 0 k) (= (%s (%s k v)) k)) :pattern ((%s k v)))))\n", e, l, rep, rep)
		fmt.Fprintf(w, "(assert (forall ((k Int)(v %s)(i Int)) (! (=> (and (<= 0 i) (< i k)) (= (%s (%s k v) i) %s)) :pattern ((%s (%s k v) i)))))\n", e, at, rep, vr, at, rep)
	}
	return n
}

func num(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (p *Printer) lit(s string) string {
	if n, ok := p.lits[s]; ok {
		return n
	}
	p.sort(SBytes)
	n := fmt.Sprintf("lit!%d", len(p.lits))
	p.lits[s] = n
	fmt.Fprintf(p.w, "(declare-const %s Bytes) ; %q\n(assert (= (len.Bytes %s) %d))\n", n, s, n, len(s))
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(p.w, "(assert (= (at.Bytes %s %d) %d))\n", n, i, s[i])
	}
	return n
}

func (p *Printer) term(t *Term) string {
	if !t.fv && t.depth >= 2 {
		if n, ok := p.defs[t.id]; ok {
			return n
		}
		body := p.raw(t)
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(p.w, "(define-fun %s () %s %s)\n", n, p.sort(t.Sort), body)
		p.defs[t.id] = n
		return n
	}
	return p.raw(t)
}

func (p *Printer) call(f string, args []*Term) string {
	if len(args) == 0 {
		return f
	}
	var b strings.Builder
	b.WriteString("(" + f)
	for _, a := range args {
		b.WriteString(" " + p.term(a))
	}
	b.WriteString(")")
	return b.String()
}

func (p *Printer) raw(t *Term) string {
	switch t.Op {
	case OVar, OAddr:
		s := p.sort(t.Sort)
		n := q(t.Name)
		if !p.declared[n] {
			p.declared[n] = true
			fmt.Fprintf(p.w, "(declare-const %s %s)\n", n, s)
			if t.Sort.Kind == KSeq {
				fmt.Fprintf(p.w, "(assert (<= (%s %s) %s))\n", q("len."+t.Sort.Name), n, maxLen)
				if l, ok := seqLens.Load(t); ok {
					lt := p.term(l.(*Term))
					fmt.Fprintf(p.w, "(assert (= (%s %s) %s))\n", q("len."+t.Sort.Name), n, lt)
				}
			}
			if t.Op == OAddr {
				p.sort(SRef)
				if !p.declared["!addrid"] {
					p.declared["!addrid"] = true
					fmt.Fprintf(p.w, "(declare-fun addrid (Ref) Int)(declare-const null Ref)(assert (= (addrid null) 0))\n")
				}
				fmt.Fprintf(p.w, "(assert (= (addrid %s) %d))\n", n, len(p.declared))
			}
		}
		return n
	case ONull:
		p.sort(SRef)
		if !p.declared["!addrid"] {
			p.declared["!addrid"] = true
			fmt.Fprintf(p.w, "(declare-fun addrid (Ref) Int)(declare-const null Ref)(assert (= (addrid null) 0))\n")
		}
		return "null"
	case OBound:
		p.sort(t.Sort)
		return q(t.Name)
	case OInt:
		return num(t.I)
	case OBool:
		if t.B {
			return "true"
		}
		return "false"
	case OLit:
		return p.lit(t.Name)
	case OLin:
		var r []string
		for i, a := range t.Args {
			x := p.term(a)
			if t.Coef[i].Cmp(bigOne) != 0 {
				x = "(* " + num(t.Coef[i]) + " " + x + ")"
			}
			r = append(r, x)
		}
		if t.I.Sign() != 0 {
			r = append(r, num(t.I))
		}
		if len(r) == 1 {
			return r[0]
		}
		return "(+ " + strings.Join(r, " ") + ")"
	case OMul:
		return p.call("*", t.Args)
	case ODiv:
		return p.call("div", t.Args)
	case OMod:
		return p.call("mod", t.Args)
	case OLe0:
		return "(<= " + p.term(t.Args[0]) + " 0)"
	case OEq0:
		return "(= " + p.term(t.Args[0]) + " 0)"
	case OEq:
		return p.call("=", t.Args)
	case ONot:
		return p.call("not", t.Args)
	case OAnd:
		return p.call("and", t.Args)
	case OOr:
		return p.call("or", t.Args)
	case OIte:
		return p.call("ite", t.Args)
	case OForall, OExists:
		n := "forall"
		if t.Op == OExists {
			n = "exists"
		}
		var vs []string
		for _, v := range t.Vars {
			vs = append(vs, fmt.Sprintf("(%s %s)", q(v.Name), p.sort(v.Sort)))
		}
		body := p.term(t.Args[0])
		trig := t.Trig
		if len(trig) == 0 {
			trig = autoTrig(t)
		}
		ts := ""
		for _, tr := range trig {
			ts += " :pattern ("
			for _, x := range tr {
				ts += " " + p.term(x)
			}
			ts += ")"
		}
		if ts != "" {
			body = "(! " + body + ts + ")"
		}
		return "(" + n + " (" + strings.Join(vs, "") + ") " + body + ")"
	case OLen:
		return p.seqf("len", t.Args[0].Sort, t.Args)
	case OAt:
		return p.seqf("at", t.Args[0].Sort, t.Args)
	case OCat:
		if len(t.Args) == 0 {
			p.sort(t.Sort)
			return q("empty." + t.Sort.Name)
		}
		p.sort(t.Sort)
		r := p.term(t.Args[len(t.Args)-1])
		for i := len(t.Args) - 2; i >= 0; i-- {
			r = "(" + q("cat."+t.Sort.Name) + " " + p.term(t.Args[i]) + " " + r + ")"
		}
		return r
	case OSub:
		return p.seqf("sub", t.Sort, t.Args)
	case OUpd:
		return p.seqf("upd", t.Sort, t.Args)
	case OUnit:
		return p.seqf("unit", t.Sort, t.Args)
	case ORep:
		return p.seqf("rep", t.Sort, t.Args)
	case OApp:
		n := q(t.Name)
		key := t.Name
		if !p.apps[key] {
			p.apps[key] = true
			var as []string
			for _, a := range t.Args {
				as = append(as, p.sort(a.Sort))
			}
			rs := p.sort(t.Sort)
			fmt.Fprintf(p.w, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), rs)
			if r, ok := appRange[t.Name]; ok && len(t.Args) > 0 {
				var vs, xs []string
				for i, a := range as {
					vs = append(vs, fmt.Sprintf("(x%d %s)", i, a))
					xs = append(xs, fmt.Sprintf("x%d", i))
				}
				c := "(" + n + " " + strings.Join(xs, " ") + ")"
				var cs []string
				if r[0] != nil {
					cs = append(cs, fmt.Sprintf("(<= %s %s)", num(r[0]), c))
				}
				if r[1] != nil {
					cs = append(cs, fmt.Sprintf("(<= %s %s)", c, num(r[1])))
				}
				fmt.Fprintf(p.w, "(assert (forall (%s) (! (and %s true) :pattern (%s))))\n", strings.Join(vs, ""), strings.Join(cs, " "), c)
			}
		}
		return p.call(n, t.Args)
	case OMk:
		p.sort(t.Sort)
		return p.call(q("mk."+t.Sort.Name), t.Args)
	case OSel:
		s := t.Args[0].Sort
		p.sort(s)
		return p.call(q(fmt.Sprintf("%s.%s#%d", s.Name, s.Fields[t.K].Name, t.K)), t.Args)
	case OMapDom:
		return p.seqf("dom", t.Args[0].Sort, t.Args)
	case OMapVal:
		return p.seqf("val", t.Args[0].Sort, t.Args)
	case OMapUpd:
		return p.seqf("mupd", t.Sort, t.Args)
	case OMapDel:
		return p.seqf("mdel", t.Sort, t.Args)
	case OMapEmpty:
		p.sort(t.Sort)
		return q("mempty." + t.Sort.Name)
	}
	panic(fmt.Sprint("print op ", t.Op))
}

func (p *Printer) seqf(f string, s *Sort, args []*Term) string {
	p.sort(s)
	return p.call(q(f+"."+s.Name), args)
}

// autoTrig picks terms that mention the bound variables without arithmetic on them.
func autoTrig(t *Term) [][]*Term {
	isV := map[*Term]bool{}
	for _, v := range t.Vars {
		isV[v] = true
	}
	var cands []*Term
	seen := map[*Term]bool{}
	var ok func(x *Term) bool // may occur in a pattern
	ok = func(x *Term) bool {
		if !x.fv {
			return true
		}
		switch x.Op {
		case OBound:
			return true
		case OAt, OLen, OApp, OSel, OMapDom, OMapVal, OMk, OSub, OCat, OUnit:
			for _, a := range x.Args {
				if !ok(a) {
					return false
				}
			}
			return true
		}
		return false
	}
	var walk func(x *Term)
	walk = func(x *Term) {
		if !x.fv || seen[x] {
			return
		}
		seen[x] = true
		if x.Op == OForall || x.Op == OExists {
			// only take inner terms not mentioning the inner variables
			return
		}
		switch x.Op {
		case OAt, OApp, OMapDom, OMapVal, OLen:
			if ok(x) {
				cands = append(cands, x)
			}
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(t.Args[0])
	cover := func(x *Term) int {
		n := 0
		for _, v := range t.Vars {
			if occurs(x, v) {
				n++
			}
		}
		return n
	}
	var r [][]*Term
	for _, c := range cands {
		if cover(c) == len(t.Vars) {
			r = append(r, []*Term{c})
		}
	}
	if len(r) == 0 && len(t.Vars) > 1 && len(cands) > 0 {
		var mp []*Term
		cov := map[*Term]bool{}
		for _, c := range cands {
			add := false
			for _, v := range t.Vars {
				if !cov[v] && occurs(c, v) {
					add = true
					cov[v] = true
				}
			}
			if add {
				mp = append(mp, c)
			}
		}
		if len(cov) == len(t.Vars) {
			r = append(r, mp)
		}
	}
	if len(r) > 6 {
		r = r[:6]
	}
	return r
}

// ---------------------------------------------------------------- definitions and axioms available to queries

type SpecDef struct {
	Name   string
	Params []*Term // bound variables
	Ret    *Sort
	Body   *Term // nil: uninterpreted
	Rec    bool
}
type Axiom struct {
	Name  string
	F     *Term
	Trig  [][]string // groups of function names: included when one group is all present
	Lemma bool
	Local bool
}

type Theory struct {
	Defs   map[string]*SpecDef
	Axioms []*Axiom
}

var theory = &Theory{Defs: map[string]*SpecDef{}}

// ---------------------------------------------------------------- preprocessing of a query

type Query struct {
	Name   string
	Hyps   []*Term
	Goal   *Term
	Fuel   int
	Quick  bool            // first back end only
	Hide   map[string]bool // functions left undefined
	Using  map[string]bool // local axioms to use
	Axioms []*Axiom        // nil: all that are not local
	Sub    bool            // with subFacts
	Reduce bool            // hypotheses rewritten with each other first
	Part   bool            // part of a goal that was taken apart
}

// split takes a goal apart into goals that together imply it.
func split(hyps []*Term, goal *Term) (r []*Query) {
	h := append([]*Term{}, hyps...)
	g := skolemGoal(goal, &h)
	switch {
	case g.Op == OAnd:
		for _, a := range g.Args {
			r = append(r, split(h, a)...)
		}
	case g.Op == OIte:
		r = append(r, split(append(h[:len(h):len(h)], g.Args[0]), g.Args[1])...)
		r = append(r, split(append(h[:len(h):len(h)], Not(g.Args[0])), g.Args[2])...)
	default:
		r = append(r, &Query{Hyps: h, Goal: g})
	}
	return r
}

// skolemize strips universal quantifiers of a goal / existentials of a hypothesis at top level.
func skolemGoal(g *Term, hyps *[]*Term) *Term {
	for {
		switch {
		case g.Op == OForall:
			m := map[*Term]*Term{}
			for _, v := range g.Vars {
				m[v] = FreshV("sk_"+strings.SplitN(v.Name, "?", 2)[0], v.Sort)
			}
			g = Subst(g.Args[0], m)
		case g.Op == OOr:
			// a -> b : move negated disjuncts that are not the (single) quantified one
			var rest []*Term
			for _, a := range g.Args {
				if a.Op == OForall || a.Op == OAnd {
					rest = append(rest, a)
				} else {
					n := Not(a)
					*hyps = append(*hyps, n)
				}
			}
			if len(rest) == 0 {
				return False
			}
			if len(rest) == len(g.Args) {
				return g
			}
			g = Or(rest...)
			if g.Op == OOr {
				return g
			}
		default:
			return g
		}
	}
}

func skolemHyp(h *Term) *Term {
	switch h.Op {
	case OExists:
		m := map[*Term]*Term{}
		for _, v := range h.Vars {
			m[v] = FreshV("sk_"+strings.SplitN(v.Name, "?", 2)[0], v.Sort)
		}
		return skolemHyp(Subst(h.Args[0], m))
	case OAnd:
		var r []*Term
		for _, a := range h.Args {
			r = append(r, skolemHyp(a))
		}
		return And(r...)
	case ONot:
		if h.Args[0].Op == OForall {
			f := h.Args[0]
			return skolemHyp(Exists(f.Vars, Not(f.Args[0])))
		}
	}
	return h
}

type prep struct {
	seen    map[*Term]bool
	queue   []*Term
	seqEqs  map[*Term]bool
	apps    map[string][]*Term
	unfoldD map[*Term]int
	done    map[*Term]bool
	out     []*Term
}

func (p *prep) visit(t *Term, d int) {
	if p.seen[t] {
		return
	}
	p.seen[t] = true
	for _, a := range t.Args {
		p.visit(a, d)
	}
	if t.fv {
		if t.Op == OApp {
			if _, ok := p.apps[t.Name]; !ok {
				p.apps[t.Name] = nil
			}
		}
		return
	}
	switch t.Op {
	case OApp:
		p.apps[t.Name] = append(p.apps[t.Name], t)
		if _, ok := p.unfoldD[t]; !ok {
			p.unfoldD[t] = d
		}
	case OEq:
		p.seqEqs[t] = true
	}
}

func (p *prep) add(f *Term, d int) {
	p.out = append(p.out, f)
	p.visit(f, d)
}

func extInstance(e *Term) *Term {
	a, b := e.Args[0], e.Args[1]
	switch a.Sort.Kind {
	case KSeq:
		if a.Op == OLit || b.Op == OLit {
			l, o := a, b
			if b.Op == OLit {
				l, o = b, a
			}
			cs := []*Term{Eq(Len(o), Len(l))}
			for i := 0; i < len(l.Name); i++ {
				cs = append(cs, Eq(At(o, I(int64(i))), I(int64(l.Name[i]))))
			}
			c := And(cs...)
			return And(Or(Not(e), c), Or(e, Not(c)))
		}
		k := V(fmt.Sprintf("ext!%d!%d", a.id, b.id), SInt)
		return Or(e, Not(Eq(Len(a), Len(b))), And(Le(I(0), k), Lt(k, Len(a)), Not(Eq(At(a, k), At(b, k)))))
	case KMap:
		k := V(fmt.Sprintf("ext!%d!%d", a.id, b.id), a.Sort.Key)
		da, db := MapDom(a, k), MapDom(b, k)
		return Or(e, Not(Eq(da, db)), And(da, Not(Eq(MapVal(a, k), MapVal(b, k)))))
	}
	return nil
}

// searchInstance is the consequence of sindex_first (ichar_first) for a constant pattern: the first occurrence is at most
// at any place where the bytes of the pattern stand.
func searchInstance(a *Term) *Term {
	s, t := a.Args[0], a.Args[1]
	var cs []*Term
	if a.Name == "ichar" {
		cs = []*Term{t}
		if s.Op != OSub {
			return nil // the axiom itself does
		}
	} else {
		if t.Op != OLit || len(t.Name) == 0 || len(t.Name) > 8 {
			return nil
		}
		for i := 0; i < len(t.Name); i++ {
			cs = append(cs, I(int64(t.Name[i])))
		}
	}
	b, lo, hi, ok := s, I(0), Len(s), True
	if s.Op == OSub {
		b, lo, hi = s.Args[0], s.Args[1], s.Args[2]
		ok = And(Le(I(0), lo), Le(lo, hi), Le(hi, Len(b)))
	}
	i := FreshBound("p", SInt)
	i0 := At(b, i)
	h := []*Term{ok, Le(lo, i), Le(AddC(i, int64(len(cs))), hi)}
	for k, c := range cs {
		h = append(h, Eq(At(b, AddC(i, int64(k))), c))
	}
	return Forall([]*Term{i}, Imp(And(h...), And(Le(I(0), a), Le(Add(lo, a), i))), []*Term{i0})
}

// instances adds the instances of f at the ground applications that match the trigger g syntactically.
func (p *prep) instances(f *Term, g []*Term) {
	n := 0
	var rec func(k int, m map[*Term]*Term, d int)
	rec = func(k int, m map[*Term]*Term, d int) {
		if n > 60 {
			return
		}
		if k == len(g) {
			for _, v := range f.Vars {
				if m[v] == nil {
					return
				}
			}
			i := Subst(f.Args[0], m)
			if i != True && !p.done[i] {
				p.done[i] = true
				n++
				p.add(i, d)
			}
			return
		}
		t := g[k]
		for _, a := range append([]*Term{}, p.apps[t.Name]...) {
			m2 := map[*Term]*Term{}
			for x, y := range m {
				m2[x] = y
			}
			ok := len(a.Args) == len(t.Args)
			for i := 0; ok && i < len(t.Args); i++ {
				x := t.Args[i]
				if x.Op == OBound {
					if m2[x] != nil && m2[x] != a.Args[i] {
						ok = false
					}
					m2[x] = a.Args[i]
				} else {
					ok = x == a.Args[i]
				}
			}
			if ok {
				e := d
				if p.unfoldD[a] > e {
					e = p.unfoldD[a]
				}
				rec(k+1, m2, e)
			}
		}
	}
	for _, t := range g {
		if t.Op != OApp {
			return
		}
	}
	rec(0, map[*Term]*Term{}, 0)
}

// subFacts: what an equation of a slice of a variable says about the elements of the variable.
func subFacts(h *Term) (r []*Term) {
	if h.Op == OAnd {
		for _, a := range h.Args {
			r = append(r, subFacts(a)...)
		}
		return r
	}
	if h.Op != OEq || h.fv {
		return nil
	}
	for k := 0; k < 2; k++ {
		s, o := h.Args[k], h.Args[1-k]
		if s.Op != OSub || s.Args[0].Op != OVar || hasSub(o, s.Args[0], map[*Term]bool{}) || o.Op == OLit && len(o.Name) < 9 {
			continue
		}
		b, lo, hi := s.Args[0], s.Args[1], s.Args[2]
		i := FreshBound("p", SInt)
		r = append(r, Forall([]*Term{i}, Imp(And(Le(I(0), lo), Le(lo, hi), Le(hi, Len(b)), Le(lo, i), Lt(i, hi)),
			Eq(At(b, i), At(o, Sub2(i, lo)))), []*Term{At(b, i)}))
	}
	return r
}

// Prepare adds ground instances: unfolded definitions, extensionality.
func (qu *Query) Prepare() (fs []*Term, used map[string]bool) {
	p := &prep{seen: map[*Term]bool{}, seqEqs: map[*Term]bool{}, apps: map[string][]*Term{}, unfoldD: map[*Term]int{}, done: map[*Term]bool{}}
	hyps := append([]*Term{}, qu.Hyps...)
	goal := skolemGoal(qu.Goal, &hyps)
	hyps = append(hyps, Not(goal))
	if qu.Reduce {
		hyps = reduce(hyps)
	}
	for _, h := range hyps {
		p.add(skolemHyp(h), 0)
	}
	fuel := qu.Fuel
	if fuel == 0 {
		fuel = 2
	}
	axioms := qu.Axioms
	if axioms == nil {
		for _, a := range theory.Axioms {
			if !a.Local || qu.Using[a.Name] {
				axioms = append(axioms, a)
			}
		}
	}
	pairDone := map[[2]*Term]bool{}
	axDone := map[*Axiom]bool{}
	nExt := 0
	for round := 0; round < 6; round++ {
		n := len(p.out)
		// axioms whose trigger symbols are present
		for _, ax := range axioms {
			if axDone[ax] {
				continue
			}
			for _, g := range ax.Trig {
				all := true
				for _, f := range g {
					if _, ok := p.apps[f]; !ok {
						all = false
						break
					}
				}
				if all {
					axDone[ax] = true
					p.add(ax.F, fuel)
					break
				}
			}
		}
		var names []string
		for nm := range p.apps {
			names = append(names, nm)
		}
		sort.Strings(names)
		for _, nm := range names {
			def := theory.Defs[nm]
			as := append([]*Term{}, p.apps[nm]...)
			if def != nil && def.Body != nil && !qu.Hide[nm] {
				for _, a := range as {
					d := p.unfoldD[a]
					if p.done[a] || d >= fuel {
						continue
					}
					p.done[a] = true
					m := map[*Term]*Term{}
					for i, v := range def.Params {
						m[v] = a.Args[i]
					}
					p.add(Eq(a, Subst(def.Body, m)), d+1)
				}
			}
			// what the search axioms say about the bytes of the whole sequence a searched slice was cut from
			if nm == "sindex" || nm == "ichar" {
				for _, a := range as {
					if f := searchInstance(a); f != nil && !p.done[f] {
						p.done[f] = true
						p.add(f, fuel)
					}
				}
			}
			// congruence candidates
			for i := 0; i < len(as) && len(as) <= 40; i++ {
				for j := 0; j < i; j++ {
					for k := range as[i].Args {
						x, y := as[i].Args[k], as[j].Args[k]
						if x.Sort.Kind != KSeq || x == y {
							continue
						}
						if pairDone[[2]*Term{x, y}] || nExt > 250 {
							continue
						}
						pairDone[[2]*Term{x, y}] = true
						pairDone[[2]*Term{y, x}] = true
						e := Eq(x, y)
						if e == False || e == True {
							continue
						}
						if e.Op == OEq {
							nExt++
							p.visit(e, 0)
							p.queue = append(p.queue, e)
						}
					}
				}
			}
		}
		if round == 0 && qu.Sub {
			for _, h := range hyps {
				for _, f := range subFacts(h) {
					p.add(f, fuel)
				}
			}
		}
		// instances of lemmas at the applications that occur
		for _, ax := range axioms {
			if !ax.Lemma || !axDone[ax] || ax.F.Op != OForall {
				continue
			}
			for _, g := range ax.F.Trig {
				p.instances(ax.F, g)
			}
		}
		var es []*Term
		for e := range p.seqEqs {
			if !p.done[e] {
				es = append(es, e)
			}
		}
		sortTerms(es)
		for _, e := range es {
			p.done[e] = true
			if f := extInstance(e); f != nil {
				p.add(f, 0)
			}
		}
		if len(p.out) == n {
			break
		}
	}
	used = map[string]bool{}
	for n := range p.apps {
		used[n] = true
	}
	usedMu.Lock()
	for a := range axDone {
		usedAxioms[a.Name] = true
	}
	usedMu.Unlock()
	return p.out, used
}

func (qu *Query) SMT(extra string) string {
	fs, _ := qu.Prepare()
	p := NewPrinter()
	p.w.WriteString(extra)
	var as []string
	for _, f := range fs {
		if f == True {
			continue
		}
		as = append(as, p.term(f))
	}
	for _, a := range as {
		p.w.WriteString("(assert " + a + ")\n")
	}
	p.w.WriteString("(check-sat)\n")
	return p.w.String()
}

// ---------------------------------------------------------------- running solvers

type Backend struct {
	Name string
	Cmd  []string
	Head string
}

func z3head(seed int) string {
	return fmt.Sprintf("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.random_seed %d)\n", seed)
}

var backends = []Backend{
	{"z3-new", []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"z3", []string{"z3", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--quiet"}, "(set-logic ALL)\n"},
}

type Result struct {
	Proved  bool
	Backend string
	Output  string
	Time    time.Duration
}

func runSolver(b Backend, smt string, tmo time.Duration) (string, time.Duration) {
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, b.Cmd[0], b.Cmd[1:]...)
	cmd.Stdin = strings.NewReader(b.Head + smt)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	st := time.Now()
	out, _ := cmd.Output()
	return strings.TrimSpace(string(out)), time.Since(st)
}

var solverSem = make(chan bool, 8)

var solverStats struct {
	sync.Mutex
	time  time.Duration
	calls int
}

// Prove runs the portfolio.
func (qu *Query) Prove(tmo time.Duration) Result {
	if qu.Goal == True {
		return Result{Proved: true, Backend: "simplifier"}
	}
	for _, h := range qu.Hyps {
		if h == False {
			return Result{Proved: true, Backend: "simplifier"}
		}
	}
	var last Result
	if d := os.Getenv("GOCV_DUMP"); d != "" && strings.Contains(qu.Name, d) {
		os.WriteFile("/tmp/gocv_dump.smt2", []byte(backends[0].Head+qu.SMT("")), 0644)
	}
	short := 3 * time.Second
	if short > tmo {
		short = tmo
	}
	type attempt struct {
		b int
		v int // bit 0: Sub, bit 1: Reduce
		t time.Duration
	}
	as := []attempt{{0, 0, short}, {0, 2, short}, {0, 1, short}, {0, 3, short}, {1, 0, short}, {2, 0, short}}
	if tmo > short {
		as = append(as, attempt{0, 0, tmo}, attempt{0, 2, tmo}, attempt{0, 1, tmo}, attempt{1, 0, tmo}, attempt{1, 1, tmo})
	}
	if qu.Quick {
		as = []attempt{{0, 0, tmo}}
	}
	var text [4]string
	gaveUp := map[[2]int]bool{}
	tot := time.Duration(0)
	var parts []*Query
	if !qu.Part && !qu.Quick {
		parts = split(qu.Hyps, qu.Goal)
		if len(parts) > 1 && short > time.Second {
			as[0].t = time.Second
		}
	}
	for i, a := range as {
		if i == 1 && len(parts) > 1 {
			// the parts one by one
			all := true
			for _, x := range parts {
				x.Name, x.Fuel, x.Hide, x.Using, x.Axioms, x.Part = qu.Name, qu.Fuel, qu.Hide, qu.Using, qu.Axioms, true
				r := x.Prove(tmo)
				tot += r.Time
				if os.Getenv("GOCV_PARTS") != "" && r.Time > time.Second {
					fmt.Fprintf(os.Stderr, "part %.1fs %v %s %s\n", r.Time.Seconds(), r.Proved, qu.Name, firstLine(fmt.Sprint(x.Goal)))
				}
				if all = r.Proved; !all {
					break
				}
				last = r
			}
			if all {
				last.Time = tot
				return last
			}
		}
		b := backends[a.b]
		v := a.v
		if gaveUp[[2]int{a.b, v}] {
			continue
		}
		if text[v] == "" {
			qu.Sub, qu.Reduce = v&1 != 0, v&2 != 0
			text[v] = qu.SMT("")
			if v&1 != 0 && text[v] == text[v-1] {
				gaveUp[[2]int{0, v}], gaveUp[[2]int{1, v}] = true, true
				continue
			}
		}
		smt := text[v]
		solverSem <- true
		out, d := runSolver(b, smt, a.t)
		<-solverSem
		tot += d
		solverStats.Lock()
		solverStats.time += d
		solverStats.calls++
		solverStats.Unlock()
		first := strings.SplitN(out, "\n", 2)[0]
		if first == "unsat" {
			return Result{true, b.Name, out, tot}
		}
		if strings.HasPrefix(first, "(error") {
			fmt.Fprintf(os.Stderr, "solver error %s: %s (%s)\n", b.Name, first, qu.Name)
			os.WriteFile("/tmp/gocv_err.smt2", []byte(b.Head+smt), 0644)
		}
		if first != "" {
			gaveUp[[2]int{a.b, v}] = true
		}
		if i == 0 || first != "" {
			last = Result{false, b.Name, out, tot}
		}
	}
	last.Time = tot
	if len(last.Output) > 2000 {
		last.Output = last.Output[:2000]
	}
	return last
}

// ---------------------------------------------------------------- incremental pruner

type Pruner struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	p     *Printer
	stack []*Term
	dead  bool
	N     int
	cache map[string]bool
}

func NewPruner() *Pruner {
	pr := &Pruner{p: NewPrinter(), cache: map[string]bool{}}
	pr.cmd = exec.Command("z3-new", "-in")
	pr.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	pr.in, _ = pr.cmd.StdinPipe()
	o, _ := pr.cmd.StdoutPipe()
	pr.out = bufio.NewReader(o)
	if err := pr.cmd.Start(); err != nil {
		pr.dead = true
		return pr
	}
	io.WriteString(pr.in, "(set-option :global-declarations true)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :timeout 150)\n")
	return pr
}
func (pr *Pruner) Close() {
	if pr.cmd != nil && pr.cmd.Process != nil {
		pr.in.Close()
		pr.cmd.Process.Kill()
		pr.cmd.Wait()
	}
}

func hasQuant(t *Term) bool {
	if t.Op == OForall || t.Op == OExists {
		return true
	}
	for _, a := range t.Args {
		if hasQuant(a) {
			return true
		}
	}
	return false
}

// Unsat reports whether pc and extra are contradictory (best effort).
func (pr *Pruner) Unsat(pc []*Term, extra *Term) bool {
	if extra == False {
		return true
	}
	if pr.dead {
		return false
	}
	k := 0
	for k < len(pc) && k < len(pr.stack) && pc[k] == pr.stack[k] {
		k++
	}
	var b strings.Builder
	// print first: declarations (with axioms) go to the outermost level
	render := func(t *Term) []string {
		r := []string{pr.p.term(t)}
		var eqs []*Term
		collectEqs(t, &eqs, map[*Term]bool{})
		for _, e := range eqs {
			if e.Args[0].Op == OLit || e.Args[1].Op == OLit {
				if f := extInstance(e); f != nil {
					r = append(r, pr.p.term(f))
				}
			}
		}
		return r
	}
	var rs [][]string
	for i := k; i < len(pc); i++ {
		rs = append(rs, render(pc[i]))
	}
	ex := render(extra)
	decl := pr.p.w.String()
	pr.p.w.Reset()
	if strings.Contains(decl, "(assert") && len(pr.stack) > 0 {
		fmt.Fprintf(&b, "(pop %d)\n", len(pr.stack))
		pr.stack = nil
		rs = nil
		for i := 0; i < len(pc); i++ {
			rs = append(rs, render(pc[i]))
		}
		decl += pr.p.w.String()
		pr.p.w.Reset()
		k = 0
	} else if len(pr.stack) > k {
		fmt.Fprintf(&b, "(pop %d)\n", len(pr.stack)-k)
		pr.stack = pr.stack[:k]
	}
	b.WriteString(decl)
	for i, r := range rs {
		b.WriteString("(push 1)\n")
		for _, s := range r {
			b.WriteString("(assert " + s + ")\n")
		}
		pr.stack = append(pr.stack, pc[k+i])
	}
	b.WriteString("(push 1)\n")
	for _, s := range ex {
		b.WriteString("(assert " + s + ")\n")
	}
	b.WriteString("(check-sat)\n(pop 1)\n(echo \"done\")\n")
	pr.N++
	if _, err := io.WriteString(pr.in, b.String()); err != nil {
		pr.dead = true
		return false
	}
	res := false
	for {
		line, err := pr.out.ReadString('\n')
		if err != nil {
			pr.dead = true
			return false
		}
		line = strings.TrimSpace(line)
		if line == "unsat" {
			res = true
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "pruner:", line)
		}
		if line == "done" {
			return res
		}
	}
}

func collectEqs(t *Term, r *[]*Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OEq && !t.fv && t.Args[0].Sort.Kind == KSeq {
		*r = append(*r, t)
	}
	for _, a := range t.Args {
		collectEqs(a, r, seen)
	}
}
