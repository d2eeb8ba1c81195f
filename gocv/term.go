package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// ---------------------------------------------------------------- sorts

type SortKind int

const (
	KInt SortKind = iota
	KBool
	KSeq    // generic sequence
	KStruct // datatype
	KMap    // dom/val pair
	KU      // uninterpreted
)

type Sort struct {
	Kind   SortKind
	Name   string // SMT name
	Elem   *Sort  // KSeq
	Key    *Sort  // KMap
	Val    *Sort  // KMap
	Byte   bool   // KSeq of bytes
	Fields []SField
}
type SField struct {
	Name string
	Sort *Sort
}

var (
	sortMu  sync.Mutex
	sorts   = map[string]*Sort{}
	SInt    = &Sort{Kind: KInt, Name: "Int"}
	SBool   = &Sort{Kind: KBool, Name: "Bool"}
	SBytes  = &Sort{Kind: KSeq, Name: "Bytes", Elem: SInt, Byte: true}
	SRef    = &Sort{Kind: KU, Name: "Ref"}
	sortSeq []*Sort // creation order, for declarations
)

func init() {
	for _, s := range []*Sort{SInt, SBool, SBytes, SRef} {
		sorts[s.Name] = s
	}
	sortSeq = append(sortSeq, SRef, SBytes)
}

func regSort(name string, mk func() *Sort) *Sort {
	sortMu.Lock()
	defer sortMu.Unlock()
	if s, ok := sorts[name]; ok {
		return s
	}
	s := mk()
	sorts[name] = s
	sortSeq = append(sortSeq, s)
	return s
}
func SeqSort(e *Sort) *Sort {
	return regSort("Seq_"+e.Name, func() *Sort { return &Sort{Kind: KSeq, Name: "Seq_" + e.Name, Elem: e} })
}
func MapSort(k, v *Sort) *Sort {
	n := "Map_" + k.Name + "_" + v.Name
	return regSort(n, func() *Sort { return &Sort{Kind: KMap, Name: n, Key: k, Val: v} })
}
func USort(n string) *Sort {
	return regSort(n, func() *Sort { return &Sort{Kind: KU, Name: n} })
}
func StructSort(n string, fs []SField) *Sort {
	return regSort(n, func() *Sort { return &Sort{Kind: KStruct, Name: n, Fields: fs} })
}

// ---------------------------------------------------------------- terms

type Op int

const (
	OVar Op = iota // free constant
	OBound
	OInt
	OBool
	OLit // byte string literal
	OLin // linear combination: sum Coef[i]*Args[i] + I
	OMul // nonlinear product
	ODiv // euclidean/floor div by positive (SMT div)
	OMod // SMT mod
	OLe0 // Args[0] <= 0
	OEq  // equality (ints: Args[0] = 0 normalised as OEq0)
	OEq0 // Args[0] = 0
	ONot
	OAnd
	OOr
	OIte
	OLen
	OAt
	OCat
	OSub
	OUpd
	OUnit
	ORep // rep(n, v)
	OApp
	OForall
	OExists
	OMk     // struct constructor
	OSel    // struct selector (K = index)
	ONull   // null ref
	OAddr   // address of a fresh allocation: distinct
	OMapDom // dom(m,k) Bool
	OMapVal // val(m,k)
	OMapUpd // upd(m,k,v)
	OMapDel // del(m,k)
	OMapEmpty
)

type Term struct {
	Op    Op
	Sort  *Sort
	Args  []*Term
	Name  string
	I     *big.Int
	Coef  []*big.Int
	B     bool
	Vars  []*Term // bound variables
	Trig  [][]*Term
	K     int
	id    int64
	fv    bool // contains bound variables free in it
	depth int
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termCnt int64
	freshC  int64
)

func (t *Term) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s|%d|", t.Op, t.Sort.Name, t.Name, t.K)
	if t.I != nil {
		b.WriteString(t.I.String())
	}
	b.WriteByte('|')
	if t.B {
		b.WriteByte('1')
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, c := range t.Coef {
		b.WriteString("*" + c.String())
	}
	for _, v := range t.Vars {
		fmt.Fprintf(&b, ";%d", v.id)
	}
	for _, tr := range t.Trig {
		b.WriteByte('!')
		for _, x := range tr {
			fmt.Fprintf(&b, "%d.", x.id)
		}
	}
	return b.String()
}

func mk(t *Term) *Term {
	k := t.key()
	termMu.Lock()
	defer termMu.Unlock()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	if t.Op == OBound {
		t.fv = true
	}
	for _, a := range t.Args {
		if a.fv {
			t.fv = true
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	if t.Op == OForall || t.Op == OExists {
		// recompute: is anything free besides Vars
		t.fv = hasFree(t.Args[0], t.Vars)
	}
	termTab[k] = t
	return t
}

func hasFree(t *Term, bound []*Term) bool {
	if !t.fv {
		return false
	}
	switch t.Op {
	case OBound:
		for _, b := range bound {
			if b == t {
				return false
			}
		}
		return true
	case OForall, OExists:
		nb := append(append([]*Term{}, bound...), t.Vars...)
		return hasFree(t.Args[0], nb)
	}
	for _, a := range t.Args {
		if hasFree(a, bound) {
			return true
		}
	}
	return false
}

var (
	True  = mk(&Term{Op: OBool, Sort: SBool, B: true})
	False = mk(&Term{Op: OBool, Sort: SBool})
	Null  = mk(&Term{Op: ONull, Sort: SRef})
)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}
func I(n int64) *Term           { return IB(big.NewInt(n)) }
func IB(n *big.Int) *Term       { return mk(&Term{Op: OInt, Sort: SInt, I: n}) }
func V(n string, s *Sort) *Term { return mk(&Term{Op: OVar, Sort: s, Name: n}) }
func Lit(s string) *Term        { return mk(&Term{Op: OLit, Sort: SBytes, Name: s}) }
func BoundV(n string, s *Sort) *Term {
	return mk(&Term{Op: OBound, Sort: s, Name: n})
}
func FreshV(n string, s *Sort) *Term {
	c := atomic.AddInt64(&freshC, 1)
	return V(fmt.Sprintf("%s!%d", n, c), s)
}
func FreshBound(n string, s *Sort) *Term {
	c := atomic.AddInt64(&freshC, 1)
	return BoundV(fmt.Sprintf("%s?%d", n, c), s)
}
func FreshAddr(n string) *Term {
	c := atomic.AddInt64(&freshC, 1)
	return mk(&Term{Op: OAddr, Sort: SRef, Name: fmt.Sprintf("&%s!%d", n, c)})
}

var (
	bigOne  = big.NewInt(1)
	bigZero = big.NewInt(0)
	maxLen  = new(big.Int).Lsh(bigOne, 48)
)

// linear parts of an int term
type lin struct {
	atoms []*Term
	coef  []*big.Int
	c     *big.Int
}

func linOf(t *Term) lin {
	switch t.Op {
	case OInt:
		return lin{c: t.I}
	case OLin:
		return lin{atoms: t.Args, coef: t.Coef, c: t.I}
	}
	return lin{atoms: []*Term{t}, coef: []*big.Int{bigOne}, c: bigZero}
}

func (l lin) term() *Term {
	if len(l.atoms) == 0 {
		return IB(l.c)
	}
	if len(l.atoms) == 1 && l.coef[0].Cmp(bigOne) == 0 && l.c.Sign() == 0 {
		return l.atoms[0]
	}
	return mk(&Term{Op: OLin, Sort: SInt, Args: l.atoms, Coef: l.coef, I: l.c})
}

// a + k*b
func linAdd(a, b lin, k *big.Int) lin {
	var r lin
	r.c = new(big.Int).Add(a.c, new(big.Int).Mul(k, b.c))
	i, j := 0, 0
	for i < len(a.atoms) || j < len(b.atoms) {
		switch {
		case j >= len(b.atoms) || (i < len(a.atoms) && a.atoms[i].id < b.atoms[j].id):
			r.atoms = append(r.atoms, a.atoms[i])
			r.coef = append(r.coef, a.coef[i])
			i++
		case i >= len(a.atoms) || b.atoms[j].id < a.atoms[i].id:
			c := new(big.Int).Mul(k, b.coef[j])
			if c.Sign() != 0 {
				r.atoms = append(r.atoms, b.atoms[j])
				r.coef = append(r.coef, c)
			}
			j++
		default:
			c := new(big.Int).Add(a.coef[i], new(big.Int).Mul(k, b.coef[j]))
			if c.Sign() != 0 {
				r.atoms = append(r.atoms, a.atoms[i])
				r.coef = append(r.coef, c)
			}
			i++
			j++
		}
	}
	return r
}

func Add(ts ...*Term) *Term {
	l := linOf(ts[0])
	for _, t := range ts[1:] {
		l = linAdd(l, linOf(t), bigOne)
	}
	return l.term()
}
func Sub2(a, b *Term) *Term       { return linAdd(linOf(a), linOf(b), big.NewInt(-1)).term() }
func AddC(a *Term, n int64) *Term { return Add(a, I(n)) }
func MulC(k *big.Int, a *Term) *Term {
	return linAdd(lin{c: bigZero}, linOf(a), k).term()
}
func Mul(a, b *Term) *Term {
	if a.Op == OInt {
		return MulC(a.I, b)
	}
	if b.Op == OInt {
		return MulC(b.I, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: OMul, Sort: SInt, Args: []*Term{a, b}})
}

// interval of a term, nil = unbounded
func bounds(t *Term) (lo, hi *big.Int) { return boundsD(t, 0) }
func boundsD(t *Term, d int) (lo, hi *big.Int) {
	if d > 12 {
		return nil, nil
	}
	switch t.Op {
	case OInt:
		return t.I, t.I
	case OAt:
		if t.Args[0].Sort.Byte {
			return bigZero, big.NewInt(255)
		}
	case OLen:
		return bigZero, maxLen // no slice or string exceeds the address space
	case OMod:
		if t.Args[1].Op == OInt && t.Args[1].I.Sign() > 0 {
			h := new(big.Int).Sub(t.Args[1].I, bigOne)
			_, ah := boundsD(t.Args[0], d+1)
			al, _ := boundsD(t.Args[0], d+1)
			if al != nil && al.Sign() >= 0 && ah != nil && ah.Cmp(h) < 0 {
				h = ah
			}
			return bigZero, h
		}
	case ODiv:
		if t.Args[1].Op == OInt && t.Args[1].I.Sign() > 0 {
			l, h := boundsD(t.Args[0], d+1)
			if l != nil {
				l = new(big.Int).Div(l, t.Args[1].I)
			}
			if h != nil {
				h = new(big.Int).Div(h, t.Args[1].I)
			}
			return l, h
		}
	case OIte:
		l1, h1 := boundsD(t.Args[1], d+1)
		l2, h2 := boundsD(t.Args[2], d+1)
		if l1 != nil && l2 != nil {
			if l1.Cmp(l2) > 0 {
				l1 = l2
			}
			lo = l1
		}
		if h1 != nil && h2 != nil {
			if h1.Cmp(h2) < 0 {
				h1 = h2
			}
			hi = h1
		}
		return
	case OLin:
		lo, hi = t.I, t.I
		for i, a := range t.Args {
			l, h := boundsD(a, d+1)
			c := t.Coef[i]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, new(big.Int).Mul(c, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, new(big.Int).Mul(c, h))
				}
			}
		}
		return
	case OApp:
		if r, ok := appRange[t.Name]; ok {
			return r[0], r[1]
		}
	}
	return nil, nil
}

// ranges of uninterpreted int functions known to be bounded
var appRange = map[string][2]*big.Int{}

func Div(a, b *Term) *Term { // floor division, b > 0 expected
	if b.Op == OInt && b.I.Sign() > 0 {
		if b.I.Cmp(bigOne) == 0 {
			return a
		}
		if a.Op == OInt {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.I, b.I, m)
			return IB(q)
		}
		lo, hi := bounds(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.I) < 0 {
			return I(0)
		}
		// divisible parts come out
		if a.Op == OLin {
			var in, out lin
			in.c, out.c = bigZero, bigZero
			for i, at := range a.Args {
				q, m := new(big.Int), new(big.Int)
				q.DivMod(a.Coef[i], b.I, m)
				if m.Sign() == 0 {
					out = linAdd(out, lin{atoms: []*Term{at}, coef: []*big.Int{q}, c: bigZero}, bigOne)
				} else {
					in = linAdd(in, lin{atoms: []*Term{at}, coef: []*big.Int{a.Coef[i]}, c: bigZero}, bigOne)
				}
			}
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.I, b.I, m)
			in.c, out.c = m, q
			if len(out.atoms) > 0 || q.Sign() != 0 {
				it := in.term()
				return Add(out.term(), Div(it, b))
			}
		}
		if a.Op == ODiv && a.Args[1].Op == OInt && a.Args[1].I.Sign() > 0 {
			return Div(a.Args[0], IB(new(big.Int).Mul(a.Args[1].I, b.I)))
		}
	}
	return mk(&Term{Op: ODiv, Sort: SInt, Args: []*Term{a, b}})
}
func Mod(a, b *Term) *Term {
	if b.Op == OInt && b.I.Sign() > 0 {
		if b.I.Cmp(bigOne) == 0 {
			return I(0)
		}
		if a.Op == OInt {
			return IB(new(big.Int).Mod(a.I, b.I))
		}
		lo, hi := bounds(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.I) < 0 {
			return a
		}
		if a.Op == OLin {
			// reduce coefficients modulo b
			in := lin{c: new(big.Int).Mod(a.I, b.I)}
			ch := in.c.Cmp(a.I) != 0
			for i, at := range a.Args {
				m := new(big.Int).Mod(a.Coef[i], b.I)
				if m.Cmp(a.Coef[i]) != 0 {
					ch = true
				}
				if m.Sign() != 0 {
					in.atoms = append(in.atoms, at)
					in.coef = append(in.coef, m)
				}
			}
			if ch {
				return Mod(in.term(), b)
			}
		}
		if a.Op == OMod && a.Args[1].Op == OInt && new(big.Int).Mod(a.Args[1].I, b.I).Sign() == 0 {
			return Mod(a.Args[0], b)
		}
	}
	return mk(&Term{Op: OMod, Sort: SInt, Args: []*Term{a, b}})
}

func le0(l lin) *Term {
	if len(l.atoms) == 0 {
		return B(l.c.Sign() <= 0)
	}
	// gcd tightening
	g := new(big.Int)
	for _, c := range l.coef {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(bigOne) > 0 {
		var r lin
		r.atoms = l.atoms
		for _, c := range l.coef {
			r.coef = append(r.coef, new(big.Int).Quo(c, g))
		}
		// sum + c <= 0  <=> sum <= -c <=> sum' <= floor(-c/g)
		f := new(big.Int).Div(new(big.Int).Neg(l.c), g)
		r.c = new(big.Int).Neg(f)
		l = r
	}
	t := l.term()
	lo, hi := bounds(t)
	if hi != nil && hi.Sign() <= 0 {
		return True
	}
	if lo != nil && lo.Sign() > 0 {
		return False
	}
	return mk(&Term{Op: OLe0, Sort: SBool, Args: []*Term{t}})
}
func Le(a, b *Term) *Term { return le0(linAdd(linOf(a), linOf(b), big.NewInt(-1))) }
func Lt(a, b *Term) *Term { return Le(AddC(a, 1), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func eq0(l lin) *Term {
	if len(l.atoms) == 0 {
		return B(l.c.Sign() == 0)
	}
	g := new(big.Int)
	for _, c := range l.coef {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if new(big.Int).Mod(l.c, g).Sign() != 0 {
		return False
	}
	if l.coef[0].Sign() < 0 {
		g.Neg(g)
	}
	if g.Cmp(bigOne) != 0 {
		var r lin
		r.atoms = l.atoms
		for _, c := range l.coef {
			r.coef = append(r.coef, new(big.Int).Quo(c, g))
		}
		r.c = new(big.Int).Quo(l.c, g)
		l = r
	}
	t := l.term()
	lo, hi := bounds(t)
	if (hi != nil && hi.Sign() < 0) || (lo != nil && lo.Sign() > 0) {
		return False
	}
	return mk(&Term{Op: OEq0, Sort: SBool, Args: []*Term{t}})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq: sorts %s %s: %s = %s", a.Sort.Name, b.Sort.Name, a, b))
	}
	switch a.Sort.Kind {
	case KInt:
		// ite with constants
		if a.Op == OIte && b.Op == OInt {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if b.Op == OIte && a.Op == OInt {
			return Eq(b, a)
		}
		return eq0(linAdd(linOf(a), linOf(b), big.NewInt(-1)))
	case KBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if Not(a) == b {
			return False
		}
	case KStruct:
		if a.Op == OMk || b.Op == OMk {
			var cs []*Term
			for i := range a.Sort.Fields {
				cs = append(cs, Eq(Sel(a, i), Sel(b, i)))
			}
			return And(cs...)
		}
	case KSeq:
		return seqEq(a, b)
	case KU:
		if a.Sort == SRef {
			if distinctRefs(a, b) {
				return False
			}
			if a.Op == OIte {
				return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
			}
			if b.Op == OIte {
				return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: OEq, Sort: SBool, Args: []*Term{a, b}})
}

func distinctRefs(a, b *Term) bool {
	if a.Op == OAddr && (b.Op == OAddr || b.Op == ONull || b.Op == OVar) {
		return true
	}
	if b.Op == OAddr && (a.Op == ONull || a.Op == OVar) {
		return true
	}
	return false
}

func catParts(t *Term) []*Term {
	if t.Op == OCat {
		return t.Args
	}
	if isEmptySeq(t) {
		return nil
	}
	return []*Term{t}
}

func isEmptySeq(t *Term) bool {
	return (t.Op == OLit && t.Name == "") || (t.Op == OCat && len(t.Args) == 0)
}

func seqEq(a, b *Term) *Term {
	if a.Op == OLit && b.Op == OLit {
		return B(a.Name == b.Name)
	}
	pa, pb := catParts(a), catParts(b)
	pa = append([]*Term{}, pa...)
	pb = append([]*Term{}, pb...)
	ch := false
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
		ch = true
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
		ch = true
	}
	// literal prefixes
	for len(pa) > 0 && len(pb) > 0 && pa[0].Op == OLit && pb[0].Op == OLit {
		x, y := pa[0].Name, pb[0].Name
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		if x[:n] != y[:n] {
			return False
		}
		pa[0], pb[0] = Lit(x[n:]), Lit(y[n:])
		if isEmptySeq(pa[0]) {
			pa = pa[1:]
		}
		if isEmptySeq(pb[0]) {
			pb = pb[1:]
		}
		ch = true
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1].Op == OLit && pb[len(pb)-1].Op == OLit {
		x, y := pa[len(pa)-1].Name, pb[len(pb)-1].Name
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		if x[len(x)-n:] != y[len(y)-n:] {
			return False
		}
		pa[len(pa)-1], pb[len(pb)-1] = Lit(x[:len(x)-n]), Lit(y[:len(y)-n])
		if isEmptySeq(pa[len(pa)-1]) {
			pa = pa[:len(pa)-1]
		}
		if isEmptySeq(pb[len(pb)-1]) {
			pb = pb[:len(pb)-1]
		}
		ch = true
	}
	if ch {
		na, nb := Cat(a.Sort, pa...), Cat(a.Sort, pb...)
		return Eq(na, nb)
	}
	if len(pa) == 1 && len(pb) == 1 && pa[0].Op == OUnit && pb[0].Op == OUnit {
		return Eq(pa[0].Args[0], pb[0].Args[0])
	}
	if Eq(Len(a), Len(b)) == False {
		return False
	}
	if isEmptySeq(b) {
		return Eq(Len(a), I(0))
	}
	if isEmptySeq(a) {
		return Eq(Len(b), I(0))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: OEq, Sort: SBool, Args: []*Term{a, b}})
}

func Not(a *Term) *Term {
	switch a.Op {
	case OBool:
		return B(!a.B)
	case ONot:
		return a.Args[0]
	case OLe0:
		return le0(linAdd(lin{c: bigOne}, linOf(a.Args[0]), big.NewInt(-1)))
	case OAnd:
		var r []*Term
		for _, x := range a.Args {
			r = append(r, Not(x))
		}
		return Or(r...)
	case OOr:
		var r []*Term
		for _, x := range a.Args {
			r = append(r, Not(x))
		}
		return And(r...)
	}
	return mk(&Term{Op: ONot, Sort: SBool, Args: []*Term{a}})
}

func And(ts ...*Term) *Term { return andor(OAnd, ts) }
func Or(ts ...*Term) *Term  { return andor(OOr, ts) }
func Imp(a, b *Term) *Term  { return Or(Not(a), b) }

func andor(op Op, ts []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	seen := map[*Term]bool{}
	var r []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if t.Op != OAnd && t.Op != OOr && seen[Not(t)] {
			return false
		}
		seen[t] = true
		r = append(r, t)
		return true
	}
	for _, t := range ts {
		if t.Sort != SBool {
			panic("and/or of non-bool " + t.String())
		}
		if !add(t) {
			return zero
		}
	}
	if len(r) == 0 {
		return unit
	}
	if len(r) == 1 {
		return r[0]
	}
	return mk(&Term{Op: op, Sort: SBool, Args: r})
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	return mk(&Term{Op: OIte, Sort: a.Sort, Args: []*Term{c, a, b}})
}

func EmptySeq(s *Sort) *Term {
	if s.Byte {
		return Lit("")
	}
	return mk(&Term{Op: OCat, Sort: s})
}

func Len(s *Term) *Term {
	switch s.Op {
	case OLit:
		return I(int64(len(s.Name)))
	case OUnit:
		return I(1)
	case OCat:
		r := I(0)
		for _, a := range s.Args {
			r = Add(r, Len(a))
		}
		return r
	case OSub:
		return Sub2(s.Args[2], s.Args[1])
	case OUpd:
		return Len(s.Args[0])
	case ORep:
		return s.Args[0]
	case OIte:
		return Ite(s.Args[0], Len(s.Args[1]), Len(s.Args[2]))
	}
	if s.Op == OVar {
		if l, ok := seqLens.Load(s); ok {
			return l.(*Term)
		}
	}
	return mk(&Term{Op: OLen, Sort: SInt, Args: []*Term{s}})
}

// seqLens holds the lengths of the unknowns made with a given length.
var seqLens sync.Map

// FreshSeq is an unknown sequence of a given length.
func FreshSeq(n string, s *Sort, l *Term) *Term {
	v := FreshV(n, s)
	if l.Op == OInt && l.I.IsInt64() && l.I.Int64() == 1 {
		b := FreshV(n, s.Elem)
		return Unit(s, b)
	}
	seqLens.Store(v, l)
	return v
}

// constant difference a-b if syntactically known
func diffC(a, b *Term) (*big.Int, bool) {
	d := Sub2(a, b)
	if d.Op == OInt {
		return d.I, true
	}
	return nil, false
}

// known a <= b by syntactic bounds
func knownLe(a, b *Term) bool { return Le(a, b) == True }

func At(s, i *Term) *Term {
	switch s.Op {
	case OLit:
		if i.Op == OInt && i.I.IsInt64() {
			k := i.I.Int64()
			if k >= 0 && k < int64(len(s.Name)) {
				return I(int64(s.Name[k]))
			}
		}
	case OUnit:
		if i.Op == OInt && i.I.Sign() == 0 {
			return s.Args[0]
		}
	case ORep:
		return s.Args[1]
	case OSub:
		return At(s.Args[0], Add(s.Args[1], i))
	case OUpd:
		if d, ok := diffC(s.Args[1], i); ok {
			if d.Sign() == 0 {
				return s.Args[2]
			}
			return At(s.Args[0], i)
		}
		if Eq(s.Args[1], i) == False {
			return At(s.Args[0], i)
		}
	case OCat:
		pos := I(0)
		for _, a := range s.Args {
			end := Add(pos, Len(a))
			if knownLe(pos, i) && knownLe(AddC(i, 1), end) {
				return At(a, Sub2(i, pos))
			}
			if !knownLe(end, i) {
				break
			}
			pos = end
		}
		// from the end
		end := Len(s)
		for k := len(s.Args) - 1; k >= 0; k-- {
			a := s.Args[k]
			st := Sub2(end, Len(a))
			if knownLe(st, i) && knownLe(AddC(i, 1), end) {
				return At(a, Sub2(i, st))
			}
			if !knownLe(AddC(i, 1), st) {
				break
			}
			end = st
		}
	case OIte:
		return Ite(s.Args[0], At(s.Args[1], i), At(s.Args[2], i))
	}
	return mk(&Term{Op: OAt, Sort: s.Sort.Elem, Args: []*Term{s, i}})
}

func Unit(s *Sort, v *Term) *Term {
	if s.Byte && v.Op == OInt && v.I.Sign() >= 0 && v.I.Cmp(big.NewInt(256)) < 0 {
		return Lit(string([]byte{byte(v.I.Int64())}))
	}
	return mk(&Term{Op: OUnit, Sort: s, Args: []*Term{v}})
}
func Rep(s *Sort, n, v *Term) *Term {
	if n.Op == OInt {
		if n.I.Sign() == 0 {
			return EmptySeq(s)
		}
		if n.I.Cmp(big.NewInt(64)) <= 0 && n.I.Sign() > 0 {
			var ps []*Term
			for k := int64(0); k < n.I.Int64(); k++ {
				ps = append(ps, Unit(s, v))
			}
			return Cat(s, ps...)
		}
	}
	return mk(&Term{Op: ORep, Sort: s, Args: []*Term{n, v}})
}

func Cat(s *Sort, ts ...*Term) *Term {
	var r []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == OCat {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if isEmptySeq(t) || Len(t) == I(0) {
			return
		}
		if len(r) > 0 {
			p := r[len(r)-1]
			if p.Op == OLit && t.Op == OLit {
				r[len(r)-1] = Lit(p.Name + t.Name)
				return
			}
			if p.Op == OSub && t.Op == OSub && p.Args[0] == t.Args[0] && p.Args[2] == t.Args[1] {
				r[len(r)-1] = SubSeq(p.Args[0], p.Args[1], t.Args[2])
				return
			}
			// sub(x,a,b) ++ unit(x[b])
			if t.Op == OUnit && t.Args[0].Op == OAt && p.Op == OSub && p.Args[0] == t.Args[0].Args[0] && p.Args[2] == t.Args[0].Args[1] {
				r[len(r)-1] = SubSeq(p.Args[0], p.Args[1], AddC(p.Args[2], 1))
				return
			}
		}
		r = append(r, t)
	}
	for _, t := range ts {
		if t.Sort != s {
			panic(fmt.Sprintf("cat sort %s in %s", t.Sort.Name, s.Name))
		}
		add(t)
	}
	if len(r) == 0 {
		return EmptySeq(s)
	}
	if len(r) == 1 {
		return r[0]
	}
	return mk(&Term{Op: OCat, Sort: s, Args: r})
}

func SubSeq(s, lo, hi *Term) *Term {
	if lo == hi {
		return EmptySeq(s.Sort)
	}
	if lo == I(0) && hi == Len(s) {
		return s
	}
	switch s.Op {
	case OLit:
		if lo.Op == OInt && hi.Op == OInt && lo.I.Sign() >= 0 && hi.I.Cmp(big.NewInt(int64(len(s.Name)))) <= 0 && lo.I.Cmp(hi.I) <= 0 {
			return Lit(s.Name[lo.I.Int64():hi.I.Int64()])
		}
	case OSub:
		return SubSeq(s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi))
	case ORep:
		return Rep(s.Sort, Sub2(hi, lo), s.Args[1])
	case OUpd:
		if knownLe(hi, s.Args[1]) || Lt(s.Args[1], lo) == True {
			return SubSeq(s.Args[0], lo, hi)
		}
		if knownLe(lo, s.Args[1]) && Lt(s.Args[1], hi) == True {
			return Upd(SubSeq(s.Args[0], lo, hi), Sub2(s.Args[1], lo), s.Args[2])
		}
	case OCat:
		// drop leading pieces
		pos := I(0)
		for k, a := range s.Args {
			end := Add(pos, Len(a))
			if k == 0 && knownLe(end, lo) || k > 0 && knownLe(end, lo) {
				rest := Cat(s.Sort, s.Args[k+1:]...)
				return SubSeq(rest, Sub2(lo, end), Sub2(hi, end))
			}
			break
		}
		// drop trailing pieces
		tot := Len(s)
		n := len(s.Args)
		st := Sub2(tot, Len(s.Args[n-1]))
		if knownLe(hi, st) {
			return SubSeq(Cat(s.Sort, s.Args[:n-1]...), lo, hi)
		}
		// lo is 0 and hi covers the first piece
		first := Len(s.Args[0])
		if lo == I(0) && knownLe(first, hi) {
			return Cat(s.Sort, s.Args[0], SubSeq(Cat(s.Sort, s.Args[1:]...), I(0), Sub2(hi, first)))
		}
		if hi == tot && knownLe(lo, st) {
			return Cat(s.Sort, SubSeq(Cat(s.Sort, s.Args[:n-1]...), lo, st), s.Args[n-1])
		}
		// literal first piece partly cut
		if s.Args[0].Op == OLit && lo.Op == OInt && knownLe(lo, first) && knownLe(first, hi) {
			return Cat(s.Sort, SubSeq(s.Args[0], lo, first), SubSeq(Cat(s.Sort, s.Args[1:]...), I(0), Sub2(hi, first)))
		}
	case OIte:
		return Ite(s.Args[0], SubSeq(s.Args[1], lo, hi), SubSeq(s.Args[2], lo, hi))
	}
	return mk(&Term{Op: OSub, Sort: s.Sort, Args: []*Term{s, lo, hi}})
}

func Upd(s, i, v *Term) *Term {
	if s.Op == OUpd && s.Args[1] == i {
		s = s.Args[0]
	}
	if s.Op == OCat {
		pos := I(0)
		for k, a := range s.Args {
			end := Add(pos, Len(a))
			if knownLe(pos, i) && Lt(i, end) == True {
				na := append([]*Term{}, s.Args...)
				na[k] = Upd(a, Sub2(i, pos), v)
				return Cat(s.Sort, na...)
			}
			if !knownLe(end, i) {
				break
			}
			pos = end
		}
	}
	if s.Op == OUnit && i == I(0) {
		return Unit(s.Sort, v)
	}
	if s.Op == OLit && i.Op == OInt && i.I.IsInt64() {
		k := i.I.Int64()
		if k >= 0 && k < int64(len(s.Name)) {
			return Cat(s.Sort, Lit(s.Name[:k]), Unit(s.Sort, v), Lit(s.Name[k+1:]))
		}
	}
	return mk(&Term{Op: OUpd, Sort: s.Sort, Args: []*Term{s, i, v}})
}

func App(name string, ret *Sort, args ...*Term) *Term {
	if f := appFold[name]; f != nil {
		if r := f(args); r != nil {
			return r
		}
	}
	return mk(&Term{Op: OApp, Sort: ret, Name: name, Args: args})
}

// constant folding of known functions
var appFold = map[string]func([]*Term) *Term{}

func Mk(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("Mk arity " + s.Name)
	}
	for i, a := range args {
		if a.Sort != s.Fields[i].Sort {
			panic(fmt.Sprintf("Mk %s.%s: %s", s.Name, s.Fields[i].Name, a.Sort.Name))
		}
	}
	// mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].Op == OSel && args[0].Args[0].Sort == s {
		x := args[0].Args[0]
		all := true
		for i, a := range args {
			if !(a.Op == OSel && a.K == i && a.Args[0] == x) {
				all = false
				break
			}
		}
		if all {
			return x
		}
	}
	return mk(&Term{Op: OMk, Sort: s, Args: args})
}
func Sel(x *Term, k int) *Term {
	if x.Op == OMk {
		return x.Args[k]
	}
	if x.Op == OIte {
		return Ite(x.Args[0], Sel(x.Args[1], k), Sel(x.Args[2], k))
	}
	return mk(&Term{Op: OSel, Sort: x.Sort.Fields[k].Sort, Args: []*Term{x}, K: k})
}

// MapKeys is the order in which a loop over the map takes its keys.
func MapKeys(m *Term) *Term { return App("mapkeys$"+m.Sort.Name, SeqSort(m.Sort.Key), m) }

func MapDom(m, k *Term) *Term {
	switch m.Op {
	case OMapEmpty:
		return False
	case OMapUpd:
		e := Eq(m.Args[1], k)
		if e == True {
			return True
		}
		return Or(e, MapDom(m.Args[0], k))
	case OMapDel:
		return And(Not(Eq(m.Args[1], k)), MapDom(m.Args[0], k))
	case OIte:
		return Ite(m.Args[0], MapDom(m.Args[1], k), MapDom(m.Args[2], k))
	}
	return mk(&Term{Op: OMapDom, Sort: SBool, Args: []*Term{m, k}})
}
func MapVal(m, k *Term) *Term {
	switch m.Op {
	case OMapUpd:
		e := Eq(m.Args[1], k)
		if e == True {
			return m.Args[2]
		}
		if e == False {
			return MapVal(m.Args[0], k)
		}
		return Ite(e, m.Args[2], MapVal(m.Args[0], k))
	case OMapDel:
		return MapVal(m.Args[0], k)
	case OIte:
		return Ite(m.Args[0], MapVal(m.Args[1], k), MapVal(m.Args[2], k))
	}
	return mk(&Term{Op: OMapVal, Sort: m.Sort.Val, Args: []*Term{m, k}})
}
func MapUpd(m, k, v *Term) *Term {
	return mk(&Term{Op: OMapUpd, Sort: m.Sort, Args: []*Term{m, k, v}})
}
func MapDel(m, k *Term) *Term {
	return mk(&Term{Op: OMapDel, Sort: m.Sort, Args: []*Term{m, k}})
}
func MapEmpty(s *Sort) *Term { return mk(&Term{Op: OMapEmpty, Sort: s}) }

func Forall(vars []*Term, body *Term, trig ...[]*Term) *Term {
	return quant(OForall, vars, body, trig)
}
func Exists(vars []*Term, body *Term, trig ...[]*Term) *Term {
	return quant(OExists, vars, body, trig)
}
func quant(op Op, vars []*Term, body *Term, trig [][]*Term) *Term {
	if body.Op == OBool {
		return body
	}
	var used []*Term
	for _, v := range vars {
		if occurs(body, v) {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	return mk(&Term{Op: op, Sort: SBool, Args: []*Term{body}, Vars: used, Trig: trig})
}

func occurs(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.fv {
		return false
	}
	for _, a := range t.Args {
		if occurs(a, v) {
			return true
		}
	}
	return false
}

// Subst replaces terms (variables) by terms, rebuilding with the smart constructors.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.Op == OForall || t.Op == OExists {
		cap := false
		for _, v := range m {
			if v.fv {
				for _, b := range t.Vars {
					if occurs(v, b) {
						cap = true
					}
				}
			}
		}
		if cap {
			rn := map[*Term]*Term{}
			var nv []*Term
			for _, b := range t.Vars {
				f := FreshBound(strings.SplitN(b.Name, "?", 2)[0], b.Sort)
				rn[b] = f
				nv = append(nv, f)
			}
			body := Subst(t.Args[0], rn)
			var tr [][]*Term
			for _, x := range t.Trig {
				var y []*Term
				for _, z := range x {
					y = append(y, Subst(z, rn))
				}
				tr = append(tr, y)
			}
			t = quant(t.Op, nv, body, tr)
			if t.Op != OForall && t.Op != OExists {
				return subst(t, m, memo)
			}
		}
		nb := subst(t.Args[0], m, memo)
		var tr [][]*Term
		for _, x := range t.Trig {
			var y []*Term
			for _, z := range x {
				y = append(y, subst(z, m, memo))
			}
			tr = append(tr, y)
		}
		if nb == t.Args[0] {
			r = t
		} else {
			r = quant(t.Op, t.Vars, nb, tr)
		}
	} else {
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = subst(a, m, memo)
			if args[i] != a {
				same = false
			}
		}
		if same {
			r = t
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OLin:
		l := lin{c: t.I}
		for i := range a {
			l = linAdd(l, linOf(a[i]), t.Coef[i])
		}
		return l.term()
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return Div(a[0], a[1])
	case OMod:
		return Mod(a[0], a[1])
	case OLe0:
		return le0(linOf(a[0]))
	case OEq0:
		return eq0(linOf(a[0]))
	case OEq:
		return Eq(a[0], a[1])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OLen:
		return Len(a[0])
	case OAt:
		return At(a[0], a[1])
	case OCat:
		return Cat(t.Sort, a...)
	case OSub:
		return SubSeq(a[0], a[1], a[2])
	case OUpd:
		return Upd(a[0], a[1], a[2])
	case OUnit:
		return Unit(t.Sort, a[0])
	case ORep:
		return Rep(t.Sort, a[0], a[1])
	case OApp:
		return App(t.Name, t.Sort, a...)
	case OMk:
		return Mk(t.Sort, a...)
	case OSel:
		return Sel(a[0], t.K)
	case OMapDom:
		return MapDom(a[0], a[1])
	case OMapVal:
		return MapVal(a[0], a[1])
	case OMapUpd:
		return MapUpd(a[0], a[1], a[2])
	case OMapDel:
		return MapDel(a[0], a[1])
	}
	panic(fmt.Sprintf("rebuild op %d", t.Op))
}

// ---------------------------------------------------------------- printing (human)

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	s := t.str(0)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}
func (t *Term) str(d int) string {
	if d > 40 {
		return "..."
	}
	args := func() string {
		var r []string
		for _, a := range t.Args {
			r = append(r, a.str(d+1))
		}
		return strings.Join(r, ", ")
	}
	switch t.Op {
	case OVar, OBound, OAddr:
		return t.Name
	case ONull:
		return "null"
	case OInt:
		return t.I.String()
	case OBool:
		return fmt.Sprint(t.B)
	case OLit:
		return fmt.Sprintf("%q", t.Name)
	case OLin:
		var r []string
		for i, a := range t.Args {
			if t.Coef[i].Cmp(bigOne) == 0 {
				r = append(r, a.str(d+1))
			} else {
				r = append(r, t.Coef[i].String()+"*"+a.str(d+1))
			}
		}
		if t.I.Sign() != 0 {
			r = append(r, t.I.String())
		}
		return "(" + strings.Join(r, " + ") + ")"
	case OLe0:
		return "(" + t.Args[0].str(d+1) + " <= 0)"
	case OEq0:
		return "(" + t.Args[0].str(d+1) + " == 0)"
	case OEq:
		return "(" + t.Args[0].str(d+1) + " == " + t.Args[1].str(d+1) + ")"
	case ONot:
		return "!" + t.Args[0].str(d+1)
	case OAnd, OOr:
		o := " && "
		if t.Op == OOr {
			o = " || "
		}
		var r []string
		for _, a := range t.Args {
			r = append(r, a.str(d+1))
		}
		return "(" + strings.Join(r, o) + ")"
	case OForall, OExists:
		n := "forall"
		if t.Op == OExists {
			n = "exists"
		}
		var r []string
		for _, a := range t.Vars {
			r = append(r, a.Name)
		}
		return "(" + n + " " + strings.Join(r, ",") + " :: " + t.Args[0].str(d+1) + ")"
	case OApp:
		return t.Name + "(" + args() + ")"
	case OSel:
		return t.Args[0].str(d+1) + "." + t.Args[0].Sort.Fields[t.K].Name
	case OAt:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OSub:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + ":" + t.Args[2].str(d+1) + "]"
	}
	n := map[Op]string{OMul: "mul", ODiv: "div", OMod: "mod", OIte: "ite", OLen: "len", OCat: "cat", OUpd: "upd", OUnit: "unit", ORep: "rep", OMk: "mk", OMapDom: "dom", OMapVal: "val", OMapUpd: "mapupd", OMapDel: "mapdel", OMapEmpty: "emptymap"}[t.Op]
	return n + "(" + args() + ")"
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
