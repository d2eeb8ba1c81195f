package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// evalCtx evaluates contract expressions.
type evalCtx struct {
	sp     *Specs
	x      *Exec
	st     *State
	old    *State
	vars   map[string]Val
	types  map[string]types.Type
	local  func(e *evalCtx, name string) (Val, types.Type, bool)
	bound  map[string]bool
	result bool
	hints  bool
	assume bool // evaluated to be assumed: freshness that is not known says nothing
}

type evalErr string

func (c *evalCtx) fail(n *Node, f string, a ...interface{}) {
	panic(evalErr(fmt.Sprintf("%s:%d: ", n.File, n.Line) + fmt.Sprintf(f, a...)))
}

func (c *evalCtx) term(n *Node) *Term {
	v, t := c.eval(n)
	return c.asTerm(n, v, t)
}

func (c *evalCtx) asTerm(n *Node, v Val, t types.Type) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *SliceV:
		return c.x.view(c.st, a)
	case *MapV:
		return c.x.content(c.st, a.Cell, a.T)
	case *StructV:
		if t == nil {
			c.fail(n, "untyped struct")
		}
		return c.x.encode(c.st, a, t, nil)
	case nilVal:
		return Null
	case nil:
		c.fail(n, "no value")
	}
	return c.x.encode(c.st, v, t, nil)
}

type nilVal struct{}

func (c *evalCtx) bool(n *Node) *Term {
	t := c.term(n)
	if t.Sort != SBool {
		c.fail(n, "boolean expected, got %s", t.Sort.Name)
	}
	return t
}

func (c *evalCtx) int(n *Node) *Term {
	t := c.term(n)
	if t.Sort != SInt {
		c.fail(n, "integer expected, got %s", t.Sort.Name)
	}
	return t
}

func (c *evalCtx) sub() *evalCtx { n := *c; return &n }

func (c *evalCtx) withVar(name string, v Val, t types.Type) *evalCtx {
	n := *c
	n.vars = map[string]Val{}
	for k, x := range c.vars {
		n.vars[k] = x
	}
	n.types = map[string]types.Type{}
	for k, x := range c.types {
		n.types[k] = x
	}
	n.bound = map[string]bool{name: true}
	for k := range c.bound {
		n.bound[k] = true
	}
	n.vars[name] = v
	if t != nil {
		n.types[name] = t
	} else {
		delete(n.types, name)
	}
	return &n
}

func (c *evalCtx) eval(n *Node) (Val, types.Type) {
	switch n.Op {
	case "int":
		return IB(n.N), nil
	case "str":
		return Lit(n.S), nil
	case "true":
		return True, nil
	case "false":
		return False, nil
	case "nil":
		return nilVal{}, nil
	case "id":
		return c.ident(n)
	case "!":
		return Not(c.bool(n.A[0])), nil
	case "neg":
		return MulC(big.NewInt(-1), c.int(n.A[0])), nil
	case "&&":
		a := c.bool(n.A[0])
		if a == False {
			return False, nil
		}
		return And(a, c.bool(n.A[1])), nil
	case "||":
		return Or(c.bool(n.A[0]), c.bool(n.A[1])), nil
	case "==>":
		a := c.bool(n.A[0])
		if a == False {
			return True, nil
		}
		return Imp(a, c.bool(n.A[1])), nil
	case "<==>":
		return Eq(c.bool(n.A[0]), c.bool(n.A[1])), nil
	case "ite":
		k := c.bool(n.A[0])
		if k == True {
			return c.eval(n.A[1])
		}
		if k == False {
			return c.eval(n.A[2])
		}
		a, b := c.term(n.A[1]), c.term(n.A[2])
		if a.Sort != b.Sort {
			c.fail(n, "branches of sorts %s and %s", a.Sort.Name, b.Sort.Name)
		}
		return Ite(k, a, b), nil
	case "let":
		v, t := c.eval(n.A[0])
		return c.withVar(n.S, v, t).eval(n.A[1])
	case "==", "!=":
		e := c.equal(n)
		if n.Op == "!=" {
			e = Not(e)
		}
		return e, nil
	case "===":
		side := func(m *Node) Val {
			if m.Op == "call" && m.S == "old" && len(m.A) == 1 && c.old != nil {
				d := c.sub()
				d.st = c.old
				v, _ := d.eval(m.A[0])
				return v
			}
			v, _ := c.eval(m)
			return v
		}
		return c.sameSlice(n, side(n.A[0]), side(n.A[1])), nil
	case "<":
		return Lt(c.int(n.A[0]), c.int(n.A[1])), nil
	case "<=":
		return Le(c.int(n.A[0]), c.int(n.A[1])), nil
	case ">":
		return Lt(c.int(n.A[1]), c.int(n.A[0])), nil
	case ">=":
		return Le(c.int(n.A[1]), c.int(n.A[0])), nil
	case "+":
		a, b := c.term(n.A[0]), c.term(n.A[1])
		if a.Sort.Kind == KSeq {
			if a.Sort != b.Sort {
				c.fail(n, "+ of %s and %s", a.Sort.Name, b.Sort.Name)
			}
			return Cat(a.Sort, a, b), nil
		}
		if a.Sort != SInt || b.Sort != SInt {
			c.fail(n, "+ of %s and %s", a.Sort.Name, b.Sort.Name)
		}
		return Add(a, b), nil
	case "-":
		return Sub2(c.int(n.A[0]), c.int(n.A[1])), nil
	case "*":
		return Mul(c.int(n.A[0]), c.int(n.A[1])), nil
	case "/":
		return Div(c.int(n.A[0]), c.int(n.A[1])), nil
	case "%":
		return Mod(c.int(n.A[0]), c.int(n.A[1])), nil
	case "in":
		k := c.term(n.A[0])
		m := c.term(n.A[1])
		return MapDom(m, k), nil
	case "deref":
		v, t := c.eval(n.A[0])
		p := c.pointer(n, v, t)
		if p.Cell == 0 {
			return c.x.symbolic(c.st, p.T, "nil", false), p.T // says nothing
		}
		return c.x.load(c.st, p), p.T
	case ".":
		v, t := c.eval(n.A[0])
		return c.field(n, v, t, n.S)
	case "index":
		v, t := c.eval(n.A[0])
		if m, ok := v.(*MapV); ok {
			return c.wrap(MapVal(c.x.content(c.st, m.Cell, m.T), c.term(n.A[1])), m.T.Elem())
		}
		s := c.asTerm(n, v, t)
		if s.Sort.Kind == KMap {
			var et types.Type
			if t != nil {
				if m, ok := t.Underlying().(*types.Map); ok {
					et = m.Elem()
				}
			}
			return c.wrap(MapVal(s, c.term(n.A[1])), et)
		}
		if s.Sort.Kind != KSeq {
			c.fail(n, "index into %s", s.Sort.Name)
		}
		i := c.int(n.A[1])
		var et types.Type
		if sv, ok := v.(*SliceV); ok {
			et = sv.T.Elem()
		} else if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			}
		}
		return c.wrap(At(s, i), et)
	case "slice":
		v, t := c.eval(n.A[0])
		lo := I(0)
		if n.A[1] != nil {
			lo = c.int(n.A[1])
		}
		if sv, ok := v.(*SliceV); ok {
			hi := sv.Len
			if n.A[2] != nil {
				hi = c.int(n.A[2])
			}
			return &SliceV{T: sv.T, Cell: sv.Cell, Off: Add(sv.Off, lo), Len: Sub2(hi, lo), Cap: Sub2(sv.Cap, lo), Null: And(sv.Null, Eq(hi, I(0)))}, t
		}
		s := c.asTerm(n, v, t)
		if s.Sort.Kind != KSeq {
			c.fail(n, "slice of %s", s.Sort.Name)
		}
		hi := Len(s)
		if n.A[2] != nil {
			hi = c.int(n.A[2])
		}
		return SubSeq(s, lo, hi), t
	case "forall", "exists":
		d := c
		var bs []*Term
		for _, v := range n.Vars {
			b := FreshBound(v.Name, v.Sort)
			d = d.withVar(v.Name, b, nil)
			bs = append(bs, b)
		}
		body := d.bool(n.A[0])
		var trig [][]*Term
		for _, tr := range n.Trig {
			var ts []*Term
			for _, e := range tr {
				ts = append(ts, d.term(e))
			}
			trig = append(trig, ts)
		}
		if n.Op == "forall" {
			return Forall(bs, body, trig...), nil
		}
		return Exists(bs, body, trig...), nil
	case "call":
		return c.call(n)
	}
	c.fail(n, "cannot evaluate %s", n.Op)
	return nil, nil
}

// wrap decodes pointers held in containers.
func (c *evalCtx) wrap(t *Term, et types.Type) (Val, types.Type) {
	if et != nil && t.Sort == SRef && c.x != nil {
		if _, ok := et.Underlying().(*types.Pointer); ok {
			return c.x.decode(c.st, t, et, 0), et
		}
		if _, ok := et.Underlying().(*types.Interface); ok {
			return c.x.decode(c.st, t, et, 0), et
		}
	}
	return t, et
}

func (c *evalCtx) pointer(n *Node, v Val, t types.Type) *PtrV {
	if p, ok := v.(*PtrV); ok {
		return p
	}
	if tm, ok := v.(*Term); ok && tm.Sort == SRef && t != nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return c.x.decode(c.st, tm, t, 0).(*PtrV)
		}
	}
	c.fail(n, "pointer expected, got %T", v)
	return nil
}

func (c *evalCtx) field(n *Node, v Val, t types.Type, f string) (Val, types.Type) {
	switch a := v.(type) {
	case *PtrV:
		if a.Cell == 0 {
			return c.field(n, c.x.symbolic(c.st, a.T, "nil", false), a.T, f) // says nothing
		}
		sv := c.x.load(c.st, a)
		return c.field(n, sv, a.T, f)
	case *StructV:
		for i := 0; i < a.T.NumFields(); i++ {
			if a.T.Field(i).Name() == f {
				return a.F[i], a.T.Field(i).Type()
			}
		}
		c.fail(n, "no field %s", f)
	case *Term:
		if a.Sort.Kind == KStruct {
			for i, sf := range a.Sort.Fields {
				if sf.Name == f {
					var ft types.Type
					if t != nil {
						ft = t.Underlying().(*types.Struct).Field(i).Type()
					}
					return c.wrap(Sel(a, i), ft)
				}
			}
			c.fail(n, "no field %s in %s", f, a.Sort.Name)
		}
		if a.Sort == SRef && t != nil {
			return c.field(n, c.pointer(n, v, t), t, f)
		}
	}
	c.fail(n, "field %s of %T", f, v)
	return nil, nil
}

func (c *evalCtx) isNil(n *Node, v Val) *Term {
	switch a := v.(type) {
	case *SliceV:
		return a.Null
	case *PtrV:
		if len(a.Path) > 0 {
			return False
		}
		return Eq(a.Ref, Null)
	case *IfaceV:
		return Eq(a.Ref, Null)
	case *FuncV:
		return Eq(a.Ref, Null)
	case *ChanV:
		return Eq(a.Ref, Null)
	case *MapV:
		return Eq(a.Ref, Null)
	case *Term:
		if a.Sort == SRef {
			return Eq(a, Null)
		}
	case nilVal:
		return True
	}
	c.fail(n, "%T compared with nil", v)
	return nil
}

func (c *evalCtx) equal(n *Node) *Term {
	a, ta := c.eval(n.A[0])
	b, tb := c.eval(n.A[1])
	if _, ok := b.(nilVal); ok {
		return c.isNil(n, a)
	}
	if _, ok := a.(nilVal); ok {
		return c.isNil(n, b)
	}
	x, y := c.asTerm(n, a, ta), c.asTerm(n, b, tb)
	if x.Sort != y.Sort {
		c.fail(n, "comparison of %s and %s", x.Sort.Name, y.Sort.Name)
	}
	return Eq(x, y)
}

func (c *evalCtx) sameSlice(n *Node, a, b Val) *Term {
	x, ok1 := a.(*SliceV)
	y, ok2 := b.(*SliceV)
	if !ok1 || !ok2 {
		c.fail(n, "=== needs slices")
	}
	if x.Cell != y.Cell {
		return False
	}
	return And(Eq(x.Off, y.Off), Eq(x.Len, y.Len))
}

func (c *evalCtx) ident(n *Node) (Val, types.Type) {
	if c.local != nil && !c.bound[n.S] {
		if v, t, ok := c.local(c, n.S); ok {
			return v, t
		}
	}
	if v, ok := c.vars[n.S]; ok {
		return v, c.types[n.S]
	}
	if c.sp != nil {
		if e, ok := c.sp.Consts[n.S]; ok {
			return c.eval(e)
		}
		if g, ok := c.sp.Ghosts[n.S]; ok {
			if c.st == nil {
				c.fail(n, "ghost %s without a state", n.S)
			}
			return c.x.ghost(c.st, g), nil
		}
	}
	c.fail(n, "unknown name %s", n.S)
	return nil, nil
}

func (c *evalCtx) call(n *Node) (Val, types.Type) {
	switch n.S {
	case "old":
		if c.old == nil {
			c.fail(n, "old without an old state")
		}
		d := c.sub()
		d.st = c.old
		v, t := d.eval(n.A[0])
		// slices are read in the old state now
		switch a := v.(type) {
		case *SliceV:
			return d.x.view(d.st, a), t
		case *MapV:
			return d.x.content(d.st, a.Cell, a.T), t
		case *StructV:
			return d.asTerm(n, v, t), t
		}
		return v, t
	case "len":
		v, t := c.eval(n.A[0])
		if s, ok := v.(*SliceV); ok {
			return s.Len, nil
		}
		return Len(c.asTerm(n, v, t)), nil
	case "cap":
		v, _ := c.eval(n.A[0])
		if s, ok := v.(*SliceV); ok {
			return s.Cap, nil
		}
		c.fail(n, "cap of %T", v)
	case "bytes":
		return c.term(n.A[0]), nil
	case "string":
		return c.term(n.A[0]), nil
	case "unit":
		t := c.term(n.A[0])
		return Unit(SeqSort(t.Sort), t), nil
	case "global":
		return V("global."+n.A[0].S, SRef), nil
	case "hint":
		// in the proof of a lemma: a term for the solver to look at
		if !c.hints {
			return True, nil
		}
		t := c.term(n.A[0])
		return App("hint!"+t.Sort.Name, SBool, t), nil
	case "byte":
		return Unit(SBytes, c.int(n.A[0])), nil
	case "empty":
		return EmptySeq(SBytes), nil
	case "none":
		// empty sequence of the named sort
		l := lex(n.A[0].S, n.File)
		return EmptySeq(l.sort()), nil
	case "mapempty":
		l := lex(n.A[0].S, n.File)
		return MapEmpty(l.sort()), nil
	case "mapupd":
		return MapUpd(c.term(n.A[0]), c.term(n.A[1]), c.term(n.A[2])), nil
	case "mapkeys":
		return MapKeys(c.term(n.A[0])), nil
	case "keyindex":
		m := c.term(n.A[0])
		return App("keyindex$"+m.Sort.Name, SInt, m, c.term(n.A[1])), nil
	case "upd":
		return Upd(c.term(n.A[0]), c.int(n.A[1]), c.term(n.A[2])), nil
	case "mk":
		l := lex(n.A[0].S, n.File)
		s := l.sort()
		var as []*Term
		for i, a := range n.A[1:] {
			v, t := c.eval(a)
			if _, ok := v.(nilVal); ok {
				_ = i
				as = append(as, Null)
				continue
			}
			as = append(as, c.asTerm(a, v, t))
		}
		if len(as) != len(s.Fields) {
			c.fail(n, "mk %s: %d fields", s.Name, len(s.Fields))
		}
		return Mk(s, as...), nil
	case "zero":
		var t types.Type
		if c.x != nil {
			t = c.x.prog.lookupType(n.A[0].S)
		} else if theProg != nil {
			t = theProg.lookupType(n.A[0].S)
		}
		if t == nil {
			c.fail(n, "unknown type %s", n.A[0].S)
		}
		return zeroTerm(t), t
	case "with":
		// with(struct, "field", value)
		s := c.term(n.A[0])
		v := c.term(n.A[2])
		var as []*Term
		ok := false
		for i, f := range s.Sort.Fields {
			if f.Name == n.A[1].S {
				ok = true
				as = append(as, v)
			} else {
				as = append(as, Sel(s, i))
			}
		}
		if !ok {
			c.fail(n, "no field %s", n.A[1].S)
		}
		return Mk(s.Sort, as...), nil
	case "dyn":
		v, _ := c.eval(n.A[0])
		if f, ok := v.(*IfaceV); ok {
			if f.Dyn != nil {
				return typeID(f.Dyn), nil
			}
			return dynType(f.Ref), nil
		}
		c.fail(n, "dyn of %T", v)
	case "type":
		return typeIDName(n.A[0].S), nil
	case "unbox":
		v, _ := c.eval(n.A[0])
		t := c.x.prog.lookupType(n.A[1].S)
		if t == nil {
			c.fail(n, "unknown type %s", n.A[1].S)
		}
		if f, ok := v.(*IfaceV); ok {
			if f.Dyn != nil && types.Identical(f.Dyn, t) {
				return f.Val, t
			}
			return c.x.unbox(c.st, f.Ref, t), t
		}
		c.fail(n, "unbox of %T", v)
	case "ref":
		v, t := c.eval(n.A[0])
		switch a := v.(type) {
		case *PtrV:
			return a.Ref, nil
		case *IfaceV:
			return a.Ref, nil
		case *FuncV:
			return a.Ref, nil
		case *ChanV:
			return a.Ref, nil
		case *MapV:
			return a.Ref, nil
		case *Term:
			return a, t
		}
		c.fail(n, "ref of %T", v)
	case "fresh":
		v, _ := c.eval(n.A[0])
		if r := c.x.isFresh(c.st, v); r || !c.assume {
			return B(r), nil
		}
		return FreshV("fresh", SBool), nil
	case "disjoint":
		a, _ := c.eval(n.A[0])
		b, _ := c.eval(n.A[1])
		if r := c.x.isDisjoint(c.st, a, b); r || !c.assume {
			return B(r), nil
		}
		return FreshV("disjoint", SBool), nil
	case "holds":
		// holds("fn name", ...): FuncV identity
		v, _ := c.eval(n.A[0])
		if f, ok := v.(*FuncV); ok && f.Fn != nil {
			return B(strings.HasPrefix(shortFn(f.Fn), n.A[1].S)), nil
		}
		return False, nil
	}
	d := theory.Defs[n.S]
	if d == nil {
		c.fail(n, "unknown function %s", n.S)
	}
	if len(d.Params) != len(n.A) {
		c.fail(n, "%s: %d arguments wanted", n.S, len(d.Params))
	}
	var as []*Term
	for i, a := range n.A {
		v, t := c.eval(a)
		var tm *Term
		if _, ok := v.(nilVal); ok {
			tm = Null
		} else if iv, ok := v.(*IfaceV); ok {
			tm = iv.Ref
		} else {
			tm = c.asTerm(a, v, t)
		}
		if tm.Sort != d.Params[i].Sort {
			c.fail(n, "argument %d of %s: %s wanted, got %s", i, n.S, d.Params[i].Sort.Name, tm.Sort.Name)
		}
		as = append(as, tm)
	}
	return applySpec(d, as), nil
}

func applySpec(d *SpecDef, as []*Term) *Term {
	if d.Body != nil && !d.Rec {
		m := map[*Term]*Term{}
		for i, p := range d.Params {
			m[p] = as[i]
		}
		return Subst(d.Body, m)
	}
	return App(d.Name, d.Ret, as...)
}
