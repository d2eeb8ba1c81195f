package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- effective contracts

type effPart struct {
	c     *Contract
	iface types.Type // type of self for interface contracts
}

type effContract struct {
	name  string
	fn    *ssa.Function
	parts []effPart
	plain bool // no contract was written: references passed are assumed not to be nil
}

func (e *effContract) loop(i int) *LoopSpec {
	for _, p := range e.parts {
		if l := p.c.Loops[i]; l != nil {
			return l
		}
	}
	return nil
}
func (e *effContract) decr() *effPart {
	for i := range e.parts {
		if e.parts[i].c.Decr != nil {
			return &e.parts[i]
		}
	}
	return nil
}

func (c *Contract) active(prop string) bool {
	for _, cl := range c.Clauses {
		if inView(cl.Tags, prop) {
			return true
		}
	}
	for _, k := range c.Keep {
		if k == "*" || k == prop {
			return true
		}
	}
	return len(c.Clauses) == 0 && len(c.Keep) == 0 && c.Kind != "func"
}

// effective returns the contract of a repository function in the current view, nil when it is to be inlined.
func (x *Exec) effective(fn *ssa.Function) *effContract {
	n := shortFn(fn)
	e := &effContract{name: n, fn: fn}
	if c := x.sp.Contracts[n]; c != nil && c.active(x.prop) && len(c.Params) == len(fn.Params) {
		e.parts = append(e.parts, effPart{c: c})
	}
	for _, in := range x.prog.ifaceOf[fn] {
		if c := x.sp.Contracts[in.name]; c != nil && c.active(x.prop) {
			e.parts = append(e.parts, effPart{c: c, iface: in.t})
		}
	}
	if len(e.parts) == 0 {
		return nil
	}
	return e
}

// ---------------------------------------------------------------- calls

type methodV struct {
	recv *IfaceV
	name string
	typ  types.Type // static interface type
}

func (x *Exec) callTarget(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.reg(st, a))
	}
	if c.IsInvoke() {
		r, ok := x.reg(st, c.Value).(*IfaceV)
		if !ok {
			panic(unsupported("method of a non-interface"))
		}
		return &methodV{r, c.Method.Name(), c.Value.Type()}, args
	}
	return x.reg(st, c.Value), args
}

func (x *Exec) call(st *State, c *ssa.CallCommon, v ssa.Value, pos token.Pos) {
	fn, args := x.callTarget(st, c)
	x.invoke(st, c, fn, args, v, pos)
}

func setRes(x *Exec, st *State, v ssa.Value, sig *types.Signature, res []Val) {
	if v == nil {
		return
	}
	switch sig.Results().Len() {
	case 0:
	case 1:
		x.set(st, v, res[0])
	default:
		x.set(st, v, &TupleV{res})
	}
}

func (x *Exec) invoke(st *State, c *ssa.CallCommon, fn Val, args []Val, v ssa.Value, pos token.Pos) {
	switch f := fn.(type) {
	case *BuiltinV:
		x.builtin(st, c, f.Name, args, v, pos)
		return
	case *methodV:
		x.invokeMethod(st, c, f, args, v, pos)
		return
	case *FuncV:
		if f.Fn != nil {
			x.callFn(st, c, f.Fn, f.Bind, args, v, pos)
			return
		}
		x.oblige(st, "safety", x.pname("call of a nil function", nil, pos), Not(Eq(f.Ref, Null)), pos)
		key := "call:" + f.Label
		var ts []types.Type
		sig := c.Signature()
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		if ct := x.sp.Contracts[key]; ct != nil && ct.active(x.prop) {
			x.applyContract(st, &effContract{name: key, parts: []effPart{{c: ct}}}, sig, args, ts, v, pos)
			return
		}
		x.assumed[key+" (assumed without effect)"] = true
		setRes(x, st, v, sig, x.results(st, sig, key, args, nil))
		return
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func (x *Exec) invokeMethod(st *State, c *ssa.CallCommon, m *methodV, args []Val, v ssa.Value, pos token.Pos) {
	x.oblige(st, "safety", x.pname("method call on a nil interface", nil, pos), Not(Eq(m.recv.Ref, Null)), pos)
	if m.recv.Dyn != nil {
		ms := x.prog.prog.MethodSets.MethodSet(m.recv.Dyn)
		var sel *types.Selection
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == m.name {
				sel = ms.At(i)
			}
		}
		if sel != nil {
			if f := x.prog.prog.MethodValue(sel); f != nil {
				if f.Synthetic == "" || len(f.Blocks) > 0 {
					x.callFn(st, c, f, nil, append([]Val{m.recv.Val}, args...), v, pos)
					return
				}
			}
		}
	}
	sig := c.Signature()
	ts := []types.Type{m.typ}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	key := typeName(m.typ) + "." + m.name
	all := append([]Val{m.recv}, args...)
	if ct := x.sp.Contracts[key]; ct != nil && ct.active(x.prop) {
		x.assumed[key] = true
		x.applyContract(st, &effContract{name: key, parts: []effPart{{c: ct}}}, sig, all, ts, v, pos)
		return
	}
	// every implementation of the repository
	if ims := x.prog.impls[key]; len(ims) > 0 {
		x.oblige(st, "pre", x.pname("interface value of a known type", nil, pos), x.implCond(m.recv.Ref, ims), pos)
		for k, im := range ims {
			cond := Eq(dynType(m.recv.Ref), typeID(im.t))
			run := func(s *State) {
				s.assume(cond)
				x.callFn(s, c, im.fn, nil, append([]Val{x.unbox(s, m.recv.Ref, im.t)}, args...), v, pos)
			}
			if k == len(ims)-1 {
				run(st)
			} else if !x.unsat(st, cond) {
				x.fork(st, run)
				st.assume(Not(cond))
			}
		}
		return
	}
	panic(unsupported("call of " + key))
}

func (x *Exec) implCond(ref *Term, ims []*implM) *Term {
	var cs []*Term
	for _, im := range ims {
		cs = append(cs, Eq(dynType(ref), typeID(im.t)))
	}
	return Or(cs...)
}

func (x *Exec) paramTypes(fn *ssa.Function) []types.Type {
	var ts []types.Type
	if len(fn.Params) > 0 || fn.Signature.Params().Len() == 0 && fn.Signature.Recv() == nil {
		for _, p := range fn.Params {
			ts = append(ts, p.Type())
		}
		return ts
	}
	if r := fn.Signature.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		ts = append(ts, fn.Signature.Params().At(i).Type())
	}
	return ts
}

func (x *Exec) inRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return x.prog.repoP[fn.Pkg.Pkg]
	}
	if fn.Parent() != nil {
		return x.inRepo(fn.Parent())
	}
	return false
}

func (x *Exec) callFn(st *State, c *ssa.CallCommon, fn *ssa.Function, bind []Val, args []Val, v ssa.Value, pos token.Pos) {
	sig := fn.Signature
	name := shortFn(fn)
	if x.inRepo(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0 && strings.Contains(fn.Synthetic, "wrapper") {
		if eff := x.effective(fn); eff != nil && len(bind) == 0 {
			x.called[name] = true
			if eff.parts[0].c.Kind == "trusted" {
				x.assumed[name] = true
			}
			x.applyContract(st, eff, sig, args, x.paramTypes(fn), v, pos)
			return
		}
		for f := st.frame; f != nil; f = f.caller {
			if f.fn == fn {
				panic(unsupported("recursive call of " + name + " without a contract"))
			}
		}
		if len(fn.Blocks) == 0 {
			panic(unsupported("no body of " + name))
		}
		if st.frame.depth > 30 {
			panic(unsupported("call depth"))
		}
		x.inlined[name] = true
		x.enter(st, fn, bind, args, v)
		return
	}
	if x.model(st, name, c, fn, args, v, pos) {
		x.assumed[name+" (model)"] = true
		return
	}
	if ct := x.sp.Contracts[name]; ct != nil {
		if !ct.active(x.prop) && ct.Kind != "extern" {
			panic(unsupported("call of " + name))
		}
		x.assumed[name] = true
		x.applyContract(st, &effContract{name: name, parts: []effPart{{c: ct}}}, sig, args, x.paramTypes(fn), v, pos)
		return
	}
	panic(unsupported("external function " + name + " has no contract"))
}

// enter pushes a frame.
func (x *Exec) enter(st *State, fn *ssa.Function, bind, args []Val, v ssa.Value) {
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, block: fn.Blocks[0], caller: st.frame, call: v, loops: map[*ssa.BasicBlock]*activeLoop{}}
	if st.frame != nil {
		fr.depth = st.frame.depth + 1
	}
	if len(args) != len(fn.Params) {
		panic(unsupported("arguments of " + shortFn(fn)))
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			fr.regs[fv] = bind[i]
		}
	}
	st.frame = fr
}

func (x *Exec) ret(st *State, res []Val) {
	fr := st.frame
	for _, al := range fr.loops {
		if al.dry {
			st.closed = true
			return
		}
	}
	if fr.onRet != nil {
		fr.onRet(st, res)
		return
	}
	if fr.caller == nil {
		if x.exitHook != nil && x.dry == 0 {
			x.exitHook(st, res)
		}
		st.closed = true
		return
	}
	st.frame = fr.caller
	setRes(x, st, fr.call, fr.fn.Signature, res)
}

// ---------------------------------------------------------------- contracts at a call

type target struct {
	cell   int
	fields []int
	region *span // part of an array
	isMap  bool
}

// results builds arbitrary results.
func (x *Exec) results(st *State, sig *types.Signature, name string, args []Val, extern interface{}) []Val {
	var res []Val
	seen := map[int]bool{}
	for _, a := range args {
		x.arrays(st, a, seen)
	}
	var ids []int
	param := false
	for id := range seen {
		c := st.cells[id]
		if c == nil {
			continue
		}
		switch c.Elem.(type) {
		case *types.Slice, *types.Array:
			ids = append(ids, id)
			if c.Param {
				param = true
			}
		default:
			if c.Elem != nil {
				if _, ok := c.Elem.Underlying().(*types.Array); ok {
					ids = append(ids, id)
					if c.Param {
						param = true
					}
				}
			}
		}
	}
	sort.Ints(ids)
	for i := 0; i < sig.Results().Len(); i++ {
		v := x.symbolic(st, sig.Results().At(i).Type(), resName(name, sig, i), false)
		x.shareArrays(st, v, ids, param)
		res = append(res, v)
	}
	return res
}

func resName(name string, sig *types.Signature, i int) string {
	n := sig.Results().At(i).Name()
	if n == "" {
		n = fmt.Sprintf("r%d", i)
	}
	if j := strings.LastIndexAny(name, "./"); j >= 0 {
		name = name[j+1:]
	}
	return name + "." + n
}

// elemTypes collects the element types of the slices inside values of a type.
func elemTypes(t types.Type, r map[string]bool, seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Slice:
		r[u.Elem().Underlying().String()] = true
		elemTypes(u.Elem(), r, seen)
	case *types.Array:
		r[u.Elem().Underlying().String()] = true
		elemTypes(u.Elem(), r, seen)
	case *types.Map:
		elemTypes(u.Key(), r, seen)
		elemTypes(u.Elem(), r, seen)
	case *types.Pointer:
		elemTypes(u.Elem(), r, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			elemTypes(u.Field(i).Type(), r, seen)
		}
	case *types.Interface:
		r["?"] = true
	}
}

// shareArrays marks the arrays of a value as possibly being those of ids.
func (x *Exec) shareArrays(st *State, v Val, ids []int, param bool) {
	switch a := v.(type) {
	case *SliceV:
		c := st.cells[a.Cell].clone()
		in := map[string]bool{}
		elemTypes(a.T.Elem(), in, map[types.Type]bool{})
		for _, i := range ids {
			o := st.cells[i]
			if i == a.Cell || o == nil || o.Elem == nil {
				continue
			}
			// memory is typed: only arrays of the same element type can be the same
			et := elemType(o.Elem)
			if types.Identical(et.Underlying(), a.T.Elem().Underlying()) {
				c.Src = addSrc(c.Src, i)
			}
			if in["?"] || in[et.Underlying().String()] {
				c.Inner = addIDs(c.Inner, i)
			}
		}
		c.Param = c.Param || param
		st.cells[a.Cell] = c
	case *StructV:
		for _, f := range a.F {
			x.shareArrays(st, f, ids, param)
		}
	}
}

func (x *Exec) partCtx(st, old *State, p effPart, args []Val, ts []types.Type) *evalCtx {
	c := &evalCtx{sp: x.sp, x: x, st: st, old: old, vars: map[string]Val{}, types: map[string]types.Type{}}
	for i, n := range p.c.Params {
		if i >= len(args) {
			break
		}
		v := args[i]
		t := ts[i]
		if i == 0 && p.iface != nil {
			v = x.box(st, v, t)
			t = p.iface
		}
		c.vars[n] = v
		c.types[n] = t
	}
	return c
}

func (x *Exec) addResults(c *evalCtx, p effPart, sig *types.Signature, res []Val) {
	for i, n := range p.c.Results {
		if i < len(res) {
			c.vars[n] = res[i]
			c.types[n] = sig.Results().At(i).Type()
		}
	}
}

func conjuncts(n *Node, f func(*Node)) {
	if n.Op == "&&" {
		conjuncts(n.A[0], f)
		conjuncts(n.A[1], f)
		return
	}
	f(n)
}

// facts are the conjuncts, also those under a condition "x != nil" (what they say of x is vacuous otherwise).
func facts(n *Node, f func(*Node)) {
	conjuncts(n, func(n *Node) {
		if n.Op == "==>" && n.A[0].Op == "!=" && n.A[0].A[0].Op == "id" && n.A[0].A[1].Op == "nil" {
			facts(n.A[1], f)
			return
		}
		f(n)
	})
}

func (x *Exec) applyContract(st *State, eff *effContract, sig *types.Signature, args []Val, ts []types.Type, v ssa.Value, pos token.Pos) {
	// preconditions
	for _, p := range eff.parts {
		c := x.partCtx(st, nil, p, args, ts)
		c.old = st
		for k, cl := range p.c.Clauses {
			if cl.Kind == "requires" && inView(cl.Tags, x.prop) {
				x.oblige(st, "pre", fmt.Sprintf("precondition %s of %s at `%s`", clauseName(cl, k), eff.name, x.prog.srcText(pos)), c.bool(cl.E), pos)
			}
		}
	}
	if eff.fn != nil || strings.HasPrefix(eff.name, "call:") || x.prog.impls[eff.name] != nil {
		x.checkTypeInvs(st, "at the call of "+eff.name, pos)
	}
	// recursion
	if eff.fn != nil && x.root != nil && x.prog.sameSCC(eff.fn, x.root) && x.dry == 0 {
		d := eff.decr()
		if d == nil || x.contract == nil || x.contract.decr() == nil {
			if x.termWant {
				x.failObl(st, "term", "recursion of "+eff.name, "no measure", pos)
			}
		} else {
			m := x.partCtx(st, nil, *d, args, ts).int(d.c.Decr)
			rd := x.contract.decr()
			ec := *x.entryEnv
			ec.st = x.entry
			m0 := ec.int(rd.c.Decr)
			x.oblige(st, "term", fmt.Sprintf("recursive call of %s: measure decreases", eff.name), And(Le(I(0), m), Lt(m, m0)), pos)
		}
	}
	// what may change
	var tgs []target
	for _, p := range eff.parts {
		if p.c.Anything {
			panic(unsupported("call of " + eff.name + ", which may change anything"))
		}
		c := x.partCtx(st, nil, p, args, ts)
		for _, cl := range p.c.Clauses {
			if cl.Kind == "modifies" && inView(cl.Tags, x.prop) {
				for _, e := range cl.Es {
					tgs = append(tgs, x.resolve(c, e)...)
				}
			}
		}
	}
	old := st.snapshot()
	seen := map[int]bool{}
	for _, a := range args {
		x.arrays(st, a, seen)
	}
	for _, t := range tgs {
		if x.dry == 0 || true {
			x.havocTarget(st, t, seen, pos)
		}
	}
	x.assumeInvOfTargets(st, tgs)
	res := x.results(st, sig, eff.name, args, nil)
	// alias results
	for _, p := range eff.parts {
		for _, cl := range p.c.Clauses {
			if cl.Kind != "ensures" || !inView(cl.Tags, x.prop) || !cl.Alias || cl.E.A[0].Op != "id" {
				continue
			}
			for i, n := range p.c.Results {
				if n != cl.E.A[0].S || i >= len(res) {
					continue
				}
				c := x.partCtx(st, old, p, args, ts)
				x.addResults(c, p, sig, res)
				rv, _ := c.eval(cl.E.A[1])
				sv, ok := rv.(*SliceV)
				if !ok {
					c.fail(cl.E, "alias of %T", rv)
				}
				nv := *sv
				if st0, ok := sig.Results().At(i).Type().Underlying().(*types.Slice); ok {
					nv.T = st0
				}
				if nv.Cap == nil {
					nv.Cap = nv.Len
				}
				st.assume(Le(I(0), nv.Len))
				st.assume(Le(nv.Len, nv.Cap))
				res[i] = &nv
			}
		}
	}
	// results that are given by an equation
	for _, p := range eff.parts {
		for _, cl := range p.c.Clauses {
			if cl.Kind != "ensures" || !inView(cl.Tags, x.prop) || cl.Alias {
				continue
			}
			conjuncts(cl.E, func(n *Node) {
				if n.Op != "==" || n.A[0].Op != "id" {
					return
				}
				for i, rn := range p.c.Results {
					if rn != n.A[0].S || i >= len(res) {
						continue
					}
					r, ok := res[i].(*Term)
					if !ok || r.Op != OVar || r.Sort != SInt && r.Sort != SBytes {
						continue
					}
					c := x.partCtx(st, old, p, args, ts)
					x.addResults(c, p, sig, res)
					rv, _ := c.eval(n.A[1])
					t, ok := rv.(*Term)
					if !ok || t.Sort != r.Sort || hasSub(t, r, map[*Term]bool{}) {
						continue
					}
					st.assume(Eq(r, t))
					res[i] = t
				}
			})
		}
	}
	// freshness of results and modified slices
	for _, p := range eff.parts {
		for _, cl := range p.c.Clauses {
			if cl.Kind != "ensures" || !inView(cl.Tags, x.prop) {
				continue
			}
			facts(cl.E, func(n *Node) {
				if n.Op != "call" || n.S != "fresh" && n.S != "disjoint" {
					return
				}
				c := x.partCtx(st, old, p, args, ts)
				x.addResults(c, p, sig, res)
				val, _ := c.eval(n.A[0])
				var drop map[int]bool
				if n.S == "disjoint" {
					drop = map[int]bool{}
					o, _ := c.eval(n.A[1])
					x.arrays(st, o, drop)
				}
				x.makeFresh(st, val, drop)
			})
		}
	}
	for _, p := range eff.parts {
		c := x.partCtx(st, old, p, args, ts)
		x.addResults(c, p, sig, res)
		c.assume = p.c.Kind == "func" || p.c.Kind == "extern" || p.c.Kind == "interface"
		for _, cl := range p.c.Clauses {
			if cl.Kind != "ensures" || !inView(cl.Tags, x.prop) || cl.Alias {
				continue
			}
			conjuncts(cl.E, func(n *Node) {
				if n.Op == "call" && (n.S == "fresh" || n.S == "disjoint") {
					return
				}
				st.assume(c.bool(n))
			})
		}
	}
	for _, h := range st.pc[max(0, len(st.pc)-40):] {
		if h == False {
			st.closed = true
			return
		}
	}
	setRes(x, st, v, sig, res)
}

func (x *Exec) makeFresh(st *State, v Val, drop map[int]bool) {
	switch a := v.(type) {
	case *SliceV:
		c := st.cells[a.Cell]
		if c == nil {
			return
		}
		n := c.clone()
		if drop == nil {
			n.Src, n.Inner, n.Param = nil, nil, false
		} else {
			n.Src = nil
			for _, s := range c.Src {
				if !drop[s.id] {
					n.Src = append(n.Src, s)
				}
			}
			n.Inner = nil
			for _, i := range c.Inner {
				if !drop[i] {
					n.Inner = append(n.Inner, i)
				}
			}
		}
		st.cells[a.Cell] = n
	case *StructV:
		for _, f := range a.F {
			x.makeFresh(st, f, drop)
		}
	}
}

// resolve turns a modifies expression into places.
func (x *Exec) resolve(c *evalCtx, n *Node) []target {
	switch n.Op {
	case "id":
		if g, ok := c.sp.Ghosts[n.S]; ok {
			x.ghost(c.st, g)
			return []target{{cell: x.ghostID(g)}}
		}
		v, _ := c.eval(n)
		if p, ok := v.(*PtrV); ok {
			return x.ptrTarget(c, p)
		}
		if m, ok := v.(*MapV); ok {
			return []target{{cell: m.Cell, isMap: true}}
		}
	case "allfields", "deref":
		v, _ := c.eval(n.A[0])
		if p, ok := v.(*PtrV); ok {
			return x.ptrTarget(c, p)
		}
		return x.resolve(c, n.A[0])
	case ".":
		v, _ := c.eval(n.A[0])
		if p, ok := v.(*PtrV); ok {
			ts := x.ptrTarget(c, p)
			for i := range ts {
				ts[i].fields = append(ts[i].fields[:len(ts[i].fields):len(ts[i].fields)], fieldIndex(c, n, p.T, n.S))
			}
			return ts
		}
		if s, ok := v.(*StructV); ok {
			ts := x.resolve(c, n.A[0])
			for i := range ts {
				k := -1
				for j := 0; j < s.T.NumFields(); j++ {
					if s.T.Field(j).Name() == n.S {
						k = j
					}
				}
				if k < 0 {
					c.fail(n, "no field %s", n.S)
				}
				ts[i].fields = append(ts[i].fields[:len(ts[i].fields):len(ts[i].fields)], k)
			}
			return ts
		}
	case "allelems", "slice":
		var v Val
		if n.Op == "allelems" {
			v, _ = c.eval(n.A[0])
		} else {
			v, _ = c.eval(n)
		}
		switch s := v.(type) {
		case *SliceV:
			return []target{{cell: s.Cell, region: &span{s.Off, Add(s.Off, s.Len)}}}
		case *MapV:
			return []target{{cell: s.Cell, isMap: true}}
		}
	}
	c.fail(n, "cannot modify this expression")
	return nil
}

func fieldIndex(c *evalCtx, n *Node, t types.Type, f string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		c.fail(n, "field %s of %s", f, t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return i
		}
	}
	c.fail(n, "no field %s", f)
	return 0
}

func (x *Exec) ptrTarget(c *evalCtx, p *PtrV) []target {
	if p.Ref == Null {
		return nil
	}
	x.ensure(c.st, p)
	t := target{cell: p.Cell}
	for _, e := range p.Path {
		if e.Index != nil {
			panic(unsupported("modifies of an array element"))
		}
		t.fields = append(t.fields, e.Field)
	}
	return []target{t}
}

func (x *Exec) havocTarget(st *State, t target, share map[int]bool, pos token.Pos) {
	c := st.cells[t.cell]
	if c == nil {
		return
	}
	if t.region != nil {
		ct := c.Content.(*Term)
		x.writeCheck(st, t.cell, t.region.lo, t.region.hi, pos)
		c = st.cells[t.cell]
		if t.region.lo == t.region.hi {
			return
		}
		mid := FreshSeq(c.Name+".new", ct.Sort, Sub2(t.region.hi, t.region.lo))
		if mid.Op == OUnit && ct.Sort == SBytes {
			st.assume(Le(I(0), mid.Args[0]))
			st.assume(Le(mid.Args[0], I(255)))
		} else {
			st.assume(Le(I(0), Len(mid)))
		}
		n := c.clone()
		n.Content = Cat(ct.Sort, SubSeq(ct, I(0), t.region.lo), mid, SubSeq(ct, t.region.hi, Len(ct)))
		st.cells[t.cell] = n
		return
	}
	if ct, ok := c.Content.(*Term); ok && len(t.fields) == 0 {
		n := c.clone()
		v := FreshV(strings.TrimPrefix(c.Name, "ghost ")+".new", ct.Sort)
		if c.Elem != nil {
			x.rangeFact(st, v, c.Elem)
			if a, ok := c.Elem.Underlying().(*types.Array); ok {
				st.assume(Eq(Len(v), I(a.Len())))
			}
		}
		n.Content = v
		st.cells[t.cell] = n
		return
	}
	ty := c.Elem
	for _, f := range t.fields {
		ty = ty.Underlying().(*types.Struct).Field(f).Type()
	}
	nm := c.Name
	v := x.symbolic(st, ty, nm+".new", false)
	var ids []int
	for id := range share {
		if cc := st.cells[id]; cc != nil && cc.Elem != nil {
			switch cc.Elem.Underlying().(type) {
			case *types.Slice, *types.Array:
				ids = append(ids, id)
			}
		}
	}
	sort.Ints(ids)
	x.shareArrays(st, v, ids, true)
	c = st.cells[t.cell]
	n := c.clone()
	n.Content = setAt(c.Content, t.fields, v)
	st.cells[t.cell] = n
}

// ---------------------------------------------------------------- goroutines and channels

func (x *Exec) goStmt(st *State, i *ssa.Go) {
	fn, args := x.callTarget(st, &i.Call)
	f, ok := fn.(*FuncV)
	if !ok || f.Fn == nil {
		return
	}
	name := shortFn(f.Fn)
	if eff := x.effective(f.Fn); eff != nil && len(f.Bind) == 0 {
		ts := x.paramTypes(f.Fn)
		for _, p := range eff.parts {
			c := x.partCtx(st, st, p, args, ts)
			for k, cl := range p.c.Clauses {
				if cl.Kind == "requires" && inView(cl.Tags, x.prop) {
					x.oblige(st, "pre", fmt.Sprintf("precondition %s of %s at `%s`", clauseName(cl, k), name, x.prog.srcText(i.Pos())), c.bool(cl.E), i.Pos())
				}
			}
		}
	}
	// what is started can be recorded by a contract "callback go.<function>"
	if ct := x.sp.Contracts["call:go."+name]; ct != nil && ct.active(x.prop) {
		var no *types.Signature = types.NewSignatureType(nil, nil, nil, nil, nil, false)
		x.applyContract(st, &effContract{name: "go " + name, parts: []effPart{{c: ct}}}, no, args, x.paramTypes(f.Fn), nil, i.Pos())
	}
}

func (x *Exec) chanContract(kind string, ch *ChanV) *Contract {
	if kind == "recv" && ch.T != nil {
		// a timer that ran out
		if et := ch.T.Underlying().(*types.Chan).Elem(); types.TypeString(et, nil) == "time.Time" {
			if ct := x.sp.Contracts["recv:time.tick"]; ct != nil && ct.active(x.prop) {
				return ct
			}
			return nil
		}
	}
	if ct := x.sp.Contracts[kind+":"+ch.Label]; ct != nil && ct.active(x.prop) {
		return ct
	}
	return nil
}

func chanOf(v Val) *ChanV {
	c, ok := v.(*ChanV)
	if !ok {
		panic(unsupported("channel"))
	}
	return c
}

func (x *Exec) chanSend(st *State, chv Val, v Val, pos token.Pos) {
	ch := chanOf(chv)
	ct := x.chanContract("send", ch)
	if ct == nil {
		return
	}
	et := ch.T.Underlying().(*types.Chan).Elem()
	no := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	x.applyContract(st, &effContract{name: "send on " + ch.Label, parts: []effPart{{c: ct}}}, no, []Val{v}, []types.Type{et}, nil, pos)
}

func (x *Exec) chanRecv(st *State, chv Val, et types.Type, pos token.Pos) (Val, Val) {
	ch := chanOf(chv)
	ct := x.chanContract("recv", ch)
	res := types.NewTuple(types.NewVar(token.NoPos, nil, "v", et), types.NewVar(token.NoPos, nil, "ok", types.Typ[types.Bool]))
	sig := types.NewSignatureType(nil, nil, nil, nil, res, false)
	fake := &recvReg{}
	if ct == nil {
		v := x.symbolic(st, et, "recv", false)
		ok := FreshV("recvok", SBool)
		st.assume(x.okZero(st, v, et, ok))
		return v, ok
	}
	x.applyContractRes(st, &effContract{name: "receive on " + ch.Label, parts: []effPart{{c: ct}}}, sig, nil, nil, fake, pos)
	if st.closed {
		return x.zero(st, et), False
	}
	v, ok := fake.res[0], fake.res[1].(*Term)
	st.assume(x.okZero(st, v, et, ok))
	return v, ok
}

// a receive from a closed channel gives the zero value
func (x *Exec) okZero(st *State, v Val, et types.Type, ok *Term) *Term {
	switch a := v.(type) {
	case *PtrV:
		return Or(ok, Eq(a.Ref, Null))
	case *SliceV:
		return Or(ok, a.Null)
	case *IfaceV:
		return Or(ok, Eq(a.Ref, Null))
	case *Term:
		return Or(ok, Eq(a, zeroTerm(et)))
	}
	return True
}

type recvReg struct{ res []Val }

func (x *Exec) applyContractRes(st *State, eff *effContract, sig *types.Signature, args []Val, ts []types.Type, r *recvReg, pos token.Pos) {
	// a pseudo register receives the results
	reg := &ssa.Parameter{}
	x.applyContract(st, eff, sig, args, ts, reg, pos)
	if v, ok := st.frame.regs[reg]; ok {
		delete(st.frame.regs, reg)
		if t, ok := v.(*TupleV); ok {
			r.res = t.E
		} else {
			r.res = []Val{v}
		}
	}
}

func (x *Exec) chanClose(st *State, chv Val, pos token.Pos) {
	ch := chanOf(chv)
	x.oblige(st, "safety", x.pname("close of a nil channel", nil, pos), Not(Eq(ch.Ref, Null)), pos)
	if ct := x.chanContract("close", ch); ct != nil {
		no := types.NewSignatureType(nil, nil, nil, nil, nil, false)
		x.applyContract(st, &effContract{name: "close of " + ch.Label, parts: []effPart{{c: ct}}}, no, nil, nil, nil, pos)
	}
}

func (x *Exec) selectStmt(st *State, i *ssa.Select) {
	n := len(i.States)
	if !i.Blocking {
		n++
	}
	tup := i.Type().(*types.Tuple)
	do := func(s *State, k int) {
		r := &TupleV{}
		r.E = append(r.E, I(int64(k)))
		r.E = append(r.E, False)
		if k == len(i.States) {
			r.E[0] = I(-1)
		}
		ri := 2
		for j, sc := range i.States {
			if sc.Dir == types.RecvOnly {
				et := tup.At(ri).Type()
				if j == k {
					v, ok := x.chanRecv(s, x.reg(s, sc.Chan), et, sc.Pos)
					r.E[1] = ok
					r.E = append(r.E, v)
				} else {
					r.E = append(r.E, x.zero(s, et))
				}
				ri++
			} else if j == k {
				x.chanSend(s, x.reg(s, sc.Chan), x.reg(s, sc.Send), sc.Pos)
			}
		}
		x.set(s, i, r)
	}
	for k := 0; k < n; k++ {
		if k == n-1 {
			do(st, k)
		} else {
			kk := k
			x.fork(st, func(s *State) {
				s.trail = append(s.trail, fmt.Sprintf("%s select case %d", x.prog.pos(i.Pos()), kk))
				do(s, kk)
			})
		}
	}
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, c *ssa.CallCommon, name string, args []Val, v ssa.Value, pos token.Pos) {
	ret := func(r Val) {
		if v != nil {
			x.set(st, v, r)
		}
	}
	switch name {
	case "len":
		switch a := args[0].(type) {
		case *SliceV:
			ret(a.Len)
		case *Term:
			ret(Len(a))
		case *MapV:
			ct := x.content(st, a.Cell, a.T)
			t := App("maplen$"+ct.Sort.Name, SInt, ct)
			st.assume(Le(I(0), t))
			if ct.Op == OMapEmpty {
				t = I(0)
			} else {
				e := Eq(ct, MapEmpty(ct.Sort))
				st.assume(Imp(Eq(t, I(0)), e))
				st.assume(Imp(e, Eq(t, I(0))))
			}
			ret(t)
		case *ChanV:
			t := FreshV("chanlen", SInt)
			st.assume(Le(I(0), t))
			ret(t)
		default:
			panic(unsupported("len"))
		}
	case "cap":
		if a, ok := args[0].(*SliceV); ok {
			ret(a.Cap)
			return
		}
		panic(unsupported("cap"))
	case "append":
		s := args[0].(*SliceV)
		var yv *Term
		var inner []int
		switch y := args[1].(type) {
		case *SliceV:
			yv = x.view(st, y)
			if yc := st.cells[y.Cell]; yc != nil {
				inner = yc.Inner
			}
		case *Term:
			yv = y
		}
		ret(x.appendTo(st, s, yv, inner, pos))
	case "copy":
		d := args[0].(*SliceV)
		var sv *Term
		var inner []int
		switch y := args[1].(type) {
		case *SliceV:
			sv = x.view(st, y)
			if yc := st.cells[y.Cell]; yc != nil {
				inner = yc.Inner
			}
		case *Term:
			sv = y
		}
		do := func(s *State, n *Term) {
			src := SubSeq(sv, I(0), n)
			x.writeCheck(s, d.Cell, d.Off, Add(d.Off, n), pos)
			cc := s.cells[d.Cell].clone()
			ct := cc.Content.(*Term)
			cc.Content = Cat(ct.Sort, SubSeq(ct, I(0), d.Off), src, SubSeq(ct, Add(d.Off, n), Len(ct)))
			cc.Inner = addIDs(cc.Inner, inner...)
			s.cells[d.Cell] = cc
			if v != nil {
				x.set(s, v, n)
			}
		}
		le := Le(Len(sv), d.Len)
		switch {
		case x.unsat(st, le):
			do(st, d.Len)
		case x.unsat(st, Not(le)):
			do(st, Len(sv))
		default:
			x.fork(st, func(s *State) {
				s.assume(le)
				do(s, Len(sv))
			})
			st.assume(Not(le))
			do(st, d.Len)
		}
	case "delete":
		m := args[0].(*MapV)
		x.mapCheck(st, m, pos)
		cc := st.cells[m.Cell].clone()
		cc.Content = MapDel(cc.Content.(*Term), x.encode(st, args[1], m.T.Key(), nil))
		st.cells[m.Cell] = cc
	case "print", "println":
	case "panic":
		x.oblige(st, "safety", x.pname("panic reachable", nil, pos), False, pos)
		st.closed = true
	case "ssa:deferstack":
		ret(&PtrV{T: types.Typ[types.Int], Ref: freshRef("deferstack", false), Cell: newCellID()})
	case "recover":
		ret(&IfaceV{Ref: Null})
	case "close":
		x.chanClose(st, args[0], pos)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(r, t), t, r)
			}
		}
		ret(r)
	case "clear":
		m, ok := args[0].(*MapV)
		if !ok {
			panic(unsupported("clear"))
		}
		x.mapCheck(st, m, pos)
		cc := st.cells[m.Cell].clone()
		cc.Content = MapEmpty(cc.Content.(*Term).Sort)
		st.cells[m.Cell] = cc
	case "ssa:wrapnilchk":
		p := args[0].(*PtrV)
		x.nilCheck(st, p, pos)
		ret(p)
	default:
		panic(unsupported("builtin " + name))
	}
}

// appendTo models append: the result has fresh contents; when the capacity may suffice, the memory behind the old
// slice is overwritten, which must not be visible through any other value.
func (x *Exec) appendTo(st *State, s *SliceV, yv *Term, inner []int, pos token.Pos) *SliceV {
	xv := x.view(st, s)
	n := Len(yv)
	if n == I(0) {
		return s
	}
	c := st.cells[s.Cell]
	nc := &Cell{Content: Cat(xv.Sort, xv, yv), Elem: s.T, Name: "append", Inner: addIDs(c.Inner, inner...)}
	inPlace := true
	if s.Null == True || s.Cap == s.Len || s.Cap == I(0) {
		inPlace = false
	} else if x.known(st, Lt(s.Cap, Add(s.Len, n))) {
		inPlace = false
	}
	if inPlace {
		nc.Param = c.Param
		nc.Src = []srcRef{{s.Cell, s.Off}}
		x.overwrite(st, s.Cell, Add(s.Off, s.Len), Add(s.Off, s.Len, n), Lt(s.Cap, Add(s.Len, n)), pos, map[int]bool{})
	}
	id := newCellID()
	cp := FreshV("append.cap", SInt)
	l := Add(s.Len, n)
	st.assume(Le(l, cp))
	if inPlace {
		// capacity grows or stays
		st.assume(Or(Lt(s.Cap, l), Eq(cp, s.Cap)))
	}
	st.cells[id] = nc
	return &SliceV{T: s.T, Cell: id, Off: I(0), Len: l, Cap: cp, Null: And(s.Null, Eq(n, I(0)))}
}

// overwrite: [lo,hi) of an array may be written (unless skip holds).
func (x *Exec) overwrite(st *State, id int, lo, hi, skip *Term, pos token.Pos, seen map[int]bool) {
	c := st.cells[id]
	if c == nil || seen[id] {
		return
	}
	seen[id] = true
	for _, sp := range c.Captured {
		g := Or(Le(sp.hi, lo), Le(hi, sp.lo), skip)
		if !x.known(st, g) {
			x.oblige(st, "alias", x.pname("append writes to memory shared with another value", nil, pos), g, pos)
		}
	}
	if ct, ok := c.Content.(*Term); ok {
		if !x.known(st, Or(Le(Len(ct), lo), skip)) {
			// values beyond the slice become unknown
			junk := FreshV("junk", ct.Sort)
			st.assume(Eq(Len(junk), Sub2(Len(ct), lo)))
			cc := st.cells[id].clone()
			if x.known(st, Le(lo, Len(ct))) {
				cc.Content = Cat(ct.Sort, SubSeq(ct, I(0), lo), junk)
			} else {
				j2 := FreshV("junk", ct.Sort)
				st.assume(Eq(Len(j2), Len(ct)))
				st.assume(Imp(Le(Len(ct), lo), Eq(j2, ct)))
				st.assume(Imp(Le(lo, Len(ct)), Eq(SubSeq(j2, I(0), lo), SubSeq(ct, I(0), lo))))
				st.pc = st.pc[:len(st.pc):len(st.pc)]
				cc.Content = j2
			}
			st.cells[id] = cc
		}
	}
	for _, s := range c.Src {
		if s.delta != nil {
			x.overwrite(st, s.id, Add(lo, s.delta), Add(hi, s.delta), skip, pos, seen)
			continue
		}
		o := st.cells[s.id]
		if o == nil {
			continue
		}
		if t, ok := o.Content.(*Term); ok && Len(t) == I(0) {
			continue
		}
		if !x.known(st, skip) {
			x.sharedWrite(st, s, lo, hi, pos, map[int]bool{id: true})
		}
	}
}

func hasSub(t, v *Term, seen map[*Term]bool) bool {
	if t == v {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.Args {
		if hasSub(a, v, seen) {
			return true
		}
	}
	return false
}
