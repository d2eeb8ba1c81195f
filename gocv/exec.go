package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- executor

type Obligation struct {
	Func   string
	Name   string
	Kind   string // pre post frame inv safety term unsupported alias lemma
	Pos    string
	Hyps   []*Term
	Goal   *Term
	Trail  []string
	Prop   string
	Res    Result
	Detail string
}

type Exec struct {
	spare       bool // memory behind the length of a slice was read
	prog        *Program
	facts       map[string]bool
	sp          *Specs
	prop        string
	root        *ssa.Function
	rootName    string
	contract    *effContract
	pr          *Pruner
	initMu      sync.Mutex
	initCells   map[int]*initCell
	cuts        map[*loopT]*cutState
	obls        []*Obligation
	dry         int
	paths       int
	steps       int
	entry       *State
	entryEnv    *evalCtx
	covers      []*Term // conditions under which a return was reached
	returns     int
	quickN      int
	inlined     map[string]bool
	called      map[string]bool
	assumed     map[string]bool
	ghostIDs    map[string]int
	inInit      bool
	limit       int
	strMark     map[*Term]bool
	labelN      map[string]int
	termWant    bool
	seenObl     map[string]bool
	constStr    map[*Term]bool
	exitHook    func(st *State, res []Val)
	dropped     int
	alts        map[int]int // which way of writing each loop is tried
	helperLoops map[string]int
	notes       map[string]bool
	external    map[string]bool
	depthMax    int
}

func NewExec(p *Program, prop string) *Exec {
	return &Exec{prog: p, sp: p.sp, prop: prop, pr: NewPruner(), initCells: map[int]*initCell{}, inlined: map[string]bool{}, called: map[string]bool{}, assumed: map[string]bool{}, ghostIDs: map[string]int{}, limit: 20000, seenObl: map[string]bool{}}
}

func (x *Exec) ghost(st *State, g *GhostDecl) *Term {
	id := x.ghostID(g)
	c := st.cells[id]
	if c == nil {
		c = &Cell{Content: V("ghost."+g.Name, g.Sort), Param: true, Name: "ghost " + g.Name}
		st.cells[id] = c
	}
	return c.Content.(*Term)
}

var ghostIDTab = map[string]int{}

func (x *Exec) ghostID(g *GhostDecl) int {
	tabMu.Lock()
	defer tabMu.Unlock()
	id, ok := ghostIDTab[g.Name]
	if !ok {
		cellCnt++
		id = cellCnt
		ghostIDTab[g.Name] = id
	}
	return id
}

func (x *Exec) unsat(st *State, c *Term) bool {
	if c == False {
		return true
	}
	if c == True {
		return false
	}
	for i := len(st.pc) - 1; i >= 0; i-- {
		if st.pc[i] == c {
			return false
		}
	}
	n := Not(c)
	for i := len(st.pc) - 1; i >= 0; i-- {
		if st.pc[i] == n {
			return true
		}
	}
	return x.pr.Unsat(st.pc, c)
}

// known reports whether c follows from the path condition (quick check).
func (x *Exec) known(st *State, c *Term) bool {
	if c == True {
		return true
	}
	if c == False {
		return false
	}
	return x.unsat(st, Not(c))
}

// proves asks the solvers, with the axioms; for facts that shape the encoding.
func (x *Exec) proves(st *State, c *Term) bool {
	q := &Query{Name: "fact", Hyps: append([]*Term{}, st.pc...), Goal: c, Quick: true}
	if ct := x.sp.Contracts[x.rootName]; ct != nil {
		q.Hide, q.Using = ct.Hide, ct.Using
	}
	k := fmt.Sprint(c.id)
	for _, h := range st.pc {
		k += fmt.Sprintf(",%d", h.id)
	}
	if r, ok := x.facts[k]; ok {
		return r
	}
	if x.facts == nil {
		x.facts = map[string]bool{}
	}
	r := q.Prove(2 * time.Second).Proved
	x.facts[k] = r
	return r
}

// oblige emits an obligation and assumes it afterwards.
func (x *Exec) oblige(st *State, kind, name string, goal *Term, pos token.Pos) {
	if goal == True {
		x.quickN++
		if x.dry == 0 {
			x.addObl(st, kind, name, goal, pos, &Result{Proved: true, Backend: "simplifier"})
		}
		return
	}
	goal = st.drop(goal)
	if x.dry == 0 {
		var r *Result
		if goal.Op != OForall && !hasQuantT(goal) && x.known(st, goal) {
			r = &Result{Proved: true, Backend: "z3-new (incremental)"}
		}
		x.addObl(st, kind, name, goal, pos, r)
	}
	st.assume(goal)
}

// drop leaves out the disjuncts of a goal that the path excludes.
func (st *State) drop(goal *Term) *Term {
	if goal.Op != OOr {
		return goal
	}
	not := map[*Term]bool{}
	for _, d := range goal.Args {
		not[Not(d)] = true
	}
	var out map[*Term]bool
	for _, h := range st.pc {
		if not[h] {
			if out == nil {
				out = map[*Term]bool{}
			}
			out[h] = true
		}
	}
	if out == nil {
		return goal
	}
	var keep []*Term
	for _, d := range goal.Args {
		if !out[Not(d)] {
			keep = append(keep, d)
		}
	}
	return Or(keep...)
}

func hasQuantT(t *Term) bool { return hasQuant(t) }

func (x *Exec) addObl(st *State, kind, name string, goal *Term, pos token.Pos, r *Result) {
	o := &Obligation{Func: x.rootName, Name: name, Kind: kind, Pos: x.prog.pos(pos), Goal: goal, Prop: x.prop}
	if r != nil {
		o.Res = *r
	} else {
		o.Hyps = st.pc[:len(st.pc):len(st.pc)]
	}
	o.Trail = st.trail[:len(st.trail):len(st.trail)]
	x.obls = append(x.obls, o)
}

func (x *Exec) failObl(st *State, kind, name, detail string, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	key := kind + name + detail
	if x.seenObl[key] {
		return
	}
	x.seenObl[key] = true
	o := &Obligation{Func: x.rootName, Name: name, Kind: kind, Pos: x.prog.pos(pos), Goal: False, Prop: x.prop, Detail: detail}
	o.Res = Result{Proved: false, Backend: "generator", Output: detail}
	if st != nil {
		o.Trail = st.trail
	}
	x.obls = append(x.obls, o)
}

type endPath struct{}

func (x *Exec) run(st *State) {
	x.paths++
	for !st.closed {
		x.steps++
		if x.paths > x.limit {
			x.failObl(st, "unsupported", "path limit", fmt.Sprintf("more than %d paths", x.limit), token.NoPos)
			return
		}
		if st.frame == nil {
			return
		}
		fr := st.frame
		in := fr.block.Instrs[fr.idx]
		fr.idx++
		if !x.safeStep(st, in) {
			return
		}
	}
}

func (x *Exec) safeStep(st *State, in ssa.Instruction) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			switch u := e.(type) {
			case unsup:
				x.failObl(st, "unsupported", string(u), fmt.Sprintf("%s: %s (%s)", x.prog.pos(in.Pos()), string(u), in.String()), in.Pos())
				ok = false
			case evalErr:
				x.failObl(st, "unsupported", "contract", string(u), in.Pos())
				ok = false
			default:
				if os.Getenv("GOCV_PANIC") != "" {
					panic(e)
				}
				x.failObl(st, "unsupported", "internal", fmt.Sprint(e)+" at "+in.String(), in.Pos())
				ok = false
			}
			st.closed = true
		}
	}()
	x.step(st, in)
	return true
}

// fork runs f on a clone and lets the caller continue with st.
func (x *Exec) fork(st *State, f func(n *State)) {
	n := st.clone()
	f(n)
	if !n.closed {
		x.run(n)
	}
}

func (x *Exec) reg(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(st, c)
	case *ssa.Function:
		return &FuncV{Fn: c, Ref: fnRef(c), Sig: c.Signature}
	case *ssa.Global:
		return x.globalPtr(st, c)
	case *ssa.Builtin:
		return &BuiltinV{c.Name()}
	}
	r, ok := st.frame.regs[v]
	if !ok {
		panic(unsupported("register " + v.Name() + " of " + st.frame.fn.Name()))
	}
	return r
}

func (x *Exec) set(st *State, v ssa.Value, r Val) { st.frame.regs[v] = r }

func fnRef(f *ssa.Function) *Term {
	return mk(&Term{Op: OAddr, Sort: SRef, Name: "fn:" + shortFn(f)})
}

func (x *Exec) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(st, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return B(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return Lit(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return I(i)
			}
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			return IB(b)
		case u.Info()&types.IsFloat != 0:
			return App("float:"+c.Value.ExactString(), USort("Float"))
		}
	}
	panic(unsupported("constant " + c.String()))
}

func (x *Exec) globalPtr(st *State, g *ssa.Global) Val {
	key := mk(&Term{Op: OAddr, Sort: SRef, Name: "global:" + shortPkg(g.String())})
	et := g.Type().(*types.Pointer).Elem()
	id := cellOfRef(key, et)
	if st.cells[id] == nil {
		if c := x.prog.globalInit(g); c != nil {
			st.cells[id] = c.cell
			for k, v := range c.sub {
				if st.cells[k] == nil {
					st.cells[k] = v
				}
			}
			for _, f := range c.facts {
				st.assume(f)
			}
		} else {
			x.initMu.Lock()
			ini := x.initCells[id]
			if ini == nil {
				tmp := &State{cells: map[int]*Cell{}}
				content := x.symbolic(tmp, et, g.Name(), true)
				if pt, ok := et.Underlying().(*types.Pointer); ok && !x.prog.repoP[g.Pkg.Pkg] {
					// a pointer variable of a library: named, so that contracts can refer to it
					r := V("global."+shortPkg(g.String()), SRef)
					content = &PtrV{T: pt.Elem(), Ref: r, Cell: cellOfRef(r, pt.Elem())}
				}
				ini = &initCell{cell: &Cell{Content: content, Elem: et, Param: true, Name: g.Name()}, facts: tmp.pc, sub: tmp.cells, ptr: &PtrV{T: et, Ref: key, Cell: id}}
				x.initCells[id] = ini
			}
			x.initMu.Unlock()
			st.cells[id] = ini.cell
			for k, v := range ini.sub {
				if st.cells[k] == nil {
					st.cells[k] = v
				}
			}
			for _, f := range ini.facts {
				st.assume(f)
			}
			if et.String() == "error" && !x.prog.repoP[g.Pkg.Pkg] {
				st.assume(Not(Eq(content0(ini.cell), Null)))
			}
		}
	}
	return &PtrV{T: et, Ref: key, Cell: id}
}

func content0(c *Cell) *Term { return c.Content.(*IfaceV).Ref }

// ---------------------------------------------------------------- steps

func (x *Exec) step(st *State, in ssa.Instruction) {
	fr := st.frame
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		id := newCellID()
		c := &Cell{Elem: et, Name: i.Comment}
		c.Content = x.zero(st, et)
		st.cells[id] = c
		x.set(st, i, &PtrV{T: et, Ref: mkAddr(id, i.Comment), Cell: id})
	case *ssa.UnOp:
		x.unop(st, i)
	case *ssa.BinOp:
		x.set(st, i, x.binop(st, i.Op, x.reg(st, i.X), x.reg(st, i.Y), i.X.Type(), i.Type(), i.Pos()))
	case *ssa.Store:
		p := x.reg(st, i.Addr).(*PtrV)
		x.nilCheck(st, p, i.Pos())
		x.storeChecked(st, p, x.reg(st, i.Val), i.Pos())
	case *ssa.FieldAddr:
		p, ok := x.reg(st, i.X).(*PtrV)
		if !ok {
			panic(unsupported("field of a non-pointer"))
		}
		x.nilCheck(st, p, i.Pos())
		stt := i.X.Type().Underlying().(*types.Pointer).Elem()
		f := stt.Underlying().(*types.Struct).Field(i.Field)
		np := &PtrV{T: f.Type(), Cell: p.Cell, Path: append(p.Path[:len(p.Path):len(p.Path)], PathEl{Field: i.Field}), Ref: App("fieldaddr", SRef, p.Ref, I(int64(i.Field)))}
		x.ensure(st, p)
		x.set(st, i, np)
	case *ssa.Field:
		v := x.reg(st, i.X)
		switch s := v.(type) {
		case *StructV:
			x.set(st, i, s.F[i.Field])
		case *Term:
			x.set(st, i, x.decode(st, Sel(s, i.Field), i.Type(), 0))
		default:
			panic(unsupported("field of struct value"))
		}
	case *ssa.IndexAddr:
		x.indexAddr(st, i)
	case *ssa.Index:
		v := x.reg(st, i.X)
		idx := x.reg(st, i.Index).(*Term)
		s, ok := v.(*Term)
		if !ok {
			panic(unsupported("index of array value"))
		}
		x.oblige(st, "safety", x.pname("index", i, i.Pos()), And(Le(I(0), idx), Lt(idx, Len(s))), i.Pos())
		x.set(st, i, x.decode(st, At(s, idx), i.Type(), 0))
	case *ssa.Lookup:
		x.lookup(st, i)
	case *ssa.MapUpdate:
		m := x.reg(st, i.Map).(*MapV)
		x.oblige(st, "safety", x.pname("write to nil map", i, i.Pos()), Not(Eq(m.Ref, Null)), i.Pos())
		x.mapCheck(st, m, i.Pos())
		c := st.cells[m.Cell].clone()
		k := x.encode(st, x.reg(st, i.Key), m.T.Key(), c)
		v := x.encode(st, x.reg(st, i.Value), m.T.Elem(), c)
		c.Content = MapUpd(c.Content.(*Term), k, v)
		st.cells[m.Cell] = c
	case *ssa.Slice:
		x.slice(st, i)
	case *ssa.Phi:
		for k, p := range fr.block.Preds {
			if p == fr.prev {
				x.set(st, i, x.reg(st, i.Edges[k]))
				return
			}
		}
		panic(unsupported("phi"))
	case *ssa.Extract:
		x.set(st, i, x.reg(st, i.Tuple).(*TupleV).E[i.Index])
	case *ssa.ChangeType:
		x.set(st, i, x.changeType(st, x.reg(st, i.X), i.Type()))
	case *ssa.ChangeInterface:
		x.set(st, i, x.reg(st, i.X))
	case *ssa.Convert:
		x.set(st, i, x.convert(st, x.reg(st, i.X), i.X.Type(), i.Type()))
	case *ssa.MakeInterface:
		x.set(st, i, x.box(st, x.reg(st, i.X), i.X.Type()))
	case *ssa.TypeAssert:
		x.typeAssert(st, i)
	case *ssa.MakeSlice:
		n := x.reg(st, i.Len).(*Term)
		c := x.reg(st, i.Cap).(*Term)
		x.oblige(st, "safety", x.pname("makeslice", i, i.Pos()), And(Le(I(0), n), Le(n, c)), i.Pos())
		u := i.Type().Underlying().(*types.Slice)
		id := newCellID()
		st.cells[id] = &Cell{Content: Rep(sortOf(u), n, zeroTerm(u.Elem())), Elem: u, Name: "make"}
		x.set(st, i, &SliceV{T: u, Cell: id, Off: I(0), Len: n, Cap: c, Null: False})
	case *ssa.MakeMap:
		id := newCellID()
		u := i.Type().Underlying().(*types.Map)
		st.cells[id] = &Cell{Content: MapEmpty(sortOf(u)), Elem: u, Name: "make"}
		x.set(st, i, &MapV{T: u, Ref: FreshAddr("map"), Cell: id})
	case *ssa.MakeChan:
		x.set(st, i, &ChanV{T: i.Type(), Ref: FreshAddr("chan")})
	case *ssa.MakeClosure:
		f := i.Fn.(*ssa.Function)
		fv := &FuncV{Fn: f, Ref: FreshAddr("closure"), Sig: f.Signature}
		for _, b := range i.Bindings {
			fv.Bind = append(fv.Bind, x.reg(st, b))
		}
		x.set(st, i, fv)
	case *ssa.Range:
		x.rangeInit(st, i)
	case *ssa.Next:
		x.next(st, i)
	case *ssa.Call:
		x.call(st, &i.Call, i, i.Pos())
	case *ssa.Defer:
		d := &deferred{call: &i.Call}
		d.fn, d.args = x.callTarget(st, &i.Call)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			fr.idx--
			x.invoke(st, d.call, d.fn, d.args, nil, i.Pos())
		}
	case *ssa.Go:
		x.goStmt(st, i)
	case *ssa.Send:
		ch := x.reg(st, i.Chan)
		if x.termWant {
			// without an alternative it waits until somebody receives
			if ct := x.chanContract("send", chanOf(ch)); ct == nil || !ct.Served {
				x.oblige(st, "term", x.pname("the send ends without a receiver", i, i.Pos()), False, i.Pos())
			}
		}
		x.chanSend(st, ch, x.reg(st, i.X), i.Pos())
	case *ssa.Select:
		x.selectStmt(st, i)
	case *ssa.Return:
		var res []Val
		for _, r := range i.Results {
			res = append(res, x.reg(st, r))
		}
		x.ret(st, res)
	case *ssa.Panic:
		x.oblige(st, "safety", x.pname("panic reachable", i, i.Pos()), False, i.Pos())
		st.closed = true
	case *ssa.Jump:
		x.jump(st, fr.block.Succs[0])
	case *ssa.If:
		c := x.reg(st, i.Cond).(*Term)
		x.recordGuard(st, c)
		tOK := !x.unsat(st, c)
		fOK := true
		if tOK {
			fOK = !x.unsat(st, Not(c))
		}
		a, b := fr.block.Succs[0], fr.block.Succs[1]
		switch {
		case tOK && fOK:
			x.fork(st, func(n *State) {
				n.assume(c)
				n.trail = append(n.trail, x.branch(i, true))
				x.jump(n, a)
			})
			st.assume(Not(c))
			st.trail = append(st.trail, x.branch(i, false))
			x.jump(st, b)
		case tOK:
			st.assume(c)
			x.jump(st, a)
		default:
			st.assume(Not(c))
			x.jump(st, b)
		}
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func mkAddr(id int, n string) *Term {
	return mk(&Term{Op: OAddr, Sort: SRef, Name: fmt.Sprintf("&%s!c%d", n, id)})
}

func (x *Exec) branch(i *ssa.If, b bool) string {
	pos := i.Cond.Pos()
	p := x.prog.pos(pos)
	if b {
		return p + "+"
	}
	return p + "-"
}

func (x *Exec) pname(what string, in interface{}, pos token.Pos) string {
	src := x.prog.srcText(pos)
	if src != "" {
		return what + " `" + src + "`"
	}
	return what
}

var srcMu sync.Mutex
var srcCache = map[string][]string{}

func (p *Program) srcText(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	ps := p.prog.Fset.Position(pos)
	srcMu.Lock()
	defer srcMu.Unlock()
	ls, ok := srcCache[ps.Filename]
	if !ok {
		b, _ := os.ReadFile(ps.Filename)
		ls = strings.Split(string(b), "\n")
		srcCache[ps.Filename] = ls
	}
	if ps.Line-1 < len(ls) && ps.Line > 0 {
		return strings.TrimSpace(ls[ps.Line-1])
	}
	return ""
}

func (x *Exec) nilCheck(st *State, p *PtrV, pos token.Pos) {
	if len(p.Path) > 0 || p.Ref.Op == OAddr {
		return
	}
	x.oblige(st, "safety", x.pname("nil dereference", nil, pos), Not(Eq(p.Ref, Null)), pos)
	if p.Ref == Null {
		panic(unsupported("nil dereference"))
	}
}

func (x *Exec) unop(st *State, i *ssa.UnOp) {
	switch i.Op {
	case token.MUL:
		p, ok := x.reg(st, i.X).(*PtrV)
		if !ok {
			panic(unsupported("load"))
		}
		x.nilCheck(st, p, i.Pos())
		v := x.load(st, p)
		// string view of a byte slice (unsafe cast)
		if sl, ok := v.(*SliceV); ok {
			if b, ok := p.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				t := x.view(st, sl)
				x.markCaptured(st, sl.Cell, &span{sl.Off, Add(sl.Off, sl.Len)}, map[int]bool{})
				x.set(st, i, t)
				return
			}
		}
		x.set(st, i, x.label(v, i.X))
	case token.NOT:
		x.set(st, i, Not(x.reg(st, i.X).(*Term)))
	case token.SUB:
		x.set(st, i, x.wrap(st, MulC(big.NewInt(-1), x.reg(st, i.X).(*Term)), i.Type()))
	case token.XOR:
		t := x.reg(st, i.X).(*Term)
		lo, hi, _ := intRange(i.Type())
		if lo.Sign() == 0 {
			x.set(st, i, Sub2(IB(hi), t))
		} else {
			x.set(st, i, Sub2(I(-1), t))
		}
	case token.ARROW:
		ch := x.reg(st, i.X)
		v, ok := x.chanRecv(st, ch, i.X.Type().Underlying().(*types.Chan).Elem(), i.Pos())
		if i.CommaOk {
			x.set(st, i, &TupleV{[]Val{v, ok}})
		} else {
			x.set(st, i, v)
		}
	default:
		panic(unsupported("unary " + i.Op.String()))
	}
}

// label names callbacks and channels after the field they are kept in.
func (x *Exec) label(v Val, from ssa.Value) Val {
	fa, ok := from.(*ssa.FieldAddr)
	if !ok {
		return v
	}
	stt := fa.X.Type().Underlying().(*types.Pointer).Elem()
	l := typeName(stt) + "." + stt.Underlying().(*types.Struct).Field(fa.Field).Name()
	switch a := v.(type) {
	case *FuncV:
		if a.Fn == nil && a.Label == "" {
			n := *a
			n.Label = l
			return &n
		}
	case *ChanV:
		n := *a
		n.Label = l
		return &n
	}
	return v
}

func (x *Exec) storeChecked(st *State, p *PtrV, v Val, pos token.Pos) {
	if len(p.Path) > 0 && p.Path[0].Index != nil {
		x.writeCheck(st, p.Cell, p.Path[0].Index, AddC(p.Path[0].Index, 1), pos)
	}
	x.store(st, p, v)
}

// writeCheck makes sure that an in-place write to [lo,hi) of an array is not visible through a value kept elsewhere.
func (x *Exec) writeCheck(st *State, id int, lo, hi *Term, pos token.Pos) {
	c := st.cells[id]
	if c == nil {
		return
	}
	for _, sp := range c.Captured {
		g := Or(Le(sp.hi, lo), Le(hi, sp.lo))
		if !x.known(st, g) {
			x.oblige(st, "alias", x.pname("write to memory shared with another value", nil, pos), g, pos)
		}
	}
	for _, s := range c.Src {
		x.sharedWrite(st, s, lo, hi, pos, map[int]bool{id: true})
	}
}

// sharedWrite: the memory behind [lo,hi) may also be that of an array this one was made from by append: what is read
// through that one is unknown from now on.
func (x *Exec) sharedWrite(st *State, s srcRef, lo, hi *Term, pos token.Pos, seen map[int]bool) {
	o := st.cells[s.id]
	if o == nil || seen[s.id] {
		return
	}
	seen[s.id] = true
	ct, ok := o.Content.(*Term)
	if ok && Len(ct) == I(0) && len(o.Src) == 0 {
		return
	}
	if !ok || s.delta == nil && len(o.Captured) > 0 {
		x.oblige(st, "alias", x.pname("write to memory possibly shared by append", nil, pos), False, pos)
		return
	}
	if s.delta == nil {
		n := o.clone()
		j := FreshV("junk", ct.Sort)
		st.assume(Eq(Len(j), Len(ct)))
		n.Content = j
		st.cells[s.id] = n
		for _, q := range o.Src {
			x.sharedWrite(st, srcRef{q.id, nil}, lo, hi, pos, seen)
		}
		return
	}
	lo, hi = Add(lo, s.delta), Add(hi, s.delta)
	for _, sp := range o.Captured {
		g := Or(Le(sp.hi, lo), Le(hi, sp.lo))
		if !x.known(st, g) {
			x.oblige(st, "alias", x.pname("write to memory shared with another value", nil, pos), g, pos)
		}
	}
	if !x.known(st, Le(Len(ct), lo)) {
		n := o.clone()
		j := FreshV("junk", ct.Sort)
		st.assume(Eq(Len(j), Len(ct)))
		st.assume(Imp(Le(Len(ct), lo), Eq(j, ct)))
		st.assume(Imp(And(Le(I(0), lo), Le(lo, Len(ct))), Eq(SubSeq(j, I(0), lo), SubSeq(ct, I(0), lo))))
		st.assume(Imp(And(Le(I(0), hi), Le(hi, Len(ct))), Eq(SubSeq(j, hi, Len(ct)), SubSeq(ct, hi, Len(ct)))))
		n.Content = j
		st.cells[s.id] = n
	}
	for _, q := range o.Src {
		x.sharedWrite(st, q, lo, hi, pos, seen)
	}
}

// mapCheck: a map that is kept in a container must not change behind its back.
func (x *Exec) mapCheck(st *State, m *MapV, pos token.Pos) {
	if c := st.cells[m.Cell]; c != nil && len(c.Captured) > 0 {
		x.oblige(st, "alias", x.pname("write to a map shared with another value", nil, pos), False, pos)
	}
}

func (x *Exec) indexAddr(st *State, i *ssa.IndexAddr) {
	idx := x.reg(st, i.Index).(*Term)
	switch s := x.reg(st, i.X).(type) {
	case *SliceV:
		x.oblige(st, "safety", x.pname("index out of range", nil, i.Pos()), And(Le(I(0), idx), Lt(idx, s.Len)), i.Pos())
		p := Add(s.Off, idx)
		x.set(st, i, &PtrV{T: s.T.Elem(), Cell: s.Cell, Path: []PathEl{{Index: p}}, Ref: App("elemaddr", SRef, I(int64(s.Cell)), p)})
	case *PtrV:
		x.nilCheck(st, s, i.Pos())
		a := s.T.Underlying().(*types.Array)
		x.oblige(st, "safety", x.pname("index out of range", nil, i.Pos()), And(Le(I(0), idx), Lt(idx, I(a.Len()))), i.Pos())
		x.set(st, i, &PtrV{T: a.Elem(), Cell: s.Cell, Path: append(s.Path[:len(s.Path):len(s.Path)], PathEl{Index: idx}), Ref: App("elemaddr", SRef, s.Ref, idx)})
	default:
		panic(unsupported("index address"))
	}
}

func (x *Exec) slice(st *State, i *ssa.Slice) {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.reg(st, v).(*Term)
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = I(0)
	}
	v := x.reg(st, i.X)
	name := x.pname("slice bounds", nil, i.Pos())
	switch s := v.(type) {
	case *Term: // string
		if hi == nil {
			hi = Len(s)
		}
		x.oblige(st, "safety", name, And(Le(I(0), lo), Le(lo, hi), Le(hi, Len(s))), i.Pos())
		x.set(st, i, SubSeq(s, lo, hi))
	case *SliceV:
		if hi == nil {
			hi = s.Len
		}
		cp := s.Cap
		g := And(Le(I(0), lo), Le(lo, hi))
		if mx != nil {
			g = And(g, Le(hi, mx), Le(mx, s.Cap))
			cp = mx
		} else if hi != s.Len {
			g = And(g, Or(Le(hi, s.Len), Le(hi, s.Cap)))
		}
		x.oblige(st, "safety", name, g, i.Pos())
		n := &SliceV{T: s.T, Cell: s.Cell, Off: Add(s.Off, lo), Len: Sub2(hi, lo), Cap: Sub2(cp, lo), Null: s.Null}
		// beyond the known extent: unknown contents
		if hi != s.Len {
			c := st.cells[s.Cell]
			t := c.Content.(*Term)
			end := Add(s.Off, hi)
			if !x.known(st, Le(end, Len(t))) {
				if x.known(st, Le(hi, s.Len)) || x.proves(st, Le(hi, s.Len)) {
					// fine
				} else {
					if b, ok := s.T.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
						// elements behind the length: whatever is there; not shared with any value in use
						nt := FreshV("spare", t.Sort)
						st.assume(Eq(Len(nt), hi))
						st.assume(Eq(SubSeq(nt, I(0), s.Len), x.view(st, s)))
						id := newCellID()
						st.cells[id] = &Cell{Content: nt, Elem: s.T, Param: c.Param, Inner: c.Inner, Src: []srcRef{{s.Cell, s.Off}}, Name: "spare", Spare: s.Len}
						n.Cell, n.Off = id, lo
						x.set(st, i, n)
						return
					}
					nc := c.clone()
					nt := FreshV("beyond", t.Sort)
					st.assume(Le(end, Len(nt)))
					st.assume(Le(Len(t), Len(nt)))
					st.assume(Eq(SubSeq(nt, I(0), Len(t)), t))
					nc.Content = nt
					st.cells[s.Cell] = nc
				}
			}
		}
		x.set(st, i, n)
	case *PtrV: // array
		x.nilCheck(st, s, i.Pos())
		a := s.T.Underlying().(*types.Array)
		if len(s.Path) > 0 {
			panic(unsupported("slice of an array field"))
		}
		if hi == nil {
			hi = I(a.Len())
		}
		if mx == nil {
			mx = I(a.Len())
		}
		x.oblige(st, "safety", name, And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, I(a.Len()))), i.Pos())
		x.ensure(st, s)
		x.set(st, i, &SliceV{T: types.NewSlice(a.Elem()), Cell: s.Cell, Off: lo, Len: Sub2(hi, lo), Cap: Sub2(mx, lo), Null: False})
	default:
		panic(unsupported("slice"))
	}
}

func (x *Exec) lookup(st *State, i *ssa.Lookup) {
	switch m := x.reg(st, i.X).(type) {
	case *Term:
		idx := x.reg(st, i.Index).(*Term)
		x.oblige(st, "safety", x.pname("index out of range", nil, i.Pos()), And(Le(I(0), idx), Lt(idx, Len(m))), i.Pos())
		x.set(st, i, At(m, idx))
	case *MapV:
		k := x.encode(st, x.reg(st, i.Index), m.T.Key(), nil)
		c := x.content(st, m.Cell, m.T)
		d := MapDom(c, k)
		fin := func(s *State, in bool) {
			var v Val
			if in {
				s.assume(d)
				v = x.decode(s, MapVal(c, k), m.T.Elem(), m.Cell)
			} else {
				s.assume(Not(d))
				v = x.zero(s, m.T.Elem())
			}
			if i.CommaOk {
				x.set(s, i, &TupleV{[]Val{v, B(in)}})
			} else {
				x.set(s, i, v)
			}
		}
		switch {
		case x.unsat(st, d):
			fin(st, false)
		case x.unsat(st, Not(d)):
			fin(st, true)
		default:
			x.fork(st, func(n *State) { fin(n, true) })
			fin(st, false)
		}
	default:
		panic(unsupported("lookup"))
	}
}

func (x *Exec) rangeInit(st *State, i *ssa.Range) {
	id := newCellID()
	st.cells[id] = &Cell{Content: I(0), Elem: types.Typ[types.Int], Name: "$range"}
	it := &IterV{Cell: id}
	switch v := x.reg(st, i.X).(type) {
	case *Term:
		it.Str = v
	case *MapV:
		it.Map = v
		it.Start = x.content(st, v.Cell, v.T)
	default:
		panic(unsupported("range"))
	}
	x.set(st, i, it)
}

func (x *Exec) next(st *State, i *ssa.Next) {
	it := x.reg(st, i.Iter).(*IterV)
	c := st.cells[it.Cell]
	pos := c.Content.(*Term)
	zero := func(k int) Val {
		t := i.Type().(*types.Tuple).At(k).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return I(0)
		}
		return x.zero(st, t)
	}
	if it.Str != nil {
		x.recordGuard(st, Lt(pos, Len(it.Str)))
		more := func(s *State) {
			n := c.clone()
			w := App("runewidth", SInt, it.Str, pos)
			n.Content = Add(pos, w)
			r := App("runeat", SInt, it.Str, pos)
			b := At(it.Str, pos)
			s.assume(Lt(pos, Len(it.Str)))
			s.assume(And(Le(I(1), w), Le(Add(pos, w), Len(it.Str)), Imp(Lt(b, I(128)), And(Eq(r, b), Eq(w, I(1)))), Imp(Le(I(128), b), Le(I(128), r))))
			// the bytes of an encoded rune beyond ASCII are all beyond ASCII
			k := FreshBound("k", SInt)
			s.assume(Forall([]*Term{k}, Imp(And(Le(pos, k), Lt(k, Add(pos, w)), Le(I(128), b)), Le(I(128), At(it.Str, k))), []*Term{At(it.Str, k)}))
			s.cells[it.Cell] = n
			x.set(s, i, &TupleV{[]Val{True, pos, r}})
		}
		done := func(s *State) {
			s.assume(Le(Len(it.Str), pos))
			x.set(s, i, &TupleV{[]Val{False, zero(1), zero(2)}})
		}
		c := Lt(pos, Len(it.Str))
		switch {
		case x.unsat(st, c):
			done(st)
		case x.unsat(st, Not(c)):
			more(st)
		default:
			x.fork(st, more)
			done(st)
		}
		return
	}
	m := it.Map
	mc := x.content(st, m.Cell, m.T)
	if mc == it.Start && mc.Sort.Kind == KMap {
		// the map is what it was when the loop started: its keys come in some order, each once
		keys := MapKeys(mc)
		g := Lt(pos, Len(keys))
		x.recordGuard(st, g)
		more := func(s *State) {
			k := At(keys, pos)
			s.assume(g)
			s.assume(MapDom(mc, k))
			x.deepRange(s, k, m.T.Key())
			if e := MapVal(mc, k); e.Sort.Kind == KSeq {
				// (said of a variable, because the simplifier takes it for granted)
				l := FreshV("len", SInt)
				s.assume(Eq(l, Len(e)))
				s.assume(Le(l, IB(maxLen)))
			}
			n := c.clone()
			n.Content = AddC(pos, 1)
			s.cells[it.Cell] = n
			x.set(s, i, &TupleV{[]Val{True, x.decode(s, k, m.T.Key(), 0), x.decode(s, MapVal(mc, k), m.T.Elem(), m.Cell)}})
		}
		done := func(s *State) {
			s.assume(Le(Len(keys), pos))
			x.set(s, i, &TupleV{[]Val{False, zero(1), zero(2)}})
		}
		switch {
		case x.unsat(st, g):
			done(st)
		case x.unsat(st, Not(g)):
			more(st)
		default:
			x.fork(st, more)
			done(st)
		}
		return
	}
	x.fork(st, func(s *State) {
		k := FreshV("key", sortOf(m.T.Key()))
		x.deepRange(s, k, m.T.Key())
		s.assume(MapDom(mc, k))
		n := c.clone()
		n.Content = AddC(pos, 1)
		s.cells[it.Cell] = n
		x.set(s, i, &TupleV{[]Val{True, x.decode(s, k, m.T.Key(), 0), x.decode(s, MapVal(mc, k), m.T.Elem(), m.Cell)}})
	})
	x.set(st, i, &TupleV{[]Val{False, zero(1), zero(2)}})
}

func (x *Exec) changeType(st *State, v Val, t types.Type) Val {
	switch a := v.(type) {
	case *StructV:
		n := *a
		n.N = typeName(t)
		if u, ok := t.Underlying().(*types.Struct); ok {
			n.T = u
		}
		return &n
	case *SliceV:
		n := *a
		n.T = t.Underlying().(*types.Slice)
		return &n
	case *MapV:
		n := *a
		n.T = t.Underlying().(*types.Map)
		return &n
	}
	return v
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, fIsB := from.Underlying().(*types.Basic)
	tb, tIsB := to.Underlying().(*types.Basic)
	switch {
	case tIsB && tb.Kind() == types.UnsafePointer:
		p := *(v.(*PtrV))
		return &p
	case fIsB && fb.Kind() == types.UnsafePointer:
		p := *(v.(*PtrV))
		if pt, ok := to.Underlying().(*types.Pointer); ok {
			p.T = pt.Elem()
			return &p
		}
		panic(unsupported("conversion from unsafe.Pointer"))
	case fIsB && tIsB && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return x.wrap(st, v.(*Term), to)
	case fIsB && tIsB && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 {
			return App("float32of", USort("Float"), v.(*Term))
		}
		return App("float64of", USort("Float"), v.(*Term))
	case fIsB && tIsB && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
			return App("round32", USort("Float"), v.(*Term))
		}
		return v
	case fIsB && tIsB && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		r := App("truncfloat", SInt, v.(*Term))
		if tb.Kind() != types.Int && tb.Kind() != types.Int64 {
			panic(unsupported("float conversion"))
		}
		x.rangeFact(st, r, to)
		return r
	case tIsB && tb.Info()&types.IsString != 0:
		switch a := v.(type) {
		case *SliceV:
			if isByte(a.T.Elem()) {
				return x.view(st, a)
			}
		case *Term:
			if a.Sort == SBytes {
				return a
			}
			if a.Sort == SInt {
				return App("utf8enc", SBytes, a)
			}
		}
	default:
		if s, ok := to.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			if t, ok := v.(*Term); ok && t.Sort == SBytes {
				id := newCellID()
				st.cells[id] = &Cell{Content: t, Elem: s, Name: "bytes"}
				cp := FreshV("cap", SInt)
				st.assume(Le(Len(t), cp))
				return &SliceV{T: s, Cell: id, Off: I(0), Len: Len(t), Cap: cp, Null: False}
			}
		}
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

func (x *Exec) box(st *State, v Val, t types.Type) Val {
	if i, ok := v.(*IfaceV); ok {
		return i
	}
	var ref *Term
	if p, ok := v.(*PtrV); ok {
		ref = App("box."+typeName(t), SRef, p.Ref)
	} else {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature, *types.Chan:
			ref = App("res:box"+FreshAddr("").Name, SRef)
			ref = App("boxv."+typeName(t), SRef, ref, x.encode(st, v, t, nil))
		default:
			ref = App("box."+typeName(t), SRef, x.encode(st, v, t, nil))
		}
	}
	st.assume(Not(Eq(ref, Null)))
	st.assume(Eq(dynType(ref), typeID(t)))
	r := &IfaceV{Ref: ref, Dyn: t, Val: v}
	tabMu.Lock()
	refIface[ref] = r
	tabMu.Unlock()
	return r
}

func (x *Exec) unbox(st *State, ref *Term, t types.Type) Val {
	if ref.Op == OApp && (ref.Name == "box."+typeName(t)) {
		return x.decode(st, ref.Args[0], t, 0)
	}
	return x.decode(st, App("unbox."+typeName(t), sortOf(t), ref), t, 0)
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) {
	v := x.reg(st, i.X).(*IfaceV)
	t := i.AssertedType
	if types.IsInterface(t) {
		if v.Dyn != nil {
			ok := types.Implements(v.Dyn, t.Underlying().(*types.Interface))
			if i.CommaOk {
				if ok {
					x.set(st, i, &TupleV{[]Val{v, True}})
				} else {
					x.set(st, i, &TupleV{[]Val{x.zero(st, t), False}})
				}
				return
			}
			x.oblige(st, "safety", x.pname("type assertion", nil, i.Pos()), B(ok), i.Pos())
			x.set(st, i, v)
			return
		}
		panic(unsupported("assertion to an interface"))
	}
	var cond *Term
	var res Val
	if v.Dyn != nil {
		cond = B(types.Identical(v.Dyn, t))
		res = v.Val
	} else {
		cond = And(Not(Eq(v.Ref, Null)), Eq(dynType(v.Ref), typeID(t)))
	}
	if !i.CommaOk {
		x.oblige(st, "safety", x.pname("type assertion", nil, i.Pos()), cond, i.Pos())
		if res == nil {
			res = x.unbox(st, v.Ref, t)
		}
		x.set(st, i, res)
		return
	}
	yes := func(s *State) {
		s.assume(cond)
		r := res
		if r == nil {
			r = x.unbox(s, v.Ref, t)
		}
		x.set(s, i, &TupleV{[]Val{r, True}})
	}
	no := func(s *State) {
		s.assume(Not(cond))
		x.set(s, i, &TupleV{[]Val{x.zero(s, t), False}})
	}
	switch {
	case x.unsat(st, cond):
		no(st)
	case x.unsat(st, Not(cond)):
		yes(st)
	default:
		x.fork(st, yes)
		no(st)
	}
}

// ---------------------------------------------------------------- arithmetic

func inRange(t *Term, lo, hi *big.Int) bool {
	l, h := bounds(t)
	return l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}

func (x *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if inRange(t, lo, hi) {
		return t
	}
	if x.known(st, And(Le(IB(lo), t), Le(t, IB(hi)))) {
		return t
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	return Add(Mod(Sub2(t, IB(lo)), IB(m)), IB(lo))
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, xt, rt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return x.eqVal(st, a, b)
	case token.NEQ:
		return Not(x.eqVal(st, a, b))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("operator " + op.String()))
	}
	if p.Sort == SBytes {
		switch op {
		case token.ADD:
			return Cat(SBytes, p, q)
		case token.LSS:
			return App("strless", SBool, p, q)
		case token.GTR:
			return App("strless", SBool, q, p)
		case token.LEQ:
			return Not(App("strless", SBool, q, p))
		case token.GEQ:
			return Not(App("strless", SBool, p, q))
		}
	}
	if p.Sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(p, q)
		case token.OR, token.LOR:
			return Or(p, q)
		}
	}
	if p.Sort != SInt {
		if p.Sort.Name == "Float" {
			switch op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return App("fl"+op.String(), SBool, p, q)
			}
			panic(unsupported("floating-point arithmetic"))
		}
		panic(unsupported("operator " + op.String() + " on " + p.Sort.Name))
	}
	switch op {
	case token.ADD:
		return x.wrap(st, Add(p, q), rt)
	case token.SUB:
		return x.wrap(st, Sub2(p, q), rt)
	case token.MUL:
		return x.wrap(st, Mul(p, q), rt)
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Lt(q, p)
	case token.GEQ:
		return Le(q, p)
	case token.QUO, token.REM:
		x.oblige(st, "safety", x.pname("division by zero", nil, pos), Not(Eq(q, I(0))), pos)
		d := x.truncDiv(st, p, q)
		if op == token.QUO {
			return x.wrap(st, d, rt)
		}
		if x.known(st, Le(I(0), p)) && x.known(st, Lt(I(0), q)) {
			return Mod(p, q)
		}
		return Sub2(p, Mul(d, q))
	case token.AND:
		if q.Op == OInt {
			return andConst(p, q.I)
		}
		if p.Op == OInt {
			return andConst(q, p.I)
		}
		return x.bitop(st, op, p, q, rt)
	case token.AND_NOT:
		if q.Op == OInt && q.I.Sign() >= 0 {
			return Sub2(p, andConst(p, q.I))
		}
		return x.bitop(st, op, p, q, rt)
	case token.OR, token.XOR:
		mp, mq := bitsOf(p), bitsOf(q)
		if mp != nil && mq != nil && new(big.Int).And(mp, mq).Sign() == 0 {
			return Add(p, q)
		}
		return x.bitop(st, op, p, q, rt)
	case token.SHL:
		if q.Op == OInt && q.I.IsInt64() && q.I.Int64() < 64 {
			return x.wrap(st, MulC(new(big.Int).Lsh(bigOne, uint(q.I.Int64())), p), rt)
		}
	case token.SHR:
		if q.Op == OInt && q.I.IsInt64() && q.I.Int64() < 64 {
			return Div(p, IB(new(big.Int).Lsh(bigOne, uint(q.I.Int64()))))
		}
	}
	if op == token.SHL || op == token.SHR {
		r := App("shift"+op.String()+typeName(rt), SInt, p, q)
		x.rangeFact(st, r, rt)
		return r
	}
	panic(unsupported("operator " + op.String()))
}

func (x *Exec) truncDiv(st *State, p, q *Term) *Term {
	neg := func(t *Term) *Term { return MulC(big.NewInt(-1), t) }
	pos := func(a *Term) *Term {
		if x.known(st, Le(I(0), a)) {
			return Div(a, q)
		}
		if x.known(st, Le(a, I(0))) {
			return neg(Div(neg(a), q))
		}
		return Ite(Le(I(0), a), Div(a, q), neg(Div(neg(a), q)))
	}
	if x.known(st, Lt(I(0), q)) {
		return pos(p)
	}
	return App("truncdiv", SInt, p, q)
}

func andConst(p *Term, m *big.Int) *Term {
	if m.Sign() < 0 {
		// p & m = p - (p & ^m) for non-negative ^m
		nm := new(big.Int).Not(m)
		return Sub2(p, andConst(p, nm))
	}
	if p.Op == OInt && p.I.Sign() >= 0 {
		return IB(new(big.Int).And(p.I, m))
	}
	// runs of ones
	r := I(0)
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		lo := new(big.Int).Lsh(bigOne, uint(i))
		w := new(big.Int).Lsh(bigOne, uint(j-i))
		r = Add(r, MulC(lo, Mod(Div(p, IB(lo)), IB(w))))
		i = j
	}
	return r
}

// bitsOf returns a mask of the bits a non-negative term may have, nil if unknown.
func bitsOf(t *Term) *big.Int {
	switch t.Op {
	case OInt:
		if t.I.Sign() >= 0 {
			return t.I
		}
		return nil
	case OLin:
		r := new(big.Int).Set(t.I)
		if r.Sign() < 0 {
			return nil
		}
		for i, a := range t.Args {
			c := t.Coef[i]
			if c.Sign() < 0 {
				return nil
			}
			// only powers of two shift the mask
			if new(big.Int).And(c, new(big.Int).Sub(c, bigOne)).Sign() != 0 {
				return rangeMask(t)
			}
			m := bitsOf(a)
			if m == nil {
				return nil
			}
			m = new(big.Int).Mul(m, c)
			if new(big.Int).And(m, r).Sign() != 0 {
				return rangeMask(t)
			}
			r.Or(r, m)
		}
		return r
	case OIte:
		a, b := bitsOf(t.Args[1]), bitsOf(t.Args[2])
		if a == nil || b == nil {
			return nil
		}
		return new(big.Int).Or(a, b)
	}
	return rangeMask(t)
}

func rangeMask(t *Term) *big.Int {
	lo, hi := bounds(t)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return nil
	}
	return new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(hi.BitLen())), bigOne)
}

func (x *Exec) bitop(st *State, op token.Token, p, q *Term, rt types.Type) *Term {
	mp, mq := bitsOf(p), bitsOf(q)
	if mp != nil && mq != nil && mp.BitLen() <= 16 && mq.BitLen() <= 16 {
		n := mp.BitLen()
		if mq.BitLen() > n {
			n = mq.BitLen()
		}
		r := I(0)
		for i := 0; i < n; i++ {
			w := new(big.Int).Lsh(bigOne, uint(i))
			bp := Eq(Mod(Div(p, IB(w)), I(2)), I(1))
			bq := Eq(Mod(Div(q, IB(w)), I(2)), I(1))
			var c *Term
			switch op {
			case token.AND:
				c = And(bp, bq)
			case token.OR:
				c = Or(bp, bq)
			case token.XOR:
				c = Not(Eq(bp, bq))
			case token.AND_NOT:
				c = And(bp, Not(bq))
			}
			r = Add(r, MulC(w, Ite(c, I(1), I(0))))
		}
		return r
	}
	r := App("bit"+op.String()+typeName(rt), SInt, p, q)
	x.rangeFact(st, r, rt)
	return r
}

// ---------------------------------------------------------------- freshness

// arrays reachable from a value
func (x *Exec) arrays(st *State, v Val, seen map[int]bool) {
	add := func(id int) {
		for _, r := range x.roots(st, id) {
			seen[r] = true
		}
	}
	switch a := v.(type) {
	case *SliceV:
		if a.Len == I(0) && a.Cap == I(0) {
			return
		}
		add(a.Cell)
		if c := st.cells[a.Cell]; c != nil {
			for _, i := range c.Inner {
				add(i)
			}
		}
	case *StructV:
		for _, f := range a.F {
			x.arrays(st, f, seen)
		}
	case *PtrV:
		if a.Ref == Null || a.Cell == 0 {
			return
		}
		if seen[a.Cell] {
			return
		}
		seen[a.Cell] = true
		if c := st.cells[a.Cell]; c != nil {
			x.arrays(st, c.Content, seen)
		}
	case *MapV:
		if a.Ref != Null {
			seen[a.Cell] = true
			if c := st.cells[a.Cell]; c != nil {
				for _, i := range c.Inner {
					add(i)
				}
			}
		}
	case *IfaceV:
		if a.Val != nil {
			x.arrays(st, a.Val, seen)
		}
	}
}

func (x *Exec) isFresh(st *State, v Val) bool {
	if s, ok := v.(*SliceV); ok && s.Null == True {
		return true
	}
	m := map[int]bool{}
	x.arrays(st, v, m)
	for id := range m {
		if c := st.cells[id]; c == nil || c.Param {
			return false
		}
	}
	return true
}

func (x *Exec) isDisjoint(st *State, a, b Val) bool {
	m, n := map[int]bool{}, map[int]bool{}
	x.arrays(st, a, m)
	x.arrays(st, b, n)
	for id := range m {
		if n[id] {
			return false
		}
	}
	return true
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
