package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- program-wide facts

type ifaceRef struct {
	name string
	t    types.Type
}

type ginit struct {
	cell  *Cell
	sub   map[int]*Cell
	facts []*Term
}

var progMu sync.Mutex

func (p *Program) prepare() {
	p.ifaceOf = map[*ssa.Function][]ifaceRef{}
	for name, l := range p.impls {
		for _, im := range l {
			it := p.tnames[name[:strings.LastIndex(name, ".")]]
			p.ifaceOf[im.fn] = append(p.ifaceOf[im.fn], ifaceRef{name, it})
		}
	}
	for f := range p.ifaceOf {
		l := p.ifaceOf[f]
		sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	}
	// call graph of the repository
	p.edges = map[*ssa.Function]map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, f := range p.byName {
		fns = append(fns, f)
	}
	for i := 0; i < len(fns); i++ {
		f := fns[i]
		if p.edges[f] != nil {
			continue
		}
		p.edges[f] = map[*ssa.Function]bool{}
		p.loopsOf(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case ssa.CallInstruction:
					cc := c.Common()
					if s := cc.StaticCallee(); s != nil {
						p.edges[f][s] = true
						if _, ok := p.edges[s]; !ok && s.Pkg != nil && p.repoP[s.Pkg.Pkg] {
							fns = append(fns, s)
						}
					}
					if cc.IsInvoke() {
						for _, im := range p.impls[typeName(cc.Value.Type())+"."+cc.Method.Name()] {
							p.edges[f][im.fn] = true
						}
					}
				case *ssa.MakeClosure:
					s := c.Fn.(*ssa.Function)
					p.edges[f][s] = true
					fns = append(fns, s)
				}
			}
		}
	}
	p.reach = map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		if p.reach[f] != nil {
			continue
		}
		r := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for h := range p.edges[g] {
				if !r[h] {
					r[h] = true
					walk(h)
				}
			}
		}
		walk(f)
		p.reach[f] = r
	}
	p.evalGlobals()
}

func (p *Program) sameSCC(a, b *ssa.Function) bool {
	return p.reach[a][b] && p.reach[b][a]
}

func (p *Program) globalInit(g *ssa.Global) *ginit {
	if p.stored[g] {
		return nil
	}
	return p.ginits[g]
}

// evalGlobals runs the package initialisers.
func (p *Program) evalGlobals() {
	p.ginits = map[*ssa.Global]*ginit{}
	for _, pk := range p.pkgs {
		init := pk.Func("init")
		if init == nil {
			continue
		}
		func() {
			x := NewExec(p, "")
			defer x.pr.Close()
			x.dry = 1
			x.rootName = "init"
			x.inInit = true
			st := &State{cells: map[int]*Cell{}}
			x.entry = st.snapshot()
			x.entryEnv = &evalCtx{sp: p.sp, x: x, st: st, vars: map[string]Val{}, types: map[string]types.Type{}}
			fr := &Frame{fn: init, regs: map[ssa.Value]Val{}, block: init.Blocks[0], loops: map[*ssa.BasicBlock]*activeLoop{}}
			st.frame = fr
			// straight-line evaluation of the stores to globals
			mem := map[*ssa.Global]Val{}
			if len(init.Blocks) < 2 {
				return
			}
			ok := true
			for _, in := range init.Blocks[1].Instrs {
				if !ok {
					break
				}
				switch i := in.(type) {
				case *ssa.Store:
					if g, is := i.Addr.(*ssa.Global); is {
						func() {
							defer func() { recover() }()
							mem[g] = x.reg(st, i.Val)
						}()
						continue
					}
				case *ssa.Call:
					if c := i.Call.StaticCallee(); c != nil && c.Name() == "init" {
						continue
					}
				case *ssa.Jump, *ssa.Return, *ssa.If:
					ok = false
					continue
				}
				func() {
					defer func() { recover() }()
					if u, is := in.(*ssa.UnOp); is {
						if _, g := u.X.(*ssa.Global); g {
							return
						}
					}
					if c, is := in.(*ssa.Call); is {
						if cl := c.Call.StaticCallee(); cl != nil && x.inRepo(cl) {
							return
						}
					}
					x.step(st, in)
				}()
			}
			for g, v := range mem {
				et := g.Type().(*types.Pointer).Elem()
				sub := map[int]*Cell{}
				for k, c := range st.cells {
					sub[k] = c
				}
				p.ginits[g] = &ginit{cell: &Cell{Content: v, Elem: et, Param: true, Name: g.Name()}, sub: sub, facts: st.pc}
			}
			// globals without initialiser are zero
			for _, m := range pk.Members {
				if g, is := m.(*ssa.Global); is && p.ginits[g] == nil {
					has := false
					for _, b := range init.Blocks {
						for _, in := range b.Instrs {
							if s, is := in.(*ssa.Store); is && globalOf(s.Addr) == g {
								has = true
							}
						}
					}
					if !has {
						et := g.Type().(*types.Pointer).Elem()
						z := x.zero(st, et)
						p.ginits[g] = &ginit{cell: &Cell{Content: z, Elem: et, Param: true, Name: g.Name()}, sub: st.cells}
					}
				}
			}
		}()
	}
}

// ---------------------------------------------------------------- verification of one function

type FuncReport struct {
	Name    string
	Obls    []*Obligation
	Paths   int
	Returns int
	Inlined []string
	Called  []string
	Assumed []string
	Notes   []string
	Vacuous bool
	callees []*effContract
	Time    time.Duration
	eff     *effContract
}

func (p *Program) verifyFunc(eff *effContract, prop string, term bool, alts map[int]int) *FuncReport {
	t0 := time.Now()
	x := NewExec(p, prop)
	x.alts = alts
	defer x.pr.Close()
	x.termWant = term
	x.root = eff.fn
	x.rootName = eff.name
	x.contract = eff
	rep := &FuncReport{Name: eff.name}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("GOCV_PANIC") != "" {
					panic(e)
				}
				x.failObl(nil, "unsupported", "contract", fmt.Sprint(e), eff.fn.Pos())
			}
		}()
		x.runRoot(eff, rep)
	}()
	rep.Obls = x.obls
	rep.Paths = x.paths
	rep.Returns = x.returns
	rep.Inlined = sortedKeys(x.inlined)
	rep.Called = sortedKeys(x.called)
	rep.Assumed = sortedKeys(x.assumed)
	rep.Notes = sortedKeys(x.notes)
	rep.Time = time.Since(t0)
	return rep
}

func (x *Exec) runRoot(eff *effContract, rep *FuncReport) {
	fn := eff.fn
	st := &State{cells: map[int]*Cell{}}
	var args []Val
	ts := x.paramTypes(fn)
	for _, p := range fn.Params {
		args = append(args, x.symbolic(st, p.Type(), p.Name(), true))
	}
	var bind []Val
	for _, fv := range fn.FreeVars {
		v := x.symbolic(st, fv.Type(), fv.Name(), true)
		if p, ok := v.(*PtrV); ok {
			st.assume(Not(Eq(p.Ref, Null)))
		}
		bind = append(bind, v)
	}
	// pointees of parameters exist
	env := &evalCtx{sp: x.sp, x: x, st: st, vars: map[string]Val{}, types: map[string]types.Type{}}
	x.entryEnv = env
	nreq := 0
	for _, p := range eff.parts {
		c := x.partCtx(st, nil, p, args, ts)
		c.old = st
		for k, v := range c.vars {
			env.vars[k] = v
			env.types[k] = c.types[k]
		}
		for _, cl := range p.c.Clauses {
			if cl.Kind == "requires" && inView(cl.Tags, x.prop) {
				nreq++
				st.assume(c.bool(cl.E))
			}
		}
	}
	if eff.plain {
		for _, a := range args {
			switch v := a.(type) {
			case *PtrV:
				st.assume(Not(Eq(v.Ref, Null)))
			case *IfaceV:
				st.assume(Not(Eq(v.Ref, Null)))
			case *FuncV:
				if v.Ref != nil {
					st.assume(Not(Eq(v.Ref, Null)))
				}
			}
		}
	}
	if nreq > 0 && x.pr.Unsat(st.pc, True) {
		rep.Vacuous = true
		x.failObl(st, "vacuous", "preconditions", "the preconditions contradict each other", fn.Pos())
		return
	}
	// targets are resolved in the entry state
	var tgs []target
	for _, p := range eff.parts {
		c := x.partCtx(st, nil, p, args, ts)
		for _, cl := range p.c.Clauses {
			if cl.Kind == "modifies" && inView(cl.Tags, x.prop) {
				for _, e := range cl.Es {
					tgs = append(tgs, x.resolve(c, e)...)
				}
			}
		}
	}
	x.entry = st.snapshot()
	env.old = x.entry
	x.exitHook = func(s *State, res []Val) {
		x.returns++
		s.frame.caller = nil
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch v := e.(type) {
					case evalErr:
						x.failObl(s, "unsupported", "contract", string(v), fn.Pos())
					case unsup:
						x.failObl(s, "unsupported", "contract", string(v), fn.Pos())
					default:
						panic(e)
					}
				}
			}()
			x.checkExit(s, eff, args, ts, res, tgs)
		}()
	}
	x.enter(st, fn, bind, args, nil)
	x.run(st)
}

func (x *Exec) checkExit(st *State, eff *effContract, args []Val, ts []types.Type, res []Val, tgs []target) {
	fn := eff.fn
	pos := fn.Pos()
	if vacMode {
		x.vac(st, "return", pos)
	}
	for _, p := range eff.parts {
		c := x.partCtx(st, x.entry, p, args, ts)
		x.addResults(c, p, fn.Signature, res)
		for k, cl := range p.c.Clauses {
			if cl.Kind != "ensures" || !inView(cl.Tags, x.prop) {
				continue
			}
			nm := clauseName(cl, k)
			if cl.Assume {
				x.assumed[p.c.Name+" "+nm+" (assumed clause)"] = true
				continue
			}
			if p.iface != nil {
				nm = p.c.Name + " " + nm
			}
			s2 := st
			conjuncts(cl.E, func(n *Node) {
				g := c.bool(n)
				kind := "post"
				if cl.Alias {
					kind = "alias"
				}
				x.oblige(s2, kind, "ensures "+nm, g, pos)
			})
		}
	}
	x.checkTypeInvs(st, "on return", pos)
	for _, p := range eff.parts {
		if p.c.Anything {
			return
		}
	}
	if len(st.taint) > 0 {
		x.failObl(st, "frame", "changes only what it says", "a loop changes objects it reaches by what it receives", fn.Pos())
	}
	x.checkFrame(st, tgs, pos0(fn))
}

func pos0(fn *ssa.Function) *ssa.Function { return fn }

func (x *Exec) checkFrame(st *State, tgs []target, fn *ssa.Function) {
	orig := map[int]*Cell{}
	for id, c := range x.entry.cells {
		orig[id] = c
	}
	x.initMu.Lock()
	for id, ini := range x.initCells {
		if orig[id] == nil {
			orig[id] = ini.cell
		}
		for k, v := range ini.sub {
			if orig[k] == nil {
				orig[k] = v
			}
		}
	}
	x.initMu.Unlock()
	for _, g := range x.sp.Ghosts {
		id := x.ghostID(g)
		if orig[id] == nil && st.cells[id] != nil {
			orig[id] = &Cell{Content: V("ghost."+g.Name, g.Sort), Param: true, Name: "ghost " + g.Name}
		}
	}
	var ids []int
	for id, c := range orig {
		if c.Param && st.cells[id] != nil && st.cells[id] != c {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		b, c := orig[id], st.cells[id]
		var mine []target
		for _, t := range tgs {
			if t.cell == id {
				mine = append(mine, t)
			}
		}
		x.frameCmp(st, mine, b, nil, b.Content, c.Content, fn)
	}
}

func (x *Exec) frameCmp(st *State, tgs []target, cell *Cell, fs []int, b, c Val, fn *ssa.Function) {
	if b == c {
		return
	}
	for _, t := range tgs {
		if t.region == nil && len(t.fields) <= len(fs) {
			ok := true
			for i := range t.fields {
				if t.fields[i] != fs[i] {
					ok = false
				}
			}
			if ok {
				return
			}
		}
	}
	name := "unchanged: " + cell.Name
	ty := cell.Elem
	for _, f := range fs {
		sf := ty.Underlying().(*types.Struct).Field(f)
		name += "." + sf.Name()
		ty = sf.Type()
	}
	switch p := b.(type) {
	case *StructV:
		q, ok := c.(*StructV)
		if !ok {
			x.oblige(st, "frame", name, False, fn.Pos())
			return
		}
		for i := range p.F {
			x.frameCmp(st, tgs, cell, append(fs[:len(fs):len(fs)], i), p.F[i], q.F[i], fn)
		}
	case *Term:
		q := c.(*Term)
		var rs []*span
		for _, t := range tgs {
			if t.region != nil {
				rs = append(rs, t.region)
			}
		}
		if len(rs) == 0 {
			x.oblige(st, "frame", name, Eq(p, q), fn.Pos())
			return
		}
		if len(rs) == 1 {
			r := rs[0]
			x.oblige(st, "frame", name+" (elements)", And(Eq(Len(p), Len(q)), Eq(SubSeq(p, I(0), r.lo), SubSeq(q, I(0), r.lo)), Eq(SubSeq(p, r.hi, Len(p)), SubSeq(q, r.hi, Len(q)))), fn.Pos())
			return
		}
		v := FreshBound("k", SInt)
		cond := []*Term{Le(I(0), v), Lt(v, Len(p))}
		for _, r := range rs {
			cond = append(cond, Or(Lt(v, r.lo), Le(r.hi, v)))
		}
		x.oblige(st, "frame", name+" (elements)", And(Eq(Len(p), Len(q)), Forall([]*Term{v}, Imp(And(cond...), Eq(At(p, v), At(q, v))))), fn.Pos())
	case *SliceV:
		q, ok := c.(*SliceV)
		if !ok || q.Cell != p.Cell {
			x.oblige(st, "frame", name, False, fn.Pos())
			return
		}
		x.oblige(st, "frame", name, And(Eq(p.Off, q.Off), Eq(p.Len, q.Len), Eq(p.Null, q.Null)), fn.Pos())
	default:
		x.oblige(st, "frame", name, x.eqVal(st, b, c), fn.Pos())
	}
}

// ---------------------------------------------------------------- verification of a property

type PropReport struct {
	Prop    string
	Funcs   []*FuncReport
	Lemmas  []*Obligation
	Missing []string
	Relied  []string
	Failed  []*Obligation
	Total   int
	ByBack  map[string]int
	Time    time.Duration
	Assumed []string
	Axioms  []string
}

// roots of a property: functions with a clause tagged with it.
func (p *Program) rootsOf(prop string) (roots []string, missing []string) {
	seen := map[string]bool{}
	for _, key := range p.sp.Order {
		c := p.sp.Contracts[key]
		tag := hasTag(c.Keep, prop)
		for _, cl := range c.Clauses {
			if hasTag(cl.Tags, prop) && cl.Kind != "requires" {
				tag = true
			}
		}
		if !tag || c.Helper {
			continue
		}
		switch c.Kind {
		case "func":
			if p.byName[key] == nil {
				missing = append(missing, key)
				continue
			}
			if !seen[key] {
				seen[key] = true
				roots = append(roots, key)
			}
		case "interface":
			for _, im := range p.impls[key] {
				n := shortFn(im.fn)
				if !seen[n] {
					seen[n] = true
					roots = append(roots, n)
				}
			}
		}
	}
	if prop == closureProp {
		// whatever writes the fields of a type with an invariant keeps the invariant
		for _, tn := range typeInvNames(p.sp) {
			for _, n := range p.writersOf(tn) {
				p.closureRoot(n, seen, &roots)
			}
		}
	}
	return
}

// closureRoot takes a function that writes a field of a type with an invariant: the function itself when it is under
// contract or exported, otherwise the functions that call it (and are verified with its body in place of the call).
func (p *Program) closureRoot(n string, seen map[string]bool, roots *[]string) {
	if seen[n] {
		return
	}
	seen[n] = true
	fn := p.byName[n]
	if fn == nil {
		return
	}
	probe := &Exec{prog: p, sp: p.sp, prop: closureProp}
	if probe.effective(fn) != nil || token.IsExported(fn.Name()) {
		*roots = append(*roots, n)
		return
	}
	for f, cs := range p.edges {
		for c := range cs {
			if c == fn {
				for f.Parent() != nil {
					f = f.Parent()
				}
				p.closureRoot(shortFn(f), seen, roots)
				break
			}
		}
	}
}

// the property whose check covers every function that may break a type invariant
const closureProp = "C02"

var termProps = map[string]bool{"C02": true, "C12": true, "C13": true}

func (p *Program) verifyProp(prop, only string, tmo time.Duration, maxFail int) *PropReport {
	t0 := time.Now()
	rep := &PropReport{Prop: prop, ByBack: map[string]int{}}
	roots, missing := p.rootsOf(prop)
	if only == "" {
		rep.Missing = missing
	}
	done := map[string]bool{}
	queue := roots
	if only != "" {
		queue = nil
		for _, n := range strings.Split(only, ",") {
			queue = append(queue, n)
		}
	}
	var mu sync.Mutex
	probe := &Exec{prog: p, sp: p.sp, prop: prop}
	for len(queue) > 0 {
		var batch []string
		for _, n := range queue {
			if !done[n] {
				done[n] = true
				batch = append(batch, n)
			}
		}
		queue = nil
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for _, n := range batch {
			fn := p.byName[n]
			if fn == nil {
				rep.Missing = append(rep.Missing, n)
				continue
			}
			eff := probe.effective(fn)
			if eff == nil && prop == closureProp && p.sp.Contracts[n] == nil && token.IsExported(fn.Name()) {
				c := &Contract{Kind: "func", Name: n, Anything: true}
				for _, q := range fn.Params {
					c.Params = append(c.Params, q.Name())
				}
				eff = &effContract{name: n, fn: fn, parts: []effPart{{c: c}}, plain: true}
			}
			if eff == nil {
				rep.Missing = append(rep.Missing, n+" (signature changed)")
				continue
			}
			if eff.parts[0].c.Kind == "trusted" {
				continue
			}
			if by := eff.parts[0].c.By; len(by) > 0 && !hasTag(by, prop) && only == "" {
				rep.Relied = append(rep.Relied, n+" ("+strings.Join(by, ", ")+")")
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				r := p.verifyFunc(eff, prop, termProps[prop], nil)
				r.eff = eff
				<-sem
				mu.Lock()
				rep.Funcs = append(rep.Funcs, r)
				if only == "" {
					for _, c := range r.Called {
						queue = append(queue, c)
					}
					for _, a := range r.Assumed {
						for _, im := range p.impls[a] {
							queue = append(queue, shortFn(im.fn))
						}
					}
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
	}
	sort.Slice(rep.Funcs, func(i, j int) bool { return rep.Funcs[i].Name < rep.Funcs[j].Name })
	// discharge
	var todo []*Obligation
	for _, f := range rep.Funcs {
		for _, o := range f.Obls {
			rep.Total++
			if !o.Res.Proved && o.Res.Backend == "" {
				todo = append(todo, o)
			}
		}
		if f.Returns == 0 && !f.Vacuous && !neverReturns[f.Name] {
			f.Obls = append(f.Obls, &Obligation{Func: f.Name, Kind: "vacuous", Name: "a return is reached", Res: Result{Backend: "generator", Output: "no path of the function reaches a return"}})
		}
	}
	p.discharge(todo, tmo, maxFail)
	// a function that fails may have been written in another way its contract knows
	for i, f := range rep.Funcs {
		if n := f.failed(); n > 0 {
			for _, alts := range f.eff.altChoices() {
				r := p.verifyFunc(f.eff, prop, termProps[prop], alts)
				r.eff = f.eff
				if r.Returns == 0 {
					continue
				}
				var todo []*Obligation
				for _, o := range r.Obls {
					if !o.Res.Proved && o.Res.Backend == "" {
						todo = append(todo, o)
					}
				}
				p.discharge(todo, tmo, 1) // only a complete proof counts
				if r.failed() == 0 {
					rep.Total += len(r.Obls) - len(f.Obls)
					rep.Funcs[i] = r
					break
				}
			}
		}
	}
	// lemmas used
	used := map[string]bool{}
	usedMu.Lock()
	for k := range usedAxioms {
		used[k] = true
	}
	usedMu.Unlock()
	for _, l := range p.sp.Lemmas {
		// a lemma tagged with the property is one of its statements
		if hasTag(l.Tags, prop) {
			used[l.Name] = true
		}
	}
	rep.Lemmas = p.proveLemmas(used, tmo)
	for _, f := range rep.Funcs {
		for _, o := range f.Obls {
			if o.Res.Proved {
				rep.ByBack[o.Res.Backend]++
			} else {
				rep.Failed = append(rep.Failed, o)
			}
		}
	}
	for _, o := range rep.Lemmas {
		rep.Total++
		if o.Res.Proved {
			rep.ByBack[o.Res.Backend]++
		} else {
			rep.Failed = append(rep.Failed, o)
		}
	}
	for _, m := range rep.Missing {
		rep.Total++
		rep.Failed = append(rep.Failed, &Obligation{Func: m, Name: "contract applies", Kind: "missing", Res: Result{Backend: "generator", Output: "the function under contract is missing or has another signature"}})
	}
	as := map[string]bool{}
	for _, f := range rep.Funcs {
		for _, a := range f.Assumed {
			// contracts of the repository's interfaces are proved for every implementation
			if len(p.impls[a]) == 0 {
				as[a] = true
			}
		}
	}
	rep.Assumed = sortedKeys(as)
	lem := map[string]bool{}
	for _, l := range p.sp.Lemmas {
		lem[l.Name] = true
	}
	for k := range used {
		if !lem[k] {
			rep.Axioms = append(rep.Axioms, k)
		}
	}
	sort.Strings(rep.Axioms)
	rep.Time = time.Since(t0)
	return rep
}

var neverReturns = map[string]bool{}

var usedMu sync.Mutex
var usedAxioms = map[string]bool{}

func (f *FuncReport) failed() int {
	n := 0
	for _, o := range f.Obls {
		if !o.Res.Proved {
			n++
		}
	}
	return n
}

// altChoices lists the combinations of alternative loop contracts of a function.
func (e *effContract) altChoices() []map[int]int {
	if e == nil {
		return nil
	}
	var r []map[int]int
	for _, p := range e.parts {
		var ns []int
		for n := range p.c.Loops {
			ns = append(ns, n)
		}
		sort.Ints(ns)
		for _, n := range ns {
			for k := range p.c.Loops[n].Alts {
				for _, m := range append([]map[int]int{nil}, r...) {
					if m[n] != 0 {
						continue
					}
					c := map[int]int{n: k + 1}
					for a, b := range m {
						c[a] = b
					}
					r = append(r, c)
				}
			}
		}
	}
	if len(r) > 8 {
		r = r[:8]
	}
	return r
}

func (p *Program) discharge(todo []*Obligation, tmo time.Duration, maxFail int) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	fails := 0
	var mu sync.Mutex
	for _, o := range todo {
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			mu.Lock()
			stop := maxFail > 0 && fails >= maxFail
			mu.Unlock()
			if stop {
				o.Res = Result{Backend: "skipped", Output: "not attempted after other failures"}
				return
			}
			q := &Query{Name: o.Func + ": " + o.Name, Hyps: o.Hyps, Goal: o.Goal}
			if c := p.sp.Contracts[o.Func]; c != nil {
				q.Hide, q.Using = c.Hide, c.Using
			}
			o.Res = q.Prove(tmo)
			if !o.Res.Proved {
				mu.Lock()
				fails++
				mu.Unlock()
			}
		}(o)
	}
	wg.Wait()
}

// proveLemmas proves the lemmas that were used, each from the axioms and the lemmas before it.
func (p *Program) proveLemmas(used map[string]bool, tmo time.Duration) []*Obligation {
	res := map[string]*Obligation{}
	for {
		var wave []*LemmaDecl
		for _, l := range p.sp.Lemmas {
			if used[l.Name] && res[l.Name] == nil {
				wave = append(wave, l)
			}
		}
		if len(wave) == 0 {
			break
		}
		var wg sync.WaitGroup
		for _, l := range wave {
			uses := map[string]bool{}
			for _, u := range l.Uses {
				uses[u] = true
			}
			as := []*Axiom{}
			for i, a := range theory.Axioms {
				// later plain axioms are fine, later lemmas are not
				if a.Lemma && i >= l.before || a.Local && !uses[a.Name] || a.Lemma && l.Uses != nil && !uses[a.Name] {
					continue
				}
				delete(uses, a.Name)
				as = append(as, a)
			}
			o := &Obligation{Func: "lemma", Name: l.Name, Kind: "lemma", Pos: fmt.Sprintf("%s:%d", l.File, l.Line)}
			res[l.Name] = o
			for u := range uses {
				if u != "none" {
					o.Res = Result{Backend: "generator", Output: "no lemma " + u + " before this one"}
				}
			}
			if o.Res.Backend != "" {
				continue
			}
			q := &Query{Name: "lemma " + l.Name, Goal: l.Goal, Fuel: 3, Axioms: as}
			if l.Opaque {
				q.Fuel = -1
			}
			if l.Induct != "" {
				q.Goal, q.Hyps = induct(l)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				o.Res = q.Prove(tmo)
			}()
		}
		wg.Wait()
		usedMu.Lock()
		for k := range usedAxioms {
			used[k] = true
		}
		usedMu.Unlock()
	}
	var r []*Obligation
	for _, l := range p.sp.Lemmas {
		if o := res[l.Name]; o != nil {
			r = append(r, o)
		}
	}
	return r
}

func induct(l *LemmaDecl) (*Term, []*Term) {
	f := l.Term
	if f.Op != OForall {
		panic(fmt.Errorf("lemma %s: induction over an unquantified formula", l.Name))
	}
	var iv *Term
	m := map[*Term]*Term{}
	ih := map[*Term]*Term{}
	var ihv []*Term
	for _, v := range f.Vars {
		n := strings.SplitN(v.Name, "?", 2)[0]
		c := FreshV("ind_"+n, v.Sort)
		m[v] = c
		b := FreshBound(n, v.Sort)
		ih[v] = b
		ihv = append(ihv, b)
		if n == l.Induct {
			iv = v
		}
	}
	if iv == nil {
		panic(fmt.Errorf("lemma %s: no variable %s", l.Name, l.Induct))
	}
	g := l.Goal
	mg := map[*Term]*Term{}
	for i, v := range g.Vars {
		mg[v] = m[f.Vars[i]]
	}
	goal := Subst(g.Args[0], mg)
	var trig [][]*Term
	for _, t := range f.Trig {
		var y []*Term
		for _, z := range t {
			y = append(y, Subst(z, ih))
		}
		trig = append(trig, y)
	}
	var less *Term
	if iv.Sort == SInt {
		less = And(Le(I(0), ih[iv]), Lt(ih[iv], m[iv]))
	} else {
		less = Lt(Len(ih[iv]), Len(m[iv]))
	}
	hyp := Forall(ihv, Imp(less, Subst(f.Args[0], ih)), trig...)
	return goal, []*Term{hyp}
}

// GOCV_VAC=1: try to refute the assumptions on every path; what succeeds is an unreachable path or a contradiction
// among the contracts.
var vacMode = os.Getenv("GOCV_VAC") != ""

func (x *Exec) vac(st *State, what string, pos token.Pos) {
	x.addObl(st, "vac", "assumptions contradictory at "+what, False, pos, nil)
}
