package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- loops
//
// A loop is cut at its head. What the body may change is found by running it (without emitting obligations) from a
// state in which everything found so far is arbitrary, until nothing new is found; simple facts (bounds, monotonicity,
// relation to the number of iterations) are proposed and kept only when every iteration preserves them. The
// contract's invariants are proved on entry and after every iteration.

type leafT struct {
	cell   int
	fields []int
	typ    types.Type // nil for ghosts
	sort   *Sort
	mode   int // 0 term, 1 slice same cell, 2 slice fresh cell, 3 reference, 4 struct-free others
	base   Val
	val    Val // arbitrary value
	facts  []*Term
	// slice in a fresh cell
	fid     int
	src     []srcRef
	srcSet  bool
	inner   []int
	param   bool
	capt    bool
	deltaOK bool
}

type candT struct {
	t    *Term
	dead bool
	name string
}

type activeLoop struct {
	l       *loopT
	fn      *ssa.Function
	spec    *LoopSpec
	specIdx int
	dry     bool
	base    *State
	iCell   int
	iv      *Term
	leaves  map[string]*leafT
	order   []string
	attrs   map[int]*Cell // grown attributes of cells that exist at entry
	cands   []*candT
	candSet map[*Term]bool
	guards  map[*Term]bool
	guardL  []*Term
	changed bool
	revived int
	meas    []*candT
	measSet map[*Term]bool
	backs   int
	auto    bool // iteration over a map or the like
	mark    int64
	cmark   int64
	unsup   string
	taint   map[string]bool
	headM   *Term // user's measure at the head
	local   func(c *evalCtx, name string) (Val, types.Type, bool)
}

func (al *activeLoop) change(line int) {
	al.changed = true
	if os.Getenv("GOCV_LOOP") == "2" {
		fmt.Fprintln(os.Stderr, "  changed at loops.go:", line)
	}
}

func leafKey(cell int, fs []int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", cell)
	for _, f := range fs {
		fmt.Fprintf(&b, ".%d", f)
	}
	return b.String()
}

func (x *Exec) jump(st *State, to *ssa.BasicBlock) {
	fr := st.frame
	from := fr.block
	for h, al := range fr.loops {
		if !al.l.body[to] {
			if al.dry {
				st.closed = true
				return
			}
			delete(fr.loops, h)
		}
	}
	fr.prev = from
	fr.block = to
	fr.idx = 0
	li := x.prog.loopsOf(fr.fn)
	if l := li.byHead[to]; l != nil {
		if al := fr.loops[to]; al != nil {
			x.backEdge(st, al)
			st.closed = true
			return
		}
		x.enterLoop(st, l)
	}
}

func (x *Exec) recordGuard(st *State, c *Term) {
	for _, al := range st.frame.loops {
		if al.dry {
			x.addGuard(al, c)
		}
	}
}

func (x *Exec) addGuard(al *activeLoop, c *Term) {
	switch c.Op {
	case OAnd, OOr:
		for _, a := range c.Args {
			x.addGuard(al, a)
		}
		return
	case ONot:
		x.addGuard(al, c.Args[0])
		return
	case OLe0, OEq0:
		if !al.guards[c] && len(al.guards) < 40 {
			al.guards[c] = true
			al.guardL = append(al.guardL, c)
		}
	}
}

// loopSpecOf finds the invariants written for a loop.
func (x *Exec) loopSpecOf(fr *Frame, l *loopT) (*LoopSpec, int) {
	root := x.contract
	if root != nil && x.root != nil {
		if ord := x.prog.movedLoops(x.root); ord != nil {
			if n := ord[movedKey{callPath(fr), l.head}]; n > 0 {
				return root.loop(n).pick(x.alts[n]), n
			}
		}
	}
	if fr.fn == x.root && root != nil {
		return root.loop(l.index).pick(x.alts[l.index]), l.index
	}
	// a function that has a contract of its own carries its invariants when it is inlined
	if eff := x.sp.Contracts[shortFn(fr.fn)]; eff != nil && eff.Loops[l.index] != nil {
		return eff.Loops[l.index], l.index
	}
	if root != nil && x.root != nil {
		own := len(x.prog.loopsOf(x.root).list)
		idx := own
		// helper loops take the remaining indices, in the order in which they are met
		key := fmt.Sprintf("%s#%d", shortFn(fr.fn), l.index)
		if x.helperLoops == nil {
			x.helperLoops = map[string]int{}
		}
		n, ok := x.helperLoops[key]
		if !ok {
			if eff := x.sp.Contracts[shortFn(fr.fn)]; eff != nil && len(eff.Loops) > 0 {
				return nil, 0
			}
			n = len(x.helperLoops) + 1
			x.helperLoops[key] = n
		}
		if s := root.loop(idx + n); s != nil {
			return s, idx + n
		}
	}
	return nil, 0
}

func nameMark(t *Term) int64 {
	n := t.Name
	i := strings.LastIndex(n, "!")
	if i < 0 {
		return 0
	}
	s := n[i+1:]
	s = strings.TrimPrefix(s, "c")
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0
	}
	return v
}

func (al *activeLoop) closedTerm(t *Term, hv map[*Term]bool, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if hv[t] {
		return true
	}
	switch t.Op {
	case OVar:
		return nameMark(t) <= al.mark
	case OApp:
		if strings.HasPrefix(t.Name, "res:") && nameMark(t) > al.mark {
			return false
		}
	case OAddr:
		if strings.Contains(t.Name, "!c") {
			return nameMark(t) <= al.cmark
		}
		return nameMark(t) <= al.mark
	}
	for _, a := range t.Args {
		if !al.closedTerm(a, hv, seen) {
			return false
		}
	}
	return true
}

func (x *Exec) enterLoop(st *State, l *loopT) {
	fr := st.frame
	al := &activeLoop{l: l, fn: fr.fn, leaves: map[string]*leafT{}, attrs: map[int]*Cell{}, candSet: map[*Term]bool{}, guards: map[*Term]bool{}, measSet: map[*Term]bool{}}
	al.spec, al.specIdx = x.loopSpecOf(fr, l)
	al.iCell = newCellID()
	st.cells[al.iCell] = &Cell{Content: I(0), Elem: types.Typ[types.Int], Name: "$i"}
	al.iv = FreshV("$i", SInt)
	if al.spec != nil && al.spec.Cut && x.dry == 0 && fr.fn == x.root && fr.caller == nil && len(fr.loops) == 0 {
		if !x.cutLoop(st, al) {
			st.closed = true
			return
		}
	}
	al.base = st.snapshot()
	al.mark, al.cmark = markNow()
	// the counter itself
	il := x.newLeaf(al, al.iCell, nil, types.Typ[types.Int], SInt)
	il.val = al.iv
	il.facts = []*Term{Le(I(0), al.iv)}

	// ---- what the body changes
	for iter := 0; ; iter++ {
		if iter > 24 {
			x.failObl(st, "unsupported", "loop analysis", fmt.Sprintf("loop %d of %s: no fixed point", l.index, shortFn(fr.fn)), l.pos)
			st.closed = true
			return
		}
		al.changed = false
		al.backs = 0
		al.dry = true
		for _, m := range al.meas {
			m.dead = false
		}
		n := st.clone()
		x.arbitrary(n, al)
		x.assumeCands(n, al)
		x.assumeInvs(n, al)
		n.frame.loops[l.head] = al
		x.dry++
		sp := x.paths
		x.run(n)
		x.paths = sp
		x.dry--
		for _, k := range al.order {
			if lf := al.leaves[k]; lf.val == nil && al.base.cells[lf.cell] != nil {
				x.makeLeafVal(al, lf)
			}
		}
		x.newCands(st, al)
		if !al.changed {
			break
		}
	}
	al.dry = false
	if al.unsup != "" {
		x.failObl(st, "unsupported", "loop", fmt.Sprintf("loop %d of %s: %s", l.index, shortFn(fr.fn), al.unsup), l.pos)
		st.closed = true
		return
	}
	// ---- the contract's invariants hold on entry
	if al.spec != nil && x.dry == 0 {
		for k, c := range al.spec.Inv {
			if !inView(c.Tags, x.prop) {
				continue
			}
			t, err := x.evalInv(st, al, c.E)
			if err != "" {
				x.note("invariant dropped: " + err)
				continue
			}
			x.oblige(st, "inv", fmt.Sprintf("loop %d invariant %s holds on entry", al.specIdx, clauseName(c, k)), t, l.pos)
		}
	}
	x.arbitrary(st, al)
	x.assumeCands(st, al)
	x.assumeInvs(st, al)
	if al.spec != nil && al.spec.Decr != nil {
		t, err := x.evalTermIn(st, al, al.spec.Decr)
		if err == "" {
			al.headM = t
		} else {
			x.note("measure dropped: " + err)
		}
	}
	if os.Getenv("GOCV_LOOP") != "" && x.dry == 0 {
		fmt.Fprintf(os.Stderr, "loop %d of %s (%s): %d back edges\n", l.index, shortFn(fr.fn), x.prog.pos(l.pos), al.backs)
		for _, k := range al.order {
			lf := al.leaves[k]
			nm := ""
			if c := al.base.cells[lf.cell]; c != nil {
				nm = c.Name
			}
			fmt.Fprintf(os.Stderr, "  leaf %s %s%v mode %d\n", k, nm, lf.fields, lf.mode)
		}
		for _, c := range al.cands {
			if !c.dead {
				fmt.Fprintf(os.Stderr, "  cand %s\n", c.t)
			}
		}
		for _, m := range al.meas {
			if !m.dead {
				fmt.Fprintf(os.Stderr, "  measure %s\n", m.t)
			}
		}
	}
	fr.loops[l.head] = al
}

// cutState is what the first path that reached a cut loop continued with.
type cutState struct {
	havoc map[*ssa.Alloc]bool
	vars  map[*ssa.Alloc]*Cell
	regs  map[ssa.Value]Val
}

// cutLoop proves the invariants for this path, and makes the state of the first path general: its conditions are
// forgotten, and the variables assigned before the loop are arbitrary but for the invariants. A later path ends here
// (false), once everything else that the first one continued with is found to be the same.
func (x *Exec) cutLoop(st *State, al *activeLoop) bool {
	fr := st.frame
	bad := func(why string) bool {
		x.failObl(st, "unsupported", "loop", fmt.Sprintf("loop %d of %s: cut: %s", al.l.index, shortFn(fr.fn), why), al.l.pos)
		return false
	}
	for k, c := range al.spec.Inv {
		if !inView(c.Tags, x.prop) {
			continue
		}
		t, err := x.evalInv(st, al, c.E)
		if err != "" {
			return bad(err)
		}
		x.oblige(st, "inv", fmt.Sprintf("loop %d invariant %s holds on entry", al.specIdx, clauseName(c, k)), t, al.l.pos)
	}
	if len(fr.defers) > 0 || len(st.taint) > 0 {
		return bad("deferred calls or callees of unknown effect")
	}
	// nothing that exists outside the function has changed
	for id, c := range st.cells {
		if o := x.entry.cells[id]; o != nil {
			if o.Content != c.Content && !reflect.DeepEqual(o.Content, c.Content) {
				return bad("memory of the caller has changed")
			}
		} else if ini := x.initCells[id]; ini != nil && ini.cell != c {
			return bad("memory of the caller has changed")
		}
	}
	for _, ini := range x.initCells {
		for id, c := range ini.sub {
			if o := st.cells[id]; o != nil && o != c {
				return bad("memory of the caller has changed")
			}
		}
	}
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if !reach[b] {
			reach[b] = true
			for _, s := range b.Succs {
				walk(s)
			}
		}
	}
	walk(al.l.head)
	// the blocks that may run before the loop is reached
	before := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if !before[b] && b != al.l.head {
			before[b] = true
			for _, p := range b.Preds {
				back(p)
			}
		}
	}
	for _, p := range al.l.head.Preds {
		if !al.l.body[p] {
			back(p)
		}
	}
	cs := &cutState{havoc: map[*ssa.Alloc]bool{}, vars: map[*ssa.Alloc]*Cell{}, regs: map[ssa.Value]Val{}}
	iters := map[int]bool{}
	for v, r := range fr.regs {
		in, isInstr := v.(ssa.Instruction)
		if v.Referrers() == nil || isInstr && reach[in.Block()] {
			continue
		}
		live := false
		for _, u := range *v.Referrers() {
			live = live || reach[u.Block()]
		}
		if !live {
			continue
		}
		if it, ok := r.(*IterV); ok {
			// starts at this loop
			if c := st.cells[it.Cell]; c == nil || c.Content != I(0) || it.Map == nil {
				return bad("an iteration")
			}
			iters[it.Cell] = true
			cs.regs[v] = &IterV{Map: it.Map, Start: it.Start}
			continue
		}
		a, ok := v.(*ssa.Alloc)
		if !ok {
			cs.regs[v] = r
			continue
		}
		n := 0
		for _, u := range *v.Referrers() {
			switch w := u.(type) {
			case *ssa.Store:
				if w.Addr != v {
					return bad("the address of a variable is stored")
				}
				if before[u.Block()] {
					n++
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if before[u.Block()] {
					n += 2
				}
			default:
				cs.regs[v] = r // must be the same variable on every path
				n += 2
			}
		}
		p := r.(*PtrV)
		c := st.cells[p.Cell]
		if c == nil {
			return bad("a variable without a value")
		}
		cs.vars[a] = c
		_, plain := c.Content.(*Term)
		cs.havoc[a] = n > 1 || !plain && a.Block() != x.root.Blocks[0]
	}
	if x.cuts == nil {
		x.cuts = map[*loopT]*cutState{}
	}
	if o := x.cuts[al.l]; o != nil {
		if !reflect.DeepEqual(o.havoc, cs.havoc) {
			return bad("variables differ")
		}
		for a, c := range cs.vars {
			if !cs.havoc[a] && !reflect.DeepEqual(o.vars[a].Content, c.Content) {
				return bad("variable " + a.Comment + " differs")
			}
		}
		if len(o.regs) != len(cs.regs) {
			return bad("registers differ")
		}
		for v, r := range cs.regs {
			if !reflect.DeepEqual(o.regs[v], r) {
				return bad(fmt.Sprintf("register %s differs (%s: %T)", v.Name(), v, r))
			}
		}
		return false
	}
	x.cuts[al.l] = cs
	st.pc, st.pcset = nil, nil
	for _, f := range x.entry.pc {
		st.assume(f)
	}
	var shared []srcRef
	for id, c := range x.entry.cells {
		if t, ok := c.Content.(*Term); ok && t.Sort.Kind == KSeq {
			shared = addSrc(shared, id)
		}
	}
	for id := range st.cells {
		if x.entry.cells[id] == nil && x.initCells[id] != nil {
			delete(st.cells, id) // comes back with the facts about it
		}
	}
	var as []*ssa.Alloc
	for a := range cs.havoc {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool {
		return as[i].Pos() < as[j].Pos() || as[i].Pos() == as[j].Pos() && as[i].Name() < as[j].Name()
	})
	for _, a := range as {
		if !cs.havoc[a] {
			continue
		}
		id := fr.regs[a].(*PtrV).Cell
		n := st.cells[id].clone()
		had := map[int]bool{}
		for k := range st.cells {
			had[k] = true
		}
		n.Content = x.symbolic(st, n.Elem, a.Comment, false)
		for k, c := range st.cells {
			if !had[k] {
				c.Src = shared // (a new cell)
			}
		}
		st.cells[id] = n
	}
	x.assumeInvs(st, al)
	return true
}

func clauseName(c *Clause, k int) string {
	if c.Name != "" {
		return c.Name
	}
	return fmt.Sprintf("#%d", k+1)
}

func (x *Exec) note(s string) {
	if x.notes == nil {
		x.notes = map[string]bool{}
	}
	x.notes[s] = true
}

func (x *Exec) newLeaf(al *activeLoop, cell int, fs []int, t types.Type, s *Sort) *leafT {
	k := leafKey(cell, fs)
	lf := &leafT{cell: cell, fields: append([]int{}, fs...), typ: t, sort: s, deltaOK: true}
	al.leaves[k] = lf
	al.order = append(al.order, k)
	lf.base = valAt(al.base.cells[cell].Content, fs)
	return lf
}

func valAt(v Val, fs []int) Val {
	for _, f := range fs {
		v = v.(*StructV).F[f]
	}
	return v
}

func setAt(v Val, fs []int, n Val) Val {
	if len(fs) == 0 {
		return n
	}
	s := v.(*StructV)
	r := &StructV{T: s.T, N: s.N, F: append([]Val{}, s.F...)}
	r.F[fs[0]] = setAt(s.F[fs[0]], fs[1:], n)
	return r
}

// arbitrary makes everything the loop may change arbitrary.
func (x *Exec) arbitrary(st *State, al *activeLoop) {
	for _, k := range al.order {
		lf := al.leaves[k]
		c := st.cells[lf.cell]
		if c == nil {
			for id, ini := range x.initCells {
				if id == lf.cell || ini.sub[lf.cell] != nil {
					x.ensure(st, ini.ptr)
				}
			}
			c = st.cells[lf.cell]
		}
		if c == nil {
			continue
		}
		if lf.val == nil {
			x.makeLeafVal(al, lf)
		}
		n := c.clone()
		n.Content = setAt(c.Content, lf.fields, lf.val)
		st.cells[lf.cell] = n
		if lf.mode == 2 {
			s := lf.val.(*SliceV)
			fc := &Cell{Content: lf.facts0Content(), Elem: s.T, Name: "loop", Param: lf.param, Inner: lf.inner}
			if lf.capt {
				fc.Captured = []span{wholeSpan}
			}
			fc.Src = lf.src
			st.cells[lf.fid] = fc
		}
		if mv, ok := lf.val.(*MapV); ok && lf.mode == 4 {
			mc := &Cell{Content: V(fmt.Sprintf("loopmap%d", mv.Cell), sortOf(mv.T)), Elem: mv.T, Name: "loopmap"}
			if lf.capt {
				mc.Captured = []span{wholeSpan}
			}
			st.cells[mv.Cell] = mc
		}
		for _, f := range lf.facts {
			st.assume(f)
		}
	}
	x.taintAll(st, al)
	for id, a := range al.attrs {
		c := st.cells[id]
		if c == nil {
			continue
		}
		n := c.clone()
		if len(a.Captured) > 0 {
			n.Captured = []span{wholeSpan}
		}
		n.Inner = addIDs(n.Inner, a.Inner...)
		for _, s := range a.Src {
			n.Src = addSrc(n.Src, s.id)
		}
		n.Param = n.Param || a.Param
		st.cells[id] = n
	}
}

func (lf *leafT) facts0Content() *Term {
	return V(fmt.Sprintf("loopseq%d", lf.fid), sortOf(lf.typ))
}

func (x *Exec) makeLeafVal(al *activeLoop, lf *leafT) {
	nm := al.base.cells[lf.cell].Name
	if nm == "" {
		nm = "v"
	}
	tmp := &State{cells: map[int]*Cell{}}
	switch b := lf.base.(type) {
	case *Term:
		lf.mode = 0
		v := FreshV(nm, b.Sort)
		if lf.typ != nil {
			x.rangeFact(tmp, v, lf.typ)
			if a, ok := lf.typ.Underlying().(*types.Array); ok && b.Sort.Kind == KSeq {
				tmp.assume(Eq(Len(v), I(a.Len())))
			}
		}
		lf.val = v
	case *SliceV:
		nl := FreshV(nm+".nil", SBool)
		cp := FreshV(nm+".cap", SInt)
		if lf.mode == 2 {
			lf.fid = newCellID()
			c := lf.facts0Content()
			lf.val = &SliceV{T: b.T, Cell: lf.fid, Off: I(0), Len: Len(c), Cap: cp, Null: nl}
			tmp.assume(Le(Len(c), cp))
			tmp.assume(Or(Not(nl), Eq(Len(c), I(0))))
			tmp.assume(Or(Not(nl), Eq(cp, I(0))))
		} else {
			lf.mode = 1
			off := FreshV(nm+".off", SInt)
			ln := FreshV(nm+".len", SInt)
			lf.val = &SliceV{T: b.T, Cell: b.Cell, Off: off, Len: ln, Cap: cp, Null: nl}
			tmp.assume(Le(I(0), off))
			tmp.assume(Le(I(0), ln))
			tmp.assume(Le(ln, cp))
			tmp.assume(Or(Not(nl), Eq(ln, I(0))))
			if c := al.base.cells[b.Cell]; c != nil {
				if ct, ok := c.Content.(*Term); ok {
					if cl := al.leaves[leafKey(b.Cell, nil)]; cl == nil {
						tmp.assume(Le(Add(off, ln), Len(ct)))
					}
				}
			}
		}
	case *PtrV:
		lf.mode = 3
		ref := freshRef(nm, false)
		lf.val = &PtrV{T: b.T, Ref: ref, Cell: cellOfRef(ref, b.T)}
	case *IfaceV:
		lf.mode = 3
		lf.val = &IfaceV{Ref: freshRef(nm, false)}
	case *FuncV:
		lf.mode = 3
		lf.val = &FuncV{Ref: freshRef(nm, false), Sig: b.Sig, Label: b.Label}
	case *ChanV:
		lf.mode = 3
		lf.val = &ChanV{T: b.T, Ref: freshRef(nm, false), Label: b.Label}
	case *MapV:
		lf.mode = 4
		lf.val = &MapV{T: b.T, Ref: freshRef(nm, false), Cell: newCellID()}
	default:
		al.unsup = fmt.Sprintf("loop-carried %T", b)
		lf.val = b
	}
	lf.facts = tmp.pc
}

func (x *Exec) headMap(st *State, al *activeLoop, back bool) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, k := range al.order {
		lf := al.leaves[k]
		if lf.val == nil {
			continue
		}
		c := st.cells[lf.cell]
		if c == nil {
			continue
		}
		cur := valAt(c.Content, lf.fields)
		switch h := lf.val.(type) {
		case *Term:
			if t, ok := cur.(*Term); ok {
				m[h] = t
			}
		case *SliceV:
			s, ok := cur.(*SliceV)
			if !ok {
				continue
			}
			if lf.mode == 1 {
				m[h.Off] = s.Off
				m[h.Len] = s.Len
			} else {
				m[lf.facts0Content()] = x.view(st, s)
			}
			m[h.Cap] = s.Cap
			m[h.Null] = s.Null
		case *PtrV:
			if p, ok := cur.(*PtrV); ok {
				m[h.Ref] = p.Ref
			}
		case *IfaceV:
			if p, ok := cur.(*IfaceV); ok {
				m[h.Ref] = p.Ref
			}
		case *FuncV:
			if p, ok := cur.(*FuncV); ok {
				m[h.Ref] = p.Ref
			}
		case *ChanV:
			if p, ok := cur.(*ChanV); ok {
				m[h.Ref] = p.Ref
			}
		}
	}
	if back {
		m[al.iv] = AddC(al.iv, 1)
	} else {
		m[al.iv] = I(0)
	}
	return m
}

func (x *Exec) assumeCands(st *State, al *activeLoop) {
	for _, c := range al.cands {
		if !c.dead {
			st.assume(c.t)
		}
	}
}

func (x *Exec) assumeInvs(st *State, al *activeLoop) {
	if al.spec == nil {
		return
	}
	for _, c := range al.spec.Inv {
		if !inView(c.Tags, x.prop) {
			continue
		}
		t, err := x.evalInv(st, al, c.E)
		if err == "" {
			st.assume(t)
		}
	}
}

// newCands proposes facts about the leaves found in the last round.
func (x *Exec) newCands(st *State, al *activeLoop) {
	added := false
	hv := map[*Term]bool{al.iv: true}
	hm := x.headMap(st, al, false)
	for k := range hm {
		hv[k] = true
	}
	baseMap := hm
	limit := 160
	add := func(t *Term) {
		if t.Op == OForall {
			m := map[*Term]*Term{}
			for i, v := range t.Vars {
				m[v] = BoundV(fmt.Sprintf("cand%d", i), v.Sort)
			}
			k := Subst(t.Args[0], m)
			if al.candSet[k] {
				return
			}
			al.candSet[k] = true
		}
		if t == True || t == False || al.candSet[t] || len(al.cands) > limit {
			return
		}
		al.candSet[t] = true
		b := Subst(t, baseMap)
		if b == False || b != True && !x.known(st, b) {
			return
		}
		al.cands = append(al.cands, &candT{t: t})
		if os.Getenv("GOCV_LOOP") == "2" {
			fmt.Fprintln(os.Stderr, "  candidate", t)
		}
		al.change(578)
		added = true
	}
	// a new candidate may support one that did not hold by itself
	defer func() {
		if added && al.revived < 3 {
			al.revived++
			for _, c := range al.cands {
				c.dead = false
			}
		}
	}()
	rel := func(v, v0 *Term) {
		add(Le(v0, v))
		add(Le(v, v0))
		add(Eq(v, Add(v0, al.iv)))
		add(Eq(v, Sub2(v0, al.iv)))
	}
	for _, k := range al.order {
		lf := al.leaves[k]
		if lf.val == nil || lf.cell == al.iCell {
			continue
		}
		switch h := lf.val.(type) {
		case *Term:
			b := lf.base.(*Term)
			switch {
			case h.Sort == SInt:
				rel(h, b)
			case h.Sort == SBool:
				add(Imp(h, b))
				add(Imp(b, h))
			case h.Sort.Kind == KSeq && len(lf.fields) == 0 && isArrayCell(al.base.cells[lf.cell]):
				limit = 1000
				add(Eq(Len(h), Len(b)))
				limit = 160
			case h.Sort.Kind == KSeq:
				rel(Len(h), Len(b))
			}
		case *SliceV:
			b := lf.base.(*SliceV)
			if lf.mode == 1 {
				add(Eq(Add(h.Off, h.Len), Add(b.Off, b.Len)))
				add(Eq(Add(h.Off, h.Cap), Add(b.Off, b.Cap)))
				add(Le(b.Off, h.Off))
				rel(h.Len, b.Len)
				add(Imp(h.Null, b.Null))
				add(Imp(b.Null, h.Null))
			} else {
				rel(h.Len, b.Len)
				add(Imp(b.Null, h.Null))
				add(Not(h.Null))
				add(Imp(h.Null, b.Null))
			}
		case *PtrV:
			add(Eq(h.Ref, Null))
			add(Not(Eq(h.Ref, Null)))
		case *IfaceV:
			add(Eq(h.Ref, Null))
			add(Not(Eq(h.Ref, Null)))
		case *FuncV:
			add(Not(Eq(h.Ref, Null)))
		case *ChanV:
			add(Not(Eq(h.Ref, Null)))
		}
	}
	allVals := true
	for _, lf := range al.leaves {
		allVals = allVals && lf.val != nil
	}
	if len(x.sp.TypeInvs) > 0 && allVals {
		hs := st.clone()
		x.arbitrary(hs, al)
		done := map[int]bool{}
		for _, k := range al.order {
			lf := al.leaves[k]
			for id, c := range hs.cells {
				if c == nil || done[id] || x.typeInvOf(c.Elem) == nil {
					continue
				}
				hit := id == lf.cell
				if s, ok := c.Content.(*StructV); ok && !hit {
					for _, f := range s.F {
						if m, ok := f.(*MapV); ok && m.Cell == lf.cell {
							hit = true
						}
					}
				}
				if hit {
					done[id] = true
					x.typeInv(hs, id, V("self", SRef), x.typeInvOf(c.Elem), func(t *Term, _ *Node) { add(t) })
				}
			}
		}
	}
	one := I(1)
	mInt := func(t *Term) {
		if al.measSet[t] || !al.closedTerm(t, hv, map[*Term]bool{}) {
			return
		}
		al.measSet[t] = true
		al.meas = append(al.meas, &candT{t: t})
		al.change(676)
	}
	for _, g := range al.guardL {
		t := g.Args[0]
		if !al.closedTerm(t, hv, map[*Term]bool{}) {
			continue
		}
		neg := MulC(big.NewInt(-1), t)
		if g.Op == OLe0 {
			add(Le(t, one))    // guard t<=0 weakened by one step
			add(Le(neg, I(0))) // not guard: t>=1 weakened to t>=0
		} else {
			add(Le(t, I(0)))
			add(Le(neg, I(0)))
		}
		mInt(neg)
		mInt(t)
	}
}

func isArrayCell(c *Cell) bool {
	if c == nil || c.Elem == nil {
		return false
	}
	switch c.Elem.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	}
	return false
}

// backEdge: one iteration is complete.
func (x *Exec) backEdge(st *State, al *activeLoop) {
	// count the iteration
	if c := st.cells[al.iCell]; c != nil {
		n := c.clone()
		n.Content = AddC(al.iv, 1)
		st.cells[al.iCell] = n
	}
	if al.dry {
		al.backs++
		x.diffLeaves(st, al)
		if al.changed {
			return
		}
		m := x.headMap(st, al, true)
		for _, c := range al.cands {
			if c.dead {
				continue
			}
			t := Subst(c.t, m)
			if t == True {
				continue
			}
			if t == False || !x.known(st, t) {
				if os.Getenv("GOCV_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "  dead %s after %s\n", c.t, t)
				}
				c.dead = true
				al.change(724)
			}
		}
		for _, c := range al.meas {
			if c.dead {
				continue
			}
			t := And(Le(I(0), c.t), Lt(Subst(c.t, m), c.t))
			if t == False || t != True && !x.known(st, t) {
				if os.Getenv("GOCV_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "  dead %s after %s\n", c.t, t)
				}
				c.dead = true
			}
		}
		return
	}
	if x.dry > 0 {
		return
	}
	if vacMode {
		x.vac(st, "end of loop body", al.l.pos)
	}
	if al.spec != nil {
		for k, c := range al.spec.Inv {
			if !inView(c.Tags, x.prop) {
				continue
			}
			t, err := x.evalInv(st, al, c.E)
			if err != "" {
				x.note("invariant dropped: " + err)
				continue
			}
			x.oblige(st, "inv", fmt.Sprintf("loop %d invariant %s is preserved", al.specIdx, clauseName(c, k)), t, al.l.pos)
		}
		if al.spec.Event {
			return
		}
	}
	if al.auto {
		return
	}
	if al.headM != nil {
		t, err := x.evalTermIn(st, al, al.spec.Decr)
		if err == "" {
			x.oblige(st, "term", fmt.Sprintf("loop %d: measure decreases", al.specIdx), And(Le(I(0), al.headM), Lt(t, al.headM)), al.l.pos)
			return
		}
	}
	if !x.termWant {
		return
	}
	m := x.headMap(st, al, true)
	for _, c := range al.meas {
		if !c.dead {
			x.oblige(st, "term", fmt.Sprintf("loop at %s: measure decreases", x.prog.srcText(al.l.pos)), And(Le(I(0), c.t), Lt(Subst(c.t, m), c.t)), al.l.pos)
			return
		}
	}
	x.failObl(st, "term", fmt.Sprintf("loop at %s terminates", x.prog.srcText(al.l.pos)), "no measure found", al.l.pos)
}

// iterationLocal finds the objects whose references are made of values that exist in one iteration only.
func (x *Exec) iterationLocal(st *State, al *activeLoop) map[int]bool {
	hv := map[*Term]bool{al.iv: true}
	for k := range x.headMap(st, al, false) {
		hv[k] = true
	}
	for _, lf := range al.leaves {
		valVars(lf.val, hv)
	}
	r := map[int]bool{}
	for id, ini := range x.initCells {
		if al.base.cells[id] == nil {
			r[id] = true
		} else {
			valVars(ini.cell.Content, hv)
		}
	}
	for again := true; again; {
		again = false
		for id := range r {
			ini := x.initCells[id]
			if !al.closedTerm(ini.ptr.Ref, hv, map[*Term]bool{}) {
				continue
			}
			delete(r, id)
			again = true
			valVars(ini.cell.Content, hv)
			for _, c := range ini.sub {
				valVars(c.Content, hv)
			}
		}
	}
	return r
}

// valVars adds the terms a value is made of.
func valVars(v Val, m map[*Term]bool) {
	switch a := v.(type) {
	case *Term:
		m[a] = true
	case *StructV:
		for _, f := range a.F {
			valVars(f, m)
		}
	case *SliceV:
		m[a.Off], m[a.Len], m[a.Cap], m[a.Null] = true, true, true, true
	case *PtrV:
		m[a.Ref] = true
	case *IfaceV:
		if a.Ref != nil {
			m[a.Ref] = true
		}
		if a.Val != nil {
			valVars(a.Val, m)
		}
	case *MapV:
		m[a.Ref] = true
	case *ChanV:
		m[a.Ref] = true
	case *FuncV:
		if a.Ref != nil {
			m[a.Ref] = true
		}
	}
}

func (x *Exec) changedSince(st *State, ini *initCell, id int) bool {
	if st.cells[id] != ini.cell {
		return true
	}
	for k, v := range ini.sub {
		if c := st.cells[k]; c != nil && c != v {
			return true
		}
	}
	return false
}

// taintAll makes the objects of the types in question arbitrary from here on.
func (x *Exec) taintAll(st *State, al *activeLoop) {
	if len(al.taint) == 0 {
		return
	}
	n := map[string]bool{}
	for k := range st.taint {
		n[k] = true
	}
	for k := range al.taint {
		n[k] = true
	}
	st.taint = n
	for id, c := range st.cells {
		if c.Elem != nil && al.taint[typeName(c.Elem)] && !al.fresh0(x, id) {
			al.unsup = "objects of type " + typeName(c.Elem) + " are reached by what the iterations receive, and before the loop"
		}
	}
}

// fresh0: the cell is not the content of an object reached through a reference
func (al *activeLoop) fresh0(x *Exec, id int) bool {
	x.initMu.Lock()
	defer x.initMu.Unlock()
	return x.initCells[id] == nil
}

// diffLeaves compares the state after an iteration with the one at the head.
func (x *Exec) diffLeaves(st *State, al *activeLoop) {
	var ids []int
	for id := range al.base.cells {
		ids = append(ids, id)
	}
	// cells created on demand (pointees of unknown references) count as present at entry
	x.initMu.Lock()
	heads := map[*Term]bool{}
	for _, lf := range al.leaves {
		if p, ok := lf.val.(*PtrV); ok {
			heads[p.Ref] = true
		}
	}
	local := x.iterationLocal(st, al)
	for id, ini := range x.initCells {
		if r := ini.ptr.Ref; strings.HasPrefix(r.Name, "res:") && nameMark(r) > al.mark && !heads[r] {
			continue // an object the body got hold of in this iteration
		}
		if local[id] {
			// one of the objects the iterations reach by what they receive: what any iteration may do to one of them
			// is done to all of its type
			if c := st.cells[id]; c != nil && x.changedSince(st, ini, id) {
				nm := typeName(ini.ptr.T)
				if !al.taint[nm] {
					if al.taint == nil {
						al.taint = map[string]bool{}
					}
					al.taint[nm] = true
					al.change(870)
				}
			}
			continue
		}
		if al.base.cells[id] == nil {
			al.base.cells[id] = ini.cell
			ids = append(ids, id)
			for k, v := range ini.sub {
				if al.base.cells[k] == nil {
					al.base.cells[k] = v
					ids = append(ids, k)
				}
			}
		}
	}
	x.initMu.Unlock()
	sort.Ints(ids)
	for _, id := range ids {
		b, c := al.base.cells[id], st.cells[id]
		if b == nil || c == nil || b == c {
			continue
		}
		x.diffVal(st, al, id, nil, b.Content, c.Content, b.Elem)
		// attributes
		a := al.attrs[id]
		grow := func() *Cell {
			if a == nil {
				a = &Cell{}
				al.attrs[id] = a
			}
			al.change(818)
			return a
		}
		if len(c.Captured) > 0 && (a == nil || len(a.Captured) == 0) {
			same := len(c.Captured) == len(b.Captured)
			for i := range c.Captured {
				if same && c.Captured[i] != b.Captured[i] {
					same = false
				}
			}
			if !same {
				grow().Captured = []span{wholeSpan}
			}
		}
		var ain []int
		if a != nil {
			ain = a.Inner
		}
		for _, i := range c.Inner {
			if al.base.cells[i] == nil {
				continue // arrays made inside the loop
			}
			if !hasID(b.Inner, i) && !hasID(ain, i) {
				g := grow()
				g.Inner = addIDs(g.Inner, i)
				ain = g.Inner
			}
		}
	}
}

func hasID(a []int, i int) bool {
	for _, v := range a {
		if v == i {
			return true
		}
	}
	return false
}

func (x *Exec) diffVal(st *State, al *activeLoop, id int, fs []int, b, c Val, t types.Type) {
	if bs, ok := b.(*StructV); ok {
		cs, ok := c.(*StructV)
		if !ok {
			al.unsup = "structure replaced"
			return
		}
		if bs == cs {
			return
		}
		for i := range bs.F {
			x.diffVal(st, al, id, append(fs[:len(fs):len(fs)], i), bs.F[i], cs.F[i], bs.T.Field(i).Type())
		}
		return
	}
	k := leafKey(id, fs)
	lf := al.leaves[k]
	head := b
	if lf != nil {
		head = lf.val
	}
	same := false
	switch h := head.(type) {
	case *Term:
		same = h == c.(*Term)
	case *SliceV:
		s := c.(*SliceV)
		same = h.Cell == s.Cell && h.Off == s.Off && h.Len == s.Len && h.Cap == s.Cap && h.Null == s.Null
		if !same && lf != nil && lf.mode == 1 && h.Cell == s.Cell {
			return // already arbitrary in this respect
		}
		if lf != nil && lf.mode == 2 {
			x.mergeSlice(st, al, lf, s)
			return
		}
	case *PtrV:
		p := c.(*PtrV)
		same = h.Ref == p.Ref
		if !same && p.Ref != Null && al.base.cells[p.Cell] != nil && p.Cell != 0 {
			al.unsup = fmt.Sprintf("pointer %s%v moves between existing objects: %s to %s", al.base.cells[id].Name, fs, h.Ref, p.Ref)
		}
		if !same && len(p.Path) > 0 {
			al.unsup = "pointer into an array"
		}
	case *IfaceV:
		same = h.Ref == c.(*IfaceV).Ref
	case *FuncV:
		same = h.Ref == c.(*FuncV).Ref
	case *ChanV:
		same = h.Ref == c.(*ChanV).Ref
	case *MapV:
		m := c.(*MapV)
		same = h.Cell == m.Cell && h.Ref == m.Ref
		if bm := b.(*MapV); !same && bm.Ref != Null && al.leaves[leafKey(bm.Cell, nil)] == nil && al.base.cells[bm.Cell] != nil {
			// the map at entry may still be the current one when it is written
			mt, _ := al.base.cells[bm.Cell].Content.(*Term)
			if mt != nil {
				x.newLeaf(al, bm.Cell, nil, nil, mt.Sort)
				al.change(0)
			}
		}
		if !same && m.Ref != Null && al.base.cells[m.Cell] != nil && m.Cell != b.(*MapV).Cell {
			al.unsup = "a map moves between existing objects"
		}
		if mc := st.cells[m.Cell]; mc != nil && len(mc.Captured) > 0 && lf != nil && !lf.capt {
			lf.capt = true
			al.change(0)
		}
	case *IterV, *BuiltinV, nil:
		same = true
	default:
		al.unsup = fmt.Sprintf("loop-carried %T", head)
		return
	}
	if same {
		return
	}
	if lf == nil {
		var so *Sort
		if tt, ok := b.(*Term); ok {
			so = tt.Sort
		}
		lf = x.newLeaf(al, id, fs, t, so)
		al.change(926)
		if s, ok := c.(*SliceV); ok {
			if s.Cell != b.(*SliceV).Cell {
				lf.mode = 2
				x.mergeSlice(st, al, lf, b.(*SliceV))
				x.mergeSlice(st, al, lf, s)
			} else {
				lf.mode = 1
			}
		}
		return
	}
	if s, ok := c.(*SliceV); ok && lf.mode == 1 && s.Cell != lf.val.(*SliceV).Cell {
		// becomes a slice of an arbitrary array
		for _, cd := range al.cands {
			if occursAny(cd.t, lf.val.(*SliceV)) {
				cd.dead = true
			}
		}
		for _, cd := range al.meas {
			if occursAny(cd.t, lf.val.(*SliceV)) {
				cd.dead = true
				cd.t = I(0)
			}
		}
		lf.mode = 2
		lf.val = nil
		lf.facts = nil
		al.change(954)
		x.mergeSlice(st, al, lf, lf.base.(*SliceV))
		x.mergeSlice(st, al, lf, s)
	}
}

func occursAny(t *Term, s *SliceV) bool {
	for _, v := range []*Term{s.Off, s.Len, s.Cap, s.Null} {
		if v.Op == OVar && occurs(t, v) {
			return true
		}
	}
	return false
}

// mergeSlice records where the array of a slice leaf may come from.
func (x *Exec) mergeSlice(st *State, al *activeLoop, lf *leafT, s *SliceV) {
	if s.Len == I(0) && s.Cap == I(0) {
		return
	}
	base := lf.base.(*SliceV)
	c := st.cells[s.Cell]
	if c == nil {
		return
	}
	if s.Cell == lf.fid && lf.fid != 0 {
		if len(c.Captured) > 0 && !lf.capt {
			lf.capt = true
			al.change(0)
		}
		return
	}
	if c.Param && !lf.param {
		lf.param = true
		al.change(984)
	}
	if len(c.Captured) > 0 && !lf.capt && al.base.cells[s.Cell] == nil {
		// (an array present at entry keeps its own record: writes are checked against it through the source)
		lf.capt = true
		al.change(988)
	}
	for _, i := range c.Inner {
		if !hasID(lf.inner, i) {
			// arrays made inside the loop are represented by themselves: they are not known at the head
			if al.base.cells[i] != nil {
				lf.inner = addIDs(lf.inner, i)
				al.change(995)
			}
		}
	}
	// roots that exist at entry
	var walk func(id int, delta *Term, seen map[int]bool)
	walk = func(id int, delta *Term, seen map[int]bool) {
		if seen[id] {
			return
		}
		seen[id] = true
		if al.base.cells[id] != nil && id != lf.fid {
			d := delta
			if id != base.Cell || d == nil || d != base.Off {
				d = nil
			}
			for i, o := range lf.src {
				if o.id == id {
					if o.delta != nil && d == nil {
						n := append([]srcRef{}, lf.src...)
						n[i].delta = nil
						lf.src = n
						al.change(1017)
					}
					return
				}
			}
			if bc := al.base.cells[id]; bc != nil {
				if t, ok := bc.Content.(*Term); ok && Len(t) == I(0) && !bc.Param && id == base.Cell && base.Cap == I(0) {
					return
				}
			}
			lf.src = append(lf.src[:len(lf.src):len(lf.src)], srcRef{id, d})
			al.change(1028)
			return
		}
		if cc := st.cells[id]; cc != nil {
			for _, q := range cc.Src {
				var nd *Term
				if q.delta != nil && delta != nil {
					nd = Add(delta, q.delta)
				}
				walk(q.id, nd, seen)
			}
		}
	}
	walk(s.Cell, s.Off, map[int]bool{})
}

// ---------------------------------------------------------------- evaluation inside a loop

func (x *Exec) evalInv(st *State, al *activeLoop, n *Node) (t *Term, err string) {
	return x.evalGuarded(x.loopCtx(st, al), n, true)
}
func (x *Exec) evalTermIn(st *State, al *activeLoop, n *Node) (t *Term, err string) {
	return x.evalGuarded(x.loopCtx(st, al), n, false)
}

func (x *Exec) evalGuarded(c *evalCtx, n *Node, isBool bool) (t *Term, err string) {
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case evalErr:
				err = string(v)
			case unsup:
				err = string(v)
			default:
				panic(e)
			}
		}
	}()
	if isBool {
		return c.bool(n), ""
	}
	return c.int(n), ""
}

func (x *Exec) loopCtx(st *State, al *activeLoop) *evalCtx {
	c := &evalCtx{sp: x.sp, x: x, st: st, old: x.entry, vars: map[string]Val{}, types: map[string]types.Type{}}
	if x.entryEnv != nil {
		c.vars, c.types = x.entryEnv.vars, x.entryEnv.types
	}
	fr := st.frame
	// the frame of the loop (st.frame may be a deeper one only while unwinding)
	for fr != nil && fr.fn != al.fn {
		fr = fr.caller
	}
	c.local = func(e *evalCtx, name string) (Val, types.Type, bool) {
		if name == "$i" {
			if cc := e.st.cells[al.iCell]; cc != nil {
				return cc.Content, types.Typ[types.Int], true
			}
		}
		if len(name) > 2 && name[:2] == "$i" && fr != nil {
			// the iteration of an enclosing loop, by its number
			for f := fr; f != nil; f = f.caller {
				for _, o := range f.loops {
					if fmt.Sprint("$i", o.specIdx) == name {
						if cc := e.st.cells[o.iCell]; cc != nil {
							return cc.Content, types.Typ[types.Int], true
						}
					}
				}
			}
		}
		if name == "$pos" && al.l != nil && fr != nil {
			for _, in := range al.l.head.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					if it, ok := fr.regs[nx.Iter].(*IterV); ok && it.Str != nil {
						if cc := e.st.cells[it.Cell]; cc != nil {
							return cc.Content, types.Typ[types.Int], true
						}
					}
				}
			}
		}
		for f := fr; f != nil; f = f.caller {
			if v, t, ok := x.localVar(e.st, f, al, name); ok {
				return v, t, true
			}
		}
		return nil, nil, false
	}
	return c
}

// localVar reads the local variable of that name.
func (x *Exec) localVar(st *State, f *Frame, al *activeLoop, name string) (Val, types.Type, bool) {
	var best *ssa.Alloc
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			if f.regs[a] == nil {
				continue
			}
			if f.fn == al.fn && al.l != nil && !b.Dominates(al.l.head) {
				continue
			}
			if best == nil || a.Pos() > best.Pos() {
				best = a
			}
		}
	}
	if best == nil {
		if n := x.prog.renamed(f.fn, x.root, name); n != "" {
			return x.localVar(st, f, al, n)
		}
	}
	if best != nil {
		p := f.regs[best].(*PtrV)
		c := st.cells[p.Cell]
		if c == nil {
			return nil, nil, false
		}
		return c.Content, p.T, true
	}
	for _, fv := range f.fn.FreeVars {
		if fv.Name() == name {
			if p, ok := f.regs[fv].(*PtrV); ok {
				if st.cells[p.Cell] == nil {
					return nil, nil, false
				}
				return x.load(st, p), p.T, true
			}
		}
	}
	return nil, nil, false
}

var _ = token.NoPos

func markNow() (int64, int64) {
	tabMu.Lock()
	defer tabMu.Unlock()
	return atomic.LoadInt64(&freshC), int64(cellCnt)
}
