package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type Val interface{}

type StructV struct {
	T *types.Struct
	N string // name of the type
	F []Val
}
type SliceV struct {
	T    *types.Slice
	Cell int
	Off  *Term
	Len  *Term
	Cap  *Term
	Null *Term // Bool
}

// PtrV points to the value at Path of a cell; Ref is its identity (null = nil pointer).
type PtrV struct {
	T    types.Type // element type
	Ref  *Term
	Cell int
	Path []PathEl
}
type PathEl struct {
	Field int
	Index *Term // array/slice element when non-nil
}
type IfaceV struct {
	Ref *Term
	Dyn types.Type // nil: unknown
	Val Val
}
type FuncV struct {
	Fn    *ssa.Function
	Bind  []Val
	Ref   *Term
	Label string
	Sig   *types.Signature
}
type MapV struct {
	T    *types.Map
	Ref  *Term
	Cell int
}
type ChanV struct {
	T     types.Type
	Ref   *Term
	Label string
}
type TupleV struct{ E []Val }
type IterV struct { // range iterator
	Cell  int // position
	Str   *Term
	Map   *MapV
	Start *Term // content of the map when the loop started
}
type BuiltinV struct{ Name string }

// ---------------------------------------------------------------- cells

type span struct{ lo, hi *Term }
type srcRef struct {
	id    int
	delta *Term // offset of this array inside the other one; nil: unknown
}

type Cell struct {
	Content  Val // Seq term for arrays, map term for maps, any Val otherwise
	Elem     types.Type
	Param    bool     // reachable from the caller
	Src      []srcRef // arrays this one may share memory with
	Inner    []int    // arrays captured inside the content
	Captured []span
	Name     string
	Esc      bool
	Spare    *Term // from here on the elements lie behind the length of the slice it was made from
}

func (c *Cell) clone() *Cell { n := *c; return &n }

// ---------------------------------------------------------------- sorts of Go types

var opaque = map[string]bool{"time.Time": true, "time.Location": true}

func shortPkg(s string) string {
	// package paths are reduced to their last element
	var b strings.Builder
	i := 0
	for i < len(s) {
		j := i
		for j < len(s) && (s[j] == '_' || s[j] == '/' || s[j] == '.' || s[j] == '-' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
			j++
		}
		if j > i {
			w := s[i:j]
			if k := strings.LastIndex(w, "/"); k >= 0 {
				w = w[k+1:]
			}
			b.WriteString(w)
			i = j
		} else {
			b.WriteByte(s[i])
			i++
		}
	}
	return b.String()
}

func typeName(t types.Type) string { return shortPkg(types.TypeString(t, nil)) }

var sortOfMu sync.Mutex
var sortOfCache = map[string]*Sort{}

func sortOf(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SBytes
		case u.Info()&types.IsFloat != 0:
			return USort("Float")
		}
		return USort("opq." + u.Name())
	case *types.Slice:
		if isByte(u.Elem()) {
			return SBytes
		}
		return SeqSort(sortOf(u.Elem()))
	case *types.Array:
		if isByte(u.Elem()) {
			return SBytes
		}
		return SeqSort(sortOf(u.Elem()))
	case *types.Struct:
		n := typeName(t)
		if opaque[n] {
			return USort(n)
		}
		sortOfMu.Lock()
		s, ok := sortOfCache[n]
		sortOfMu.Unlock()
		if ok {
			return s
		}
		var fs []SField
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, SField{u.Field(i).Name(), sortOf(u.Field(i).Type())})
		}
		s = StructSort("S."+n, fs)
		sortOfMu.Lock()
		sortOfCache[n] = s
		sortOfMu.Unlock()
		return s
	case *types.Map:
		return MapSort(sortOf(u.Key()), sortOf(u.Elem()))
	}
	return SRef
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isOpaqueStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && opaque[typeName(t)]
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(64)
	signed := true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	}
	if signed {
		hi = new(big.Int).Lsh(bigOne, bits-1)
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, bigOne)
	} else {
		lo = bigZero
		hi = new(big.Int).Sub(new(big.Int).Lsh(bigOne, bits), bigOne)
	}
	return lo, hi, true
}

// ---------------------------------------------------------------- global tables

var (
	tabMu    sync.Mutex
	cellCnt  int
	refCell  = map[*Term]int{}     // pointer identity -> cell (whole)
	refPtr   = map[*Term]*PtrV{}   // known pointers
	refIface = map[*Term]*IfaceV{} // known interface values
	refFunc  = map[*Term]*FuncV{}
	refMap   = map[*Term]*MapV{}
	typeIDs  = map[string]int64{}
)

func newCellID() int {
	tabMu.Lock()
	defer tabMu.Unlock()
	cellCnt++
	return cellCnt
}

func typeID(t types.Type) *Term {
	return typeIDName(typeName(t))
}
func typeIDName(n string) *Term {
	tabMu.Lock()
	defer tabMu.Unlock()
	id, ok := typeIDs[n]
	if !ok {
		id = int64(len(typeIDs) + 1)
		typeIDs[n] = id
	}
	return I(id)
}

func dynType(ref *Term) *Term { return App("dyntype", SInt, ref) }

// cell standing for the pointee of an unknown reference
func cellOfRef(ref *Term, t types.Type) int {
	tabMu.Lock()
	defer tabMu.Unlock()
	if c, ok := refCell[ref]; ok {
		return c
	}
	cellCnt++
	refCell[ref] = cellCnt
	return cellCnt
}

// ---------------------------------------------------------------- state

type State struct {
	pc     []*Term
	pcset  map[*Term]bool
	cells  map[int]*Cell
	frame  *Frame
	steps  int
	trail  []string
	closed bool
	taint  map[string]bool // types of which objects not seen yet may have changed since entry
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	caller *Frame
	call   ssa.Value // register receiving the result
	defers []*deferred
	loops  map[*ssa.BasicBlock]*activeLoop
	onRet  func(st *State, res []Val) // continuation instead of caller resumption
	depth  int
	rundef int
}
type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

func (f *Frame) clone() *Frame {
	if f == nil {
		return nil
	}
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = append([]*deferred{}, f.defers...)
	n.loops = make(map[*ssa.BasicBlock]*activeLoop, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.caller = f.caller.clone()
	return &n
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], cells: make(map[int]*Cell, len(s.cells)+8), frame: s.frame.clone(), steps: s.steps, trail: s.trail[:len(s.trail):len(s.trail)], taint: s.taint}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

// memory only
func (s *State) snapshot() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], cells: make(map[int]*Cell, len(s.cells)), taint: s.taint}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for i := len(s.pc) - 1; i >= 0 && i >= len(s.pc)-200; i-- {
		if s.pc[i] == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}

// ---------------------------------------------------------------- symbolic values

// symbolic builds an arbitrary value of type t; facts about it go to st.
func (x *Exec) symbolic(st *State, t types.Type, name string, param bool) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return &PtrV{T: types.Typ[types.Int], Ref: freshRef(name, param), Cell: newCellID()}
		}
		v := FreshV(name, sortOf(t))
		x.rangeFact(st, v, t)
		return v
	case *types.Struct:
		if isOpaqueStruct(t) {
			return FreshV(name, sortOf(t))
		}
		s := &StructV{T: u, N: typeName(t)}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.symbolic(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), param))
		}
		return s
	case *types.Slice:
		return x.symSlice(st, u, name, FreshV(name, sortOf(t)), param)
	case *types.Array:
		v := FreshV(name, sortOf(t))
		st.assume(Eq(Len(v), I(u.Len())))
		return v
	case *types.Pointer:
		ref := freshRef(name, param)
		return &PtrV{T: u.Elem(), Ref: ref, Cell: cellOfRef(ref, u.Elem())}
	case *types.Map:
		ref := freshRef(name+".ref", param)
		id := newCellID()
		c := FreshV(name, sortOf(t))
		st.cells[id] = &Cell{Content: c, Elem: t, Param: param, Name: name}
		st.assume(Or(Not(Eq(ref, Null)), Eq(c, MapEmpty(c.Sort))))
		return &MapV{T: u, Ref: ref, Cell: id}
	case *types.Chan:
		return &ChanV{T: t, Ref: freshRef(name, param)}
	case *types.Signature:
		return &FuncV{Ref: freshRef(name, param), Sig: u}
	case *types.Interface:
		return &IfaceV{Ref: freshRef(name, param)}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, x.symbolic(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), param))
		}
		return tv
	}
	panic(unsupported("symbolic value of type " + t.String()))
}

func freshRef(name string, param bool) *Term {
	v := FreshV(name, SRef)
	if param {
		return v
	}
	return App("res:"+v.Name, SRef)
}

func isParamRef(t *Term) bool {
	if t.Op == OApp && strings.HasPrefix(t.Name, "res:") || t.Op == OAddr {
		return false
	}
	for _, a := range t.Args {
		if !isParamRef(a) {
			return false
		}
	}
	return true
}

func (x *Exec) symSlice(st *State, u *types.Slice, name string, content *Term, param bool) *SliceV {
	id := newCellID()
	st.cells[id] = &Cell{Content: content, Elem: u, Param: param, Name: name}
	null := FreshV(name+".nil", SBool)
	cp := FreshV(name+".cap", SInt)
	l := Len(content)
	st.assume(Le(l, cp))
	st.assume(Or(Not(null), Eq(l, I(0))))
	st.assume(Or(Not(null), Eq(cp, I(0))))
	return &SliceV{T: u, Cell: id, Off: I(0), Len: l, Cap: cp, Null: null}
}

func (x *Exec) rangeFact(st *State, v *Term, t types.Type) {
	if v.Sort != SInt {
		return
	}
	lo, hi, ok := intRange(t)
	if ok {
		st.assume(Le(IB(lo), v))
		st.assume(Le(v, IB(hi)))
	}
}

// deepRange adds range facts of the integers inside an encoded term.
func (x *Exec) deepRange(st *State, v *Term, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		x.rangeFact(st, v, t)
	case *types.Struct:
		if isOpaqueStruct(t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x.deepRange(st, Sel(v, i), u.Field(i).Type())
		}
	}
}

func zeroTerm(t types.Type) *Term {
	s := sortOf(t)
	switch s.Kind {
	case KInt:
		return I(0)
	case KBool:
		return False
	case KSeq:
		if a, ok := t.Underlying().(*types.Array); ok {
			return Rep(s, I(a.Len()), zeroTerm(a.Elem()))
		}
		return EmptySeq(s)
	case KMap:
		return MapEmpty(s)
	case KStruct:
		u := t.Underlying().(*types.Struct)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroTerm(u.Field(i).Type()))
		}
		return Mk(s, as...)
	}
	if s == SRef {
		return Null
	}
	return App("zero."+s.Name, s)
}

func (x *Exec) zero(st *State, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isOpaqueStruct(t) {
			return zeroTerm(t)
		}
		s := &StructV{T: u, N: typeName(t)}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.zero(st, u.Field(i).Type()))
		}
		return s
	case *types.Slice:
		id := newCellID()
		st.cells[id] = &Cell{Content: EmptySeq(sortOf(t)), Elem: u, Name: "nil"}
		return &SliceV{T: u, Cell: id, Off: I(0), Len: I(0), Cap: I(0), Null: True}
	case *types.Pointer:
		return &PtrV{T: u.Elem(), Ref: Null, Cell: 0}
	case *types.Map:
		id := newCellID()
		st.cells[id] = &Cell{Content: MapEmpty(sortOf(t)), Elem: t, Name: "nilmap"}
		return &MapV{T: u, Ref: Null, Cell: id}
	case *types.Chan:
		return &ChanV{T: t, Ref: Null}
	case *types.Signature:
		return &FuncV{Ref: Null, Sig: u}
	case *types.Interface:
		return &IfaceV{Ref: Null}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, x.zero(st, u.At(i).Type()))
		}
		return tv
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return &PtrV{T: types.Typ[types.Int], Ref: Null}
		}
	}
	return zeroTerm(t)
}

// ---------------------------------------------------------------- encoding of values inside containers

// encode turns a value into a term. into (may be nil) is the container cell; the arrays captured are recorded.
func (x *Exec) encode(st *State, v Val, t types.Type, into *Cell) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *StructV:
		var as []*Term
		for i, f := range a.F {
			as = append(as, x.encode(st, f, a.T.Field(i).Type(), into))
		}
		return Mk(sortOf(t), as...)
	case *SliceV:
		if into != nil {
			x.capture(st, a, into)
		}
		return x.view(st, a)
	case *PtrV:
		if len(a.Path) == 0 || a.Ref.Op == OAddr {
			tabMu.Lock()
			if _, ok := refPtr[a.Ref]; !ok && a.Ref != Null {
				refPtr[a.Ref] = a
			}
			tabMu.Unlock()
		}
		return a.Ref
	case *IfaceV:
		tabMu.Lock()
		if _, ok := refIface[a.Ref]; !ok && a.Dyn != nil {
			refIface[a.Ref] = a
		}
		tabMu.Unlock()
		return a.Ref
	case *FuncV:
		tabMu.Lock()
		if _, ok := refFunc[a.Ref]; !ok && a.Ref != Null {
			refFunc[a.Ref] = a
		}
		tabMu.Unlock()
		return a.Ref
	case *ChanV:
		return a.Ref
	case *MapV:
		if into != nil && a.Ref != Null {
			// the container keeps the map by reference, the encoding is a snapshot
			if c := st.cells[a.Cell]; c != nil && len(c.Captured) == 0 {
				n := c.clone()
				n.Captured = []span{wholeSpan}
				st.cells[a.Cell] = n
			}
		}
		return x.content(st, a.Cell, a.T)
	}
	panic(unsupported(fmt.Sprintf("encode %T", v)))
}

func (x *Exec) capture(st *State, a *SliceV, into *Cell) {
	if a.Len == I(0) && a.Cap == I(0) {
		return
	}
	c := x.cell(st, a.Cell)
	if c == nil {
		return
	}
	into.Inner = addIDs(into.Inner, x.roots(st, a.Cell)...)
	if a.Len != I(0) {
		x.markCaptured(st, a.Cell, &span{a.Off, Add(a.Off, a.Len)}, map[int]bool{})
	}
}

var wholeSpan = span{I(0), IB(new(big.Int).Lsh(bigOne, 60))}

func (x *Exec) markCaptured(st *State, id int, sp *span, seen map[int]bool) {
	c := st.cells[id]
	if c == nil || seen[id] {
		return
	}
	seen[id] = true
	for _, o := range c.Captured {
		if o == *sp || o == wholeSpan {
			return
		}
	}
	n := c.clone()
	n.Captured = append(n.Captured[:len(n.Captured):len(n.Captured)], *sp)
	if len(n.Captured) > 12 {
		n.Captured = []span{wholeSpan}
	}
	st.cells[id] = n
	for _, s := range c.Src {
		if s.delta == nil {
			x.markCaptured(st, s.id, &wholeSpan, seen)
		} else {
			x.markCaptured(st, s.id, &span{Add(sp.lo, s.delta), Add(sp.hi, s.delta)}, seen)
		}
	}
}

func addSrc(a []srcRef, b ...int) []srcRef {
	m := map[int]bool{}
	for _, i := range a {
		m[i.id] = true
	}
	r := a[:len(a):len(a)]
	for _, i := range b {
		if !m[i] {
			m[i] = true
			r = append(r, srcRef{i, nil})
		}
	}
	return r
}

func addIDs(a []int, b ...int) []int {
	m := map[int]bool{}
	for _, i := range a {
		m[i] = true
	}
	r := a[:len(a):len(a)]
	for _, i := range b {
		if !m[i] {
			m[i] = true
			r = append(r, i)
		}
	}
	sort.Ints(r)
	return r
}

// roots are the arrays a cell may share memory with, itself included.
func (x *Exec) roots(st *State, id int) []int {
	seen := map[int]bool{}
	var r []int
	var add func(int)
	add = func(i int) {
		if seen[i] || i == 0 {
			return
		}
		seen[i] = true
		r = append(r, i)
		if c := st.cells[i]; c != nil {
			for _, s := range c.Src {
				add(s.id)
			}
		}
	}
	add(id)
	sort.Ints(r)
	return r
}

// decode turns a term of a container into a value of type t.
func (x *Exec) decode(st *State, v *Term, t types.Type, from int) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return &PtrV{T: types.Typ[types.Int], Ref: v}
		}
		x.rangeFactQuiet(st, v, t)
		return v
	case *types.Struct:
		if isOpaqueStruct(t) {
			return v
		}
		s := &StructV{T: u, N: typeName(t)}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.decode(st, Sel(v, i), u.Field(i).Type(), from))
		}
		return s
	case *types.Slice:
		s := x.symSlice(st, u, "elem", v, false)
		c := st.cells[s.Cell].clone()
		if fc := st.cells[from]; fc != nil && fc.Spare != nil && v.Op == OSel && v.Args[0].Op == OAt && x.known(st, Le(fc.Spare, v.Args[0].Args[1])) {
			c.Param = fc.Param
			c.Name = "spare"
			x.spare = true
			st.cells[s.Cell] = c
			return s
		}
		c.Captured = []span{{I(0), Len(v)}}
		if fc := st.cells[from]; fc != nil {
			c.Param = fc.Param
			c.Src = addSrc(c.Src, fc.Inner...)
		}
		st.cells[s.Cell] = c
		return s
	case *types.Array:
		return v
	case *types.Pointer:
		tabMu.Lock()
		p := refPtr[v]
		tabMu.Unlock()
		if p != nil {
			return p
		}
		if v == Null {
			return &PtrV{T: u.Elem(), Ref: Null}
		}
		return &PtrV{T: u.Elem(), Ref: v, Cell: cellOfRef(v, u.Elem())}
	case *types.Map:
		ref := freshRef("mapref", false)
		id := newCellID()
		st.cells[id] = &Cell{Content: v, Elem: t, Name: "elem", Captured: []span{wholeSpan}}
		st.assume(Or(Not(Eq(ref, Null)), Eq(v, MapEmpty(v.Sort))))
		return &MapV{T: u, Ref: ref, Cell: id}
	case *types.Chan:
		return &ChanV{T: t, Ref: v}
	case *types.Signature:
		tabMu.Lock()
		f := refFunc[v]
		tabMu.Unlock()
		if f != nil {
			return f
		}
		return &FuncV{Ref: v, Sig: u}
	case *types.Interface:
		tabMu.Lock()
		f := refIface[v]
		tabMu.Unlock()
		if f != nil {
			return f
		}
		return &IfaceV{Ref: v}
	}
	panic(unsupported("decode " + t.String()))
}

func (x *Exec) rangeFactQuiet(st *State, v *Term, t types.Type) {
	if v.Sort != SInt {
		return
	}
	lo, hi, ok := intRange(t)
	if !ok {
		return
	}
	st.assume(Le(IB(lo), v))
	st.assume(Le(v, IB(hi)))
}

// ---------------------------------------------------------------- memory access

// cell returns the cell, creating the symbolic pointee of an unknown reference on demand.
func (x *Exec) cell(st *State, id int) *Cell { return st.cells[id] }

func (x *Exec) content(st *State, id int, t types.Type) *Term {
	c := st.cells[id]
	if c == nil {
		panic(unsupported("missing cell"))
	}
	return c.Content.(*Term)
}

// deref makes sure that the pointee of p exists in st.
func (x *Exec) ensure(st *State, p *PtrV) *Cell {
	if c := st.cells[p.Cell]; c != nil {
		return c
	}
	if p.Cell == 0 {
		panic(unsupported("dereference of nil or unknown pointer"))
	}
	if hasBound(p.Ref) {
		panic(unsupported("dereference under a quantifier"))
	}
	x.initMu.Lock()
	ini, ok := x.initCells[p.Cell]
	if st.taint[typeName(p.T)] {
		tmp := &State{cells: map[int]*Cell{}}
		now := &initCell{cell: &Cell{Content: x.symbolic(tmp, p.T, "changed", isParamRef(p.Ref)), Elem: p.T, Param: isParamRef(p.Ref), Name: p.Ref.Name}, facts: tmp.pc, sub: tmp.cells, ptr: p}
		if !ok {
			x.initCells[p.Cell] = now
		}
		ini, ok = now, true
	}
	if !ok {
		tmp := &State{cells: map[int]*Cell{}}
		param := isParamRef(p.Ref)
		nm := p.Ref.Name
		if nm == "" {
			nm = "ptr"
		}
		content := x.symbolic(tmp, p.T, strings.TrimPrefix(nm, "res:"), param)
		ini = &initCell{cell: &Cell{Content: content, Elem: p.T, Param: param, Name: nm}, facts: tmp.pc, sub: tmp.cells, ptr: p}
		x.initCells[p.Cell] = ini
	}
	x.initMu.Unlock()
	st.cells[p.Cell] = ini.cell
	for k, v := range ini.sub {
		if st.cells[k] == nil {
			st.cells[k] = v
		}
	}
	for _, f := range ini.facts {
		st.assume(f)
	}
	x.assumeTypeInv(st, p.Cell, p.Ref)
	return ini.cell
}

type initCell struct {
	cell  *Cell
	facts []*Term
	sub   map[int]*Cell
	ptr   *PtrV
}

func (x *Exec) view(st *State, s *SliceV) *Term {
	c := st.cells[s.Cell]
	if c == nil {
		panic(unsupported("slice of unknown array"))
	}
	t, ok := c.Content.(*Term)
	if !ok {
		panic(unsupported("slice of structured array"))
	}
	return SubSeq(t, s.Off, Add(s.Off, s.Len))
}

func (x *Exec) load(st *State, p *PtrV) Val {
	c := x.ensure(st, p)
	v := c.Content
	t := c.Elem
	return x.getPath(st, v, t, p.Path, p)
}

func (x *Exec) getPath(st *State, v Val, t types.Type, path []PathEl, p *PtrV) Val {
	for i, e := range path {
		switch a := v.(type) {
		case *StructV:
			v = a.F[e.Field]
			t = a.T.Field(e.Field).Type()
		case *Term:
			if e.Index != nil {
				v = At(a, e.Index)
				t = elemType(t)
				if i == len(path)-1 {
					return x.decode(st, v.(*Term), t, p.Cell)
				}
			} else {
				v = Sel(a, e.Field)
				t = t.Underlying().(*types.Struct).Field(e.Field).Type()
				if i == len(path)-1 {
					return x.decode(st, v.(*Term), t, p.Cell)
				}
			}
		default:
			panic(unsupported(fmt.Sprintf("path into %T", v)))
		}
	}
	return v
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return t
}

func (x *Exec) store(st *State, p *PtrV, v Val) {
	c := x.ensure(st, p)
	n := c.clone()
	st.cells[p.Cell] = n
	n.Content = x.setPath(st, c.Content, c.Elem, p.Path, v, n)
	st.cells[p.Cell] = n
}

func (x *Exec) setPath(st *State, old Val, t types.Type, path []PathEl, v Val, into *Cell) Val {
	if len(path) == 0 {
		if o, ok := old.(*Term); ok {
			if nt, ok := v.(*Term); ok {
				return nt
			}
			if o.Sort.Kind == KStruct || o.Sort.Kind == KSeq || o.Sort == SRef {
				return x.encode(st, v, t, into)
			}
		}
		return v
	}
	e := path[0]
	switch a := old.(type) {
	case *StructV:
		n := &StructV{T: a.T, N: a.N, F: append([]Val{}, a.F...)}
		n.F[e.Field] = x.setPath(st, a.F[e.Field], a.T.Field(e.Field).Type(), path[1:], v, into)
		return n
	case *Term:
		if e.Index != nil {
			et := elemType(t)
			cur := At(a, e.Index)
			nv := x.setPathT(st, cur, et, path[1:], v, into)
			return Upd(a, e.Index, nv)
		}
		return x.setPathT(st, a, t, path, v, into)
	}
	panic(unsupported(fmt.Sprintf("store into %T", old)))
}

func (x *Exec) setPathT(st *State, cur *Term, t types.Type, path []PathEl, v Val, into *Cell) *Term {
	if len(path) == 0 {
		return x.encode(st, v, t, into)
	}
	e := path[0]
	if e.Index != nil {
		return Upd(cur, e.Index, x.setPathT(st, At(cur, e.Index), elemType(t), path[1:], v, into))
	}
	var as []*Term
	u := t.Underlying().(*types.Struct)
	for i := range cur.Sort.Fields {
		f := Sel(cur, i)
		if i == e.Field {
			f = x.setPathT(st, f, u.Field(i).Type(), path[1:], v, into)
		}
		as = append(as, f)
	}
	return Mk(cur.Sort, as...)
}

type unsup string

func unsupported(s string) unsup { return unsup(s) }

// ---------------------------------------------------------------- equality of values

func (x *Exec) eqVal(st *State, a, b Val) *Term {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			return Eq(p, q)
		}
	case *StructV:
		if q, ok := b.(*StructV); ok {
			var cs []*Term
			for i := range p.F {
				cs = append(cs, x.eqVal(st, p.F[i], q.F[i]))
			}
			return And(cs...)
		}
	case *SliceV:
		if q, ok := b.(*SliceV); ok {
			if q.Null == True {
				return p.Null
			}
			if p.Null == True {
				return q.Null
			}
		}
	case *PtrV:
		if q, ok := b.(*PtrV); ok {
			return x.eqPtr(p, q)
		}
	case *IfaceV:
		if q, ok := b.(*IfaceV); ok {
			return Eq(p.Ref, q.Ref)
		}
	case *FuncV:
		if q, ok := b.(*FuncV); ok {
			return Eq(p.Ref, q.Ref)
		}
	case *ChanV:
		if q, ok := b.(*ChanV); ok {
			return Eq(p.Ref, q.Ref)
		}
	case *MapV:
		if q, ok := b.(*MapV); ok {
			return Eq(p.Ref, q.Ref)
		}
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", a, b)))
}

func (x *Exec) eqPtr(p, q *PtrV) *Term {
	if len(p.Path) > 0 && q.Ref == Null || len(q.Path) > 0 && p.Ref == Null {
		return False
	}
	if p.Cell == q.Cell && p.Cell != 0 && len(p.Path) == len(q.Path) {
		same := true
		for i := range p.Path {
			if p.Path[i] != q.Path[i] {
				same = false
			}
		}
		if same {
			return True
		}
	}
	return Eq(p.Ref, q.Ref)
}

func hasBound(t *Term) bool {
	if t.Op == OBound {
		return true
	}
	for _, a := range t.Args {
		if hasBound(a) {
			return true
		}
	}
	return false
}
