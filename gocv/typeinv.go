package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- type invariants
//
// "typeinv pkg.T(p): e" states e of every T object p points to, whenever a function under contract is entered or left
// (and before anything else is called by contract). It is assumed of objects reached through unknown pointers and of
// what calls return or change; it is proved of every object that was created or changed.

func (x *Exec) typeInvOf(t types.Type) *TypeInv {
	if t == nil || x.sp == nil || len(x.sp.TypeInvs) == 0 {
		return nil
	}
	if _, ok := t.(*types.Named); !ok {
		return nil
	}
	ti := x.sp.TypeInvs[typeName(t)]
	if ti == nil || !inView(ti.Tags, x.prop) {
		return nil
	}
	return ti
}

func (x *Exec) typeInv(st *State, id int, ref *Term, ti *TypeInv, f func(*Term, *Node)) {
	c := st.cells[id]
	pt := types.NewPointer(c.Elem)
	p := &PtrV{T: c.Elem, Ref: ref, Cell: id}
	ec := &evalCtx{sp: x.sp, x: x, st: st, vars: map[string]Val{ti.Var: p}, types: map[string]types.Type{ti.Var: pt}}
	conjuncts(ti.E, func(n *Node) { f(ec.bool(n), n) })
}

func (x *Exec) assumeTypeInv(st *State, id int, ref *Term) {
	c := st.cells[id]
	if c == nil || x.inInit {
		return
	}
	ti := x.typeInvOf(c.Elem)
	if ti == nil {
		return
	}
	nn := True
	if ref != nil {
		nn = Not(Eq(ref, Null))
	}
	x.typeInv(st, id, ref, ti, func(t *Term, _ *Node) { st.assume(Imp(nn, t)) })
}

// checkTypeInvs proves the invariants of the objects that were created or changed.
func (x *Exec) checkTypeInvs(st *State, where string, pos token.Pos) {
	if x.dry > 0 || len(x.sp.TypeInvs) == 0 {
		return
	}
	var ids []int
	for id, c := range st.cells {
		if c == nil || x.typeInvOf(c.Elem) == nil {
			continue
		}
		if x.unchanged(st, id) {
			continue
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		ti := x.typeInvOf(st.cells[id].Elem)
		k := 0
		x.typeInv(st, id, V("self", SRef), ti, func(t *Term, n *Node) {
			k++
			x.oblige(st, "inv", fmt.Sprintf("type invariant %d of %s %s", k, ti.Type, where), t, pos)
		})
	}
}

// unchanged: the object and the maps and arrays its fields hold are those it had on entry.
func (x *Exec) unchanged(st *State, id int) bool {
	c := st.cells[id]
	var b *Cell
	var sub map[int]*Cell
	if x.entry != nil {
		b, sub = x.entry.cells[id], x.entry.cells
	}
	if b == nil {
		x.initMu.Lock()
		if ini := x.initCells[id]; ini != nil {
			b, sub = ini.cell, ini.sub
		}
		x.initMu.Unlock()
	}
	if b == nil || b != c && b.Content != c.Content {
		return false
	}
	same := true
	var walk func(v Val)
	walk = func(v Val) {
		switch a := v.(type) {
		case *StructV:
			for _, f := range a.F {
				walk(f)
			}
		case *MapV:
			if sub[a.Cell] != nil && st.cells[a.Cell] != nil && sub[a.Cell].Content != st.cells[a.Cell].Content {
				same = false
			}
		case *SliceV:
			if sub[a.Cell] != nil && st.cells[a.Cell] != nil && sub[a.Cell].Content != st.cells[a.Cell].Content {
				same = false
			}
		}
	}
	walk(c.Content)
	return same
}

// assumeInvOfTargets: what a call changed satisfies its invariant again.
func (x *Exec) assumeInvOfTargets(st *State, tgs []target) {
	if len(x.sp.TypeInvs) == 0 {
		return
	}
	cells := map[int]bool{}
	for _, t := range tgs {
		cells[t.cell] = true
	}
	var ids []int
	for id, c := range st.cells {
		if c == nil || x.typeInvOf(c.Elem) == nil {
			continue
		}
		hit := cells[id]
		if s, ok := c.Content.(*StructV); ok {
			for _, f := range s.F {
				switch a := f.(type) {
				case *MapV:
					hit = hit || cells[a.Cell]
				case *SliceV:
					hit = hit || cells[a.Cell]
				}
			}
		}
		if hit {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		x.assumeTypeInv(st, id, nil)
	}
}

// writers of the fields of a type with an invariant.
func (p *Program) writersOf(tn string) []string {
	seen := map[string]bool{}
	is := func(t types.Type) bool {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		_, named := t.(*types.Named)
		return named && typeName(t) == tn
	}
	var fieldOf func(v ssa.Value) bool
	fieldOf = func(v ssa.Value) bool {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			return is(a.X.Type())
		case *ssa.UnOp:
			return fieldOf(a.X)
		case *ssa.IndexAddr:
			return fieldOf(a.X)
		}
		return false
	}
	for f := range p.edges {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				hit := false
				switch i := in.(type) {
				case *ssa.Store:
					hit = fieldOf(i.Addr) || is(i.Addr.Type()) && is(i.Val.Type())
				case *ssa.MapUpdate:
					hit = fieldOf(i.Map)
				case *ssa.Alloc:
					hit = is(i.Type())
				}
				if hit {
					n := f
					for n.Parent() != nil {
						n = n.Parent()
					}
					if n.Synthetic == "" {
						seen[shortFn(n)] = true
					}
				}
			}
		}
	}
	return sortedKeys(seen)
}

func typeInvNames(sp *Specs) []string {
	var r []string
	for n := range sp.TypeInvs {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}
