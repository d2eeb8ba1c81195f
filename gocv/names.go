package main

import (
	"bufio"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// A loop invariant names local variables. So that renaming one does not lose the invariant, contracts/locals.txt keeps
// the local variables (and parameters) each function had when its contract was written, in order; a name that is gone
// stands for the first new variable of the same type in the same order. A wrong guess can only make a proof fail:
// invariants are proved wherever they are used.

var aliasMu sync.Mutex

type localName struct{ name, typ string }

func localsOf(fn *ssa.Function) []localName {
	var as []*ssa.Alloc
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Pos().IsValid() && isIdent(a.Comment) {
				as = append(as, a)
			}
		}
	}
	sort.SliceStable(as, func(i, j int) bool { return as[i].Pos() < as[j].Pos() })
	var r []localName
	for _, a := range as {
		t := types.TypeString(a.Type().Underlying().(*types.Pointer).Elem(), func(p *types.Package) string { return p.Name() })
		n := 0
		for _, u := range *a.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == a {
				n++
			}
		}
		if n > 1 {
			t = "~" + t // assigned again
		}
		r = append(r, localName{a.Comment, t})
	}
	return r
}

func isIdent(s string) bool {
	if s == "" || s == "complit" || s == "new" || s == "varargs" || s == "makeslice" || s == "slicelit" {
		return false
	}
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func (p *Program) listLocals() {
	var ns []string
	for n := range p.byName {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		s := fmt.Sprintf("%s\t%d", n, len(p.loopsOf(p.byName[n]).list))
		for _, l := range localsOf(p.byName[n]) {
			s += "\t" + l.name + " " + l.typ
		}
		fmt.Println(s)
	}
}

func (p *Program) readNames(file string) {
	p.names = map[string][]localName{}
	p.aliases = map[*ssa.Function]map[string]string{}
	p.nloops = map[string]int{}
	p.moved = map[*ssa.Function]map[movedKey]int{}
	f, err := os.Open(file)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		w := strings.Split(sc.Text(), "\t")
		if len(w) < 2 {
			continue
		}
		p.nloops[w[0]], _ = strconv.Atoi(w[1])
		p.names[w[0]] = []localName{}
		for _, l := range w[2:] {
			if k := strings.IndexByte(l, ' '); k > 0 {
				p.names[w[0]] = append(p.names[w[0]], localName{l[:k], l[k+1:]})
			}
		}
	}
}

// renamed gives the variable a name of the contract seems to stand for now.
func (p *Program) renamed(fn, root *ssa.Function, name string) string {
	was := p.names[shortFn(fn)]
	if was == nil && root != nil && root != fn {
		// a function extracted since: what its root has lost
		for _, x := range p.names[shortFn(root)] {
			gone := true
			for _, y := range localsOf(root) {
				gone = gone && (y.name != x.name || x.typ[0] == '~' && y.typ[0] != '~')
			}
			if gone {
				was = append(was, x)
			}
		}
	}
	if was == nil {
		return ""
	}
	aliasMu.Lock()
	defer aliasMu.Unlock()
	m, ok := p.aliases[fn]
	if !ok {
		m = map[string]string{}
		now := localsOf(fn)
		has := func(l []localName, n string) bool {
			for _, x := range l {
				if x.name == n {
					return true
				}
			}
			return false
		}
		used := make([]bool, len(now))
		done := make([]bool, len(was))
		same := func(x, y localName) bool { return strings.TrimPrefix(x.typ, "~") == strings.TrimPrefix(y.typ, "~") }
		give := func(i, j int) {
			done[i], used[j] = true, true
			if !has(now, was[i].name) && m[was[i].name] == "" {
				m[was[i].name] = now[j].name
			}
		}
		// what both have, in order (longest common subsequence); then, between two of these, what replaced what
		L := make([][]int, len(was)+1)
		for i := range L {
			L[i] = make([]int, len(now)+1)
		}
		eq := func(i, j int) bool { return was[i].name == now[j].name && same(was[i], now[j]) }
		for i := len(was) - 1; i >= 0; i-- {
			for j := len(now) - 1; j >= 0; j-- {
				L[i][j] = max(L[i+1][j], L[i][j+1])
				if eq(i, j) {
					L[i][j] = max(L[i][j], L[i+1][j+1]+1)
				}
			}
		}
		gap := func(i0, i1, j0, j1 int) {
			for _, exact := range []bool{true, false} {
				for i := i0; i < i1; i++ {
					for j := j0; j < j1 && !done[i]; j++ {
						if !used[j] && !has(was, now[j].name) && (was[i].typ == now[j].typ || !exact && same(was[i], now[j])) {
							give(i, j)
						}
					}
				}
			}
		}
		i, j, i0, j0 := 0, 0, 0, 0
		for i < len(was) && j < len(now) {
			switch {
			case eq(i, j):
				done[i], used[j] = true, true
				gap(i0, i, j0, j)
				i, j = i+1, j+1
				i0, j0 = i, j
			case L[i+1][j] >= L[i][j+1]:
				i++
			default:
				j++
			}
		}
		gap(i0, len(was), j0, len(now))
		var fresh []localName
		for j, x := range now {
			if !used[j] && !has(was, x.name) {
				fresh = append(fresh, x)
			}
		}
		for _, exact := range []bool{true, false} {
			for _, x := range was {
				if has(now, x.name) || m[x.name] != "" {
					continue
				}
				for k, y := range fresh {
					if y.typ == x.typ || !exact && strings.TrimPrefix(y.typ, "~") == strings.TrimPrefix(x.typ, "~") {
						m[x.name] = y.name
						fresh = append(fresh[:k:k], fresh[k+1:]...)
						break
					}
				}
			}
		}
		p.aliases[fn] = m
	}
	return m[name]
}

// movedLoops numbers the loops of a function some of whose loops were moved to functions extracted since its contract
// was written, in the order of the text with the extracted functions put in place; nil when nothing was moved.
func (p *Program) movedLoops(root *ssa.Function) map[movedKey]int {
	was, ok := p.nloops[shortFn(root)]
	if !ok || len(p.loopsOf(root).list) >= was {
		return nil
	}
	aliasMu.Lock()
	defer aliasMu.Unlock()
	if m, ok := p.moved[root]; ok {
		return m
	}
	var order []movedKey
	under := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function, path string)
	walk = func(fn *ssa.Function, path string) {
		if under[fn] || len(order) > 50 {
			return
		}
		under[fn] = true
		defer delete(under, fn)
		type item struct {
			pos  token.Pos
			head *ssa.BasicBlock
			fn   *ssa.Function
		}
		var is []item
		for _, l := range p.loopsOf(fn).list {
			is = append(is, item{l.pos, l.head, nil})
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || p.byName[shortFn(g)] != g {
					continue
				}
				if _, old := p.nloops[shortFn(g)]; !old {
					is = append(is, item{in.Pos(), nil, g})
				}
			}
		}
		sort.SliceStable(is, func(i, j int) bool {
			if is[i].pos != is[j].pos {
				return is[i].pos < is[j].pos
			}
			return is[i].head != nil && is[j].head == nil
		})
		for _, i := range is {
			if i.head != nil {
				order = append(order, movedKey{path, i.head})
			} else {
				walk(i.fn, fmt.Sprintf("%s/%d", path, i.pos))
			}
		}
	}
	walk(root, "")
	var m map[movedKey]int
	if len(order) == was {
		m = map[movedKey]int{}
		for k, h := range order {
			m[h] = k + 1
		}
	}
	p.moved[root] = m
	return m
}

// movedKey names a loop by the calls that lead to it and its head.
type movedKey struct {
	path string
	head *ssa.BasicBlock
}

func callPath(fr *Frame) string {
	s := ""
	for ; fr.caller != nil; fr = fr.caller {
		if c, ok := fr.call.(ssa.Instruction); ok && c != nil {
			s = fmt.Sprintf("/%d", c.Pos()) + s
		}
	}
	return s
}
