package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	repo    string
	names   map[string][]localName
	aliases map[*ssa.Function]map[string]string
	nloops  map[string]int
	moved   map[*ssa.Function]map[movedKey]int
	prog    *ssa.Program
	pkgs    []*ssa.Package
	byName  map[string]*ssa.Function // short name -> function of the repository
	repoP   map[*types.Package]bool
	loops   map[*ssa.Function]*loopInfo
	sp      *Specs
	stored  map[*ssa.Global]bool // globals written outside init
	impls   map[string][]*implM  // interface method name -> implementations
	errs    []string
	tnames  map[string]types.Type
	ifaceOf map[*ssa.Function][]ifaceRef
	edges   map[*ssa.Function]map[*ssa.Function]bool
	reach   map[*ssa.Function]map[*ssa.Function]bool
	ginits  map[*ssa.Global]*ginit
}

type implM struct {
	fn *ssa.Function
	t  types.Type
}

func shortFn(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return shortPkg(fn.String())
}

func loadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:   repo,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local"),
		Tests: false,
	}
	ps, err := packages.Load(cfg, ".", "./sdp", "./tcpnetwork")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e.Msg)
		}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.NaiveForm)
	p := &Program{repo: repo, prog: prog, byName: map[string]*ssa.Function{}, repoP: map[*types.Package]bool{}, loops: map[*ssa.Function]*loopInfo{}, stored: map[*ssa.Global]bool{}, impls: map[string][]*implM{}, tnames: map[string]types.Type{}}
	for _, pk := range pkgs {
		if pk == nil {
			return nil, fmt.Errorf("no ssa package")
		}
		pk.Build()
		p.pkgs = append(p.pkgs, pk)
		p.repoP[pk.Pkg] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && p.repoP[fn.Pkg.Pkg] && fn.Synthetic == "" {
			p.byName[shortFn(fn)] = fn
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g := globalOf(s.Addr); g != nil {
							p.stored[g] = true
						}
					}
				}
			}
		}
	}
	// a global whose address escapes to a call counts as stored
	for _, pk := range p.pkgs {
		for name, m := range pk.Members {
			switch t := m.(type) {
			case *ssa.Type:
				p.tnames[shortPkg(pk.Pkg.Path())+"."+name] = t.Type()
				// methods
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							p.byName[shortFn(f)] = f
						}
					}
				}
			}
		}
	}
	// implementations of the repository's interfaces
	for _, pk := range p.pkgs {
		for name, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			it, ok := t.Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			iname := shortPkg(pk.Pkg.Path()) + "." + name
			for _, pk2 := range p.pkgs {
				for _, m2 := range pk2.Members {
					t2, ok := m2.(*ssa.Type)
					if !ok || types.IsInterface(t2.Type()) {
						continue
					}
					for _, tt := range []types.Type{t2.Type(), types.NewPointer(t2.Type())} {
						if !types.Implements(tt, it) {
							continue
						}
						for i := 0; i < it.NumMethods(); i++ {
							mn := it.Method(i).Name()
							sel := prog.MethodSets.MethodSet(tt).Lookup(it.Method(i).Pkg(), mn)
							if sel == nil {
								continue
							}
							f := prog.MethodValue(sel)
							if f == nil || f.Synthetic != "" {
								continue
							}
							p.impls[iname+"."+mn] = append(p.impls[iname+"."+mn], &implM{f, tt})
						}
						break
					}
				}
			}
		}
	}
	for k := range p.impls {
		l := p.impls[k]
		sort.Slice(l, func(i, j int) bool { return shortFn(l[i].fn) < shortFn(l[j].fn) })
	}
	return p, nil
}

func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch a := v.(type) {
		case *ssa.Global:
			return a
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return nil
		}
	}
}

func (p *Program) lookupType(n string) types.Type {
	if strings.HasPrefix(n, "*") {
		if t := p.lookupType(n[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(n, "[]") {
		if t := p.lookupType(n[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if t, ok := p.tnames[n]; ok {
		return t
	}
	for _, b := range types.Typ {
		if b.Name() == n {
			return b
		}
	}
	switch n {
	case "byte":
		return types.Typ[types.Uint8]
	case "rune":
		return types.Typ[types.Int32]
	}
	if i := strings.LastIndex(n, "."); i >= 0 {
		for _, pk := range p.prog.AllPackages() {
			if shortPkg(pk.Pkg.Path()) == n[:i] {
				if o := pk.Pkg.Scope().Lookup(n[i+1:]); o != nil {
					return o.Type()
				}
			}
		}
	}
	return nil
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	ps := p.prog.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

// ---------------------------------------------------------------- loops

type loopT struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	index int // 1-based, source order
	pos   token.Pos
}
type loopInfo struct {
	byHead map[*ssa.BasicBlock]*loopT
	list   []*loopT
}

func (p *Program) loopsOf(fn *ssa.Function) *loopInfo {
	progMu.Lock()
	defer progMu.Unlock()
	if li, ok := p.loops[fn]; ok {
		return li
	}
	li := &loopInfo{byHead: map[*ssa.BasicBlock]*loopT{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHead[s]
				if l == nil {
					l = &loopT{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHead[s] = l
					li.list = append(li.list, l)
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, q := range x.Preds {
						add(q)
					}
				}
				add(b)
			}
		}
	}
	for _, l := range li.list {
		l.pos = token.Pos(1 << 60)
		for b := range l.body {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() && in.Pos() < l.pos {
					l.pos = in.Pos()
				}
			}
		}
	}
	sort.SliceStable(li.list, func(i, j int) bool {
		if li.list[i].pos != li.list[j].pos {
			return li.list[i].pos < li.list[j].pos
		}
		return len(li.list[i].body) > len(li.list[j].body)
	})
	for i, l := range li.list {
		l.index = i + 1
	}
	p.loops[fn] = li
	return li
}
