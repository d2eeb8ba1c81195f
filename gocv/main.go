package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func loadSpecs(dir string, p *Program) (*Specs, error) {
	sp := &Specs{Contracts: map[string]*Contract{}, Ghosts: map[string]*GhostDecl{}, MacroDefs: map[string]*SpecDef{}, Consts: map[string]*Node{}, TypeInvs: map[string]*TypeInv{}}
	theProg = p
	goTypeSort = func(n string) *Sort {
		if t := p.lookupType(n); t != nil {
			return sortOf(t)
		}
		return nil
	}
	p.readNames(filepath.Join(dir, "locals.txt"))
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
	}
	p.sp = sp
	return sp, nil
}

func main() {
	var (
		repo = flag.String("repo", "/repo", "repository")
		dir  = flag.String("contracts", "/verif/contracts", "contract files")
		prop = flag.String("prop", "", "property")
		only = flag.String("func", "", "only this function")
		tmo  = flag.Int("timeout", 10, "seconds per solver call")
		verb = flag.Bool("v", false, "list obligations")
		maxF = flag.Int("maxfail", 0, "stop after this many failures")
		out  = flag.String("out", "", "report file (json)")
		list = flag.Bool("list", false, "list functions")
		locs = flag.Bool("locals", false, "list the local variables of every function with a loop")
	)
	flag.Parse()
	p, err := loadProgram(*repo)
	if err != nil {
		fmt.Println("LOAD-ERROR", err)
		os.Exit(3)
	}
	if *locs {
		p.listLocals()
		return
	}
	if *list {
		var ns []string
		for n := range p.byName {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println(n, len(p.loopsOf(p.byName[n]).list))
		}
		return
	}
	if _, err := loadSpecs(*dir, p); err != nil {
		fmt.Println("SPEC-ERROR", err)
		os.Exit(4)
	}
	p.prepare()
	rep := p.verifyProp(*prop, *only, time.Duration(*tmo)*time.Second, *maxF)
	if *out != "" {
		writeReport(*out, rep)
	}
	for _, f := range rep.Funcs {
		ok, bad := 0, 0
		for _, o := range f.Obls {
			if o.Res.Proved {
				ok++
			} else {
				bad++
			}
		}
		fmt.Printf("%-45s %4d proved %3d failed  paths %d returns %d  %.1fs\n", f.Name, ok, bad, f.Paths, f.Returns, f.Time.Seconds())
		for _, n := range f.Notes {
			fmt.Println("   note:", n)
		}
		if *verb {
			for _, o := range f.Obls {
				if o.Res.Proved && os.Getenv("GOCV_ALL") == "" {
					continue
				}
				fmt.Printf("   %v [%s] %s (%s) %s %.2fs\n", o.Res.Proved, o.Kind, o.Name, o.Pos, o.Res.Backend, o.Res.Time.Seconds())
			}
		}
	}
	if *verb {
		for _, o := range rep.Lemmas {
			if o.Res.Time > time.Second {
				fmt.Printf("   lemma %s: %s %.2fs\n", o.Name, o.Res.Backend, o.Res.Time.Seconds())
			}
		}
	}
	for _, o := range rep.Failed {
		fmt.Printf("FAILED %s [%s] %s (%s): %s\n", o.Func, o.Kind, o.Name, o.Pos, firstLine(o.Res.Backend+" "+o.Res.Output))
		if *verb {
			fmt.Println("   trail:", strings.Join(o.Trail, " "))
			fmt.Println("   goal:", o.Goal)
		}
	}
	fmt.Printf("property %s: %d obligations, %d failed, %.1fs %v\n", *prop, rep.Total, len(rep.Failed), rep.Time.Seconds(), rep.ByBack)
	if len(rep.Failed) > 0 {
		os.Exit(1)
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var _ types.Type

var theProg *Program
