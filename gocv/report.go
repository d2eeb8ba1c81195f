package main

import (
	"encoding/json"
	"os"
)

type oblJSON struct {
	Func, Name, Kind, Pos, Backend, Output, Goal string
	Proved                                       bool
	Seconds                                      float64
	Trail                                        []string `json:",omitempty"`
	Hyps                                         []string `json:",omitempty"`
}
type funcJSON struct {
	Name                            string
	Proved, Failed, Paths, Returns  int
	Inlined, Called, Assumed, Notes []string
	Seconds                         float64
}
type reportJSON struct {
	Prop     string
	Total    int
	Proved   int
	Failed   []oblJSON
	Funcs    []funcJSON
	Lemmas   []oblJSON
	Backends map[string]int
	Kinds    map[string]int
	Assumed  []string
	Relied   []string
	Axioms   []string
	Seconds  float64
	Solver   float64
	Calls    int
	AllObls  []string
}

func oblToJSON(o *Obligation) oblJSON {
	r := oblJSON{Func: o.Func, Name: o.Name, Kind: o.Kind, Pos: o.Pos, Backend: o.Res.Backend, Output: o.Res.Output, Proved: o.Res.Proved, Seconds: o.Res.Time.Seconds(), Trail: o.Trail}
	if o.Goal != nil {
		r.Goal = o.Goal.String()
	}
	for i, h := range o.Hyps {
		if i > len(o.Hyps)-40 {
			r.Hyps = append(r.Hyps, h.String())
		}
	}
	return r
}

func writeReport(path string, rep *PropReport) {
	j := reportJSON{Prop: rep.Prop, Total: rep.Total, Backends: rep.ByBack, Assumed: rep.Assumed, Relied: rep.Relied, Axioms: rep.Axioms, Seconds: rep.Time.Seconds(), Kinds: map[string]int{}}
	for _, f := range rep.Funcs {
		fj := funcJSON{Name: f.Name, Paths: f.Paths, Returns: f.Returns, Inlined: f.Inlined, Called: f.Called, Assumed: f.Assumed, Notes: f.Notes, Seconds: f.Time.Seconds()}
		for _, o := range f.Obls {
			if o.Res.Proved {
				fj.Proved++
				j.Kinds[o.Kind]++
			} else {
				fj.Failed++
			}
		}
		j.Funcs = append(j.Funcs, fj)
	}
	for _, o := range rep.Lemmas {
		j.Lemmas = append(j.Lemmas, oblToJSON(o))
	}
	for _, o := range rep.Failed {
		j.Failed = append(j.Failed, oblToJSON(o))
	}
	j.Proved = rep.Total - len(rep.Failed)
	solverStats.Lock()
	j.Solver = solverStats.time.Seconds()
	j.Calls = solverStats.calls
	solverStats.Unlock()
	b, _ := json.MarshalIndent(j, "", " ")
	os.WriteFile(path, b, 0644)
}
