package main

// ---------------------------------------------------------------- reduction of a query
//
// reduce rewrites the hypotheses with each other: facts decide the conditions and disjunctions they occur in, and a
// variable that is equal to a term is replaced by it. The result is contradictory exactly if the query is.

func reduce(hyps []*Term) []*Term {
	var flat func(h *Term, r []*Term) []*Term
	flat = func(h *Term, r []*Term) []*Term {
		h = skolemHyp(h)
		if h.Op == OAnd {
			for _, a := range h.Args {
				r = flat(a, r)
			}
			return r
		}
		if h == True {
			return r
		}
		return append(r, h)
	}
	var hs []*Term
	for _, h := range hyps {
		hs = flat(h, hs)
	}
	var defs []*Term
	for round := 0; round < 12; round++ {
		changed := false
		// variables given by an equation
		for i := 0; i < len(hs); i++ {
			h := hs[i]
			v, t := equation(h)
			if v == nil {
				continue
			}
			m := map[*Term]*Term{v: t}
			memo := map[*Term]*Term{}
			var out []*Term
			for j, g := range hs {
				if j == i {
					continue
				}
				out = flat(subst(g, m, memo), out)
			}
			defs = append(defs, h)
			hs = out
			i = -1
			changed = true
			if len(defs) > 150 {
				break
			}
		}
		// facts
		for i := 0; i < len(hs); i++ {
			h := hs[i]
			if hasQuant(h) || h.Op == OOr || h == False {
				continue
			}
			m := map[*Term]*Term{}
			if h.Op == ONot {
				m[h.Args[0]] = False
			} else {
				m[h] = True
				m[Not(h)] = False
			}
			memo := map[*Term]*Term{}
			for j, g := range hs {
				if j == i || g == h {
					continue
				}
				if ng := subst(g, m, memo); ng != g {
					hs[j] = ng
					changed = true
				}
			}
		}
		var out []*Term
		seen := map[*Term]bool{}
		for _, h := range hs {
			for _, g := range flat(h, nil) {
				if !seen[g] {
					seen[g] = true
					out = append(out, g)
				}
			}
		}
		hs = out
		if !changed {
			break
		}
	}
	return hs
}

func equation(h *Term) (v, t *Term) {
	if h.Op != OEq {
		return nil, nil
	}
	a, b := h.Args[0], h.Args[1]
	if a.Sort == SBool {
		return nil, nil
	}
	if b.Op == OVar && (a.Op != OVar || b.id > a.id) {
		a, b = b, a
	}
	for k := 0; k < 2; k++ {
		if a.Op == OVar && !b.fv && !hasSub(b, a, map[*Term]bool{}) {
			return a, b
		}
		a, b = b, a
	}
	return nil, nil
}
