package main

import (
	"math/big"
	"strconv"
	"strings"
)

// Library functions applied to literals are computed.

func init() {
	lits := func(a []*Term) bool {
		for _, t := range a {
			if t.Op != OLit {
				return false
			}
		}
		return true
	}
	str1 := func(f func(string) string) func([]*Term) *Term {
		return func(a []*Term) *Term {
			if len(a) == 1 && lits(a) {
				return Lit(f(a[0].Name))
			}
			return nil
		}
	}
	appFold["toupper"] = str1(strings.ToUpper)
	appFold["tolower"] = str1(strings.ToLower)
	appFold["trimspace"] = str1(strings.TrimSpace)
	appFold["trimset"] = func(a []*Term) *Term {
		if len(a) == 2 && lits(a) {
			return Lit(strings.Trim(a[0].Name, a[1].Name))
		}
		return nil
	}
	appFold["replaceall"] = func(a []*Term) *Term {
		if len(a) == 3 && lits(a) {
			return Lit(strings.Replace(a[0].Name, a[1].Name, a[2].Name, -1))
		}
		return nil
	}
	// a one byte pattern is a byte search
	appFold["sindex"] = func(a []*Term) *Term {
		if len(a) == 2 && lits(a) {
			return I(int64(strings.Index(a[0].Name, a[1].Name)))
		}
		if len(a) == 2 && a[1].Op == OLit && len(a[1].Name) == 1 {
			return App("ichar", SInt, a[0], I(int64(a[1].Name[0])))
		}
		return nil
	}
	appFold["ichar"] = func(a []*Term) *Term {
		if len(a) == 2 && a[0].Op == OLit && a[1].Op == OInt && a[1].I.Cmp(big.NewInt(256)) < 0 && a[1].I.Sign() >= 0 {
			return I(int64(strings.IndexByte(a[0].Name, byte(a[1].I.Int64()))))
		}
		return nil
	}
	appFold["itoa"] = func(a []*Term) *Term {
		if len(a) == 1 && a[0].Op == OInt {
			return Lit(a[0].I.String())
		}
		return nil
	}
	appFold["atoi"] = func(a []*Term) *Term {
		if len(a) == 1 && lits(a) {
			n, _ := strconv.Atoi(a[0].Name)
			return I(int64(n))
		}
		return nil
	}
	appFold["atoi_ok"] = func(a []*Term) *Term {
		if len(a) == 1 && lits(a) {
			if _, err := strconv.Atoi(a[0].Name); err != nil {
				return False
			}
			return True
		}
		return nil
	}
}
