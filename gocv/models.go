package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- models of library functions that need more than a contract

// variadic returns the values of the ...interface{} argument.
func (x *Exec) variadic(st *State, v Val) ([]Val, bool) {
	s, ok := v.(*SliceV)
	if !ok || s.Len.Op != OInt {
		return nil, false
	}
	t := x.view(st, s)
	var r []Val
	for i := int64(0); i < s.Len.I.Int64(); i++ {
		r = append(r, x.decode(st, At(t, I(i)), s.T.Elem(), s.Cell))
	}
	return r, true
}

// plain strips named types so that a value can be printed.
func (x *Exec) fmtArg(st *State, verb string, v Val) *Term {
	i, ok := v.(*IfaceV)
	if !ok {
		return nil
	}
	if i.Dyn == nil {
		return App("fmt"+verb, SBytes, i.Ref)
	}
	ms := x.prog.prog.MethodSets.MethodSet(i.Dyn)
	hasM := func(n string) bool {
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == n {
				return true
			}
		}
		return false
	}
	switch a := i.Val.(type) {
	case *Term:
		switch {
		case hasM("Error") || hasM("String") || hasM("Format"):
			return App("fmt"+verb, SBytes, i.Ref)
		case a.Sort == SInt:
			switch verb {
			case "%d", "%v":
				return App("itoa", SBytes, a)
			case "%c":
				if bd, hi := bounds(a); bd != nil && hi != nil && bd.Sign() >= 0 && hi.Int64() < 128 {
					return Unit(SBytes, a)
				}
				return App("utf8enc", SBytes, a)
			}
			return App("fmtint"+verb, SBytes, a)
		case a.Sort == SBytes:
			switch verb {
			case "%s", "%v":
				return a
			case "%x":
				return App("hexenc", SBytes, a)
			}
			return App("fmtstr"+verb, SBytes, a)
		case a.Sort.Name == "Float" && verb == "%f":
			return App("ftext", SBytes, a)
		case a.Sort == SBool:
			if verb == "%v" || verb == "%t" {
				return Ite(a, Lit("true"), Lit("false"))
			}
		case a.Sort.Kind == KSeq && a.Sort.Byte:
			if verb == "%x" {
				return App("hexenc", SBytes, a)
			}
		}
		return App("fmtval"+verb+typeName(i.Dyn), SBytes, a)
	case *SliceV:
		if isByte(a.T.Elem()) && !hasM("String") && !hasM("Error") {
			switch verb {
			case "%s":
				return x.view(st, a)
			case "%x":
				return App("hexenc", SBytes, x.view(st, a))
			}
		}
		return App("fmtslice"+verb+typeName(i.Dyn), SBytes, x.view(st, a))
	}
	return App("fmt"+verb, SBytes, i.Ref)
}

// sprintf expands a constant format.
func (x *Exec) sprintf(st *State, format *Term, args []Val) *Term {
	if format.Op != OLit {
		panic(unsupported("format is not constant"))
	}
	f := format.Name
	var parts []*Term
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, Lit(f[i:]))
			break
		}
		if j > 0 {
			parts = append(parts, Lit(f[i:i+j]))
		}
		i += j + 1
		k := i
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			parts = append(parts, Lit("%!(NOVERB)"))
			break
		}
		if f[k] == '%' {
			parts = append(parts, Lit("%"))
			i = k + 1
			continue
		}
		verb := "%" + f[i:k+1]
		i = k + 1
		if ai >= len(args) {
			parts = append(parts, Lit("%!"+verb[1:]+"(MISSING)"))
			continue
		}
		parts = append(parts, x.fmtArg(st, verb, args[ai]))
		ai++
	}
	if ai < len(args) {
		parts = append(parts, App("fmtextra", SBytes, I(int64(len(args)-ai))))
	}
	return Cat(SBytes, parts...)
}

func fieldNamed(s *StructV, n string) int {
	for i := 0; i < s.T.NumFields(); i++ {
		if s.T.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

// bufAppend appends to the buffer kept in the structure p points to.
func (x *Exec) bufAppend(st *State, p *PtrV, t *Term, pos token.Pos) {
	x.nilCheck(st, p, pos)
	s, ok := x.load(st, p).(*StructV)
	if !ok {
		panic(unsupported("buffer"))
	}
	k := fieldNamed(s, "buf")
	sl := s.F[k].(*SliceV)
	np := &PtrV{T: sl.T, Cell: p.Cell, Ref: p.Ref, Path: append(p.Path[:len(p.Path):len(p.Path)], PathEl{Field: k})}
	x.store(st, np, x.appendTo(st, sl, t, nil, pos))
}

func (x *Exec) bufView(st *State, p *PtrV, pos token.Pos) *Term {
	x.nilCheck(st, p, pos)
	s := x.load(st, p).(*StructV)
	v := x.view(st, s.F[fieldNamed(s, "buf")].(*SliceV))
	if k := fieldNamed(s, "off"); k >= 0 {
		v = SubSeq(v, s.F[k].(*Term), Len(v))
	}
	return v
}

func asBytes(x *Exec, st *State, v Val) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *SliceV:
		return x.view(st, a)
	}
	panic(unsupported("bytes"))
}

func (x *Exec) newBytes(st *State, t *Term, ty *types.Slice) *SliceV {
	id := newCellID()
	st.cells[id] = &Cell{Content: t, Elem: ty, Name: "bytes"}
	cp := FreshV("cap", SInt)
	st.assume(Le(Len(t), cp))
	return &SliceV{T: ty, Cell: id, Off: I(0), Len: Len(t), Cap: cp, Null: False}
}

func (x *Exec) freshErr(st *State, name string) *IfaceV {
	r := freshRef(name, false)
	st.assume(Not(Eq(r, Null)))
	return &IfaceV{Ref: r}
}

// model executes a call itself; false: there is no model.
func (x *Exec) model(st *State, name string, c *ssa.CallCommon, fn *ssa.Function, args []Val, v ssa.Value, pos token.Pos) bool {
	ret := func(res ...Val) bool {
		setRes(x, st, v, fn.Signature, res)
		return true
	}
	nilErr := &IfaceV{Ref: Null}
	switch name {
	case "fmt.Sprintf":
		va, ok := x.variadic(st, args[1])
		if !ok {
			return false
		}
		return ret(x.sprintf(st, args[0].(*Term), va))
	case "fmt.Sprint":
		va, ok := x.variadic(st, args[0])
		if !ok || len(va) != 1 {
			return false
		}
		return ret(x.fmtArg(st, "%v", va[0]))
	case "fmt.Errorf":
		return ret(x.freshErr(st, "errorf"))
	case "fmt.Sscanf":
		va, ok := x.variadic(st, args[2])
		f, isT := args[1].(*Term)
		if !ok || !isT || f.Op != OLit {
			return false
		}
		str := args[0].(*Term)
		for k, a := range va {
			i, ok := a.(*IfaceV)
			if !ok || i.Dyn == nil {
				return false
			}
			p, ok := i.Val.(*PtrV)
			if !ok {
				return false
			}
			old, ok := x.load(st, p).(*Term)
			if !ok {
				return false
			}
			fnm := "sscan_str"
			if old.Sort == SInt {
				fnm = "sscan_int"
			} else if old.Sort != SBytes {
				return false
			}
			r := App(fnm, old.Sort, f, str, I(int64(k)), old)
			x.rangeFact(st, r, p.T)
			x.store(st, p, r)
		}
		n := FreshV("sscanf.n", SInt)
		return ret(n, &IfaceV{Ref: freshRef("sscanf.err", false)})
	case "log.Print", "log.Printf", "log.Println", "fmt.Println", "fmt.Printf", "fmt.Print":
		if fn.Signature.Results().Len() > 0 {
			return ret(FreshV("n", SInt), nilErr)
		}
		return true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf", "log.Panicln":
		x.oblige(st, "safety", x.pname("process exit reachable", nil, pos), False, pos)
		st.closed = true
		return true
	case "binary.Read":
		i, ok := args[2].(*IfaceV)
		if !ok || i.Dyn == nil {
			return false
		}
		p, ok := i.Val.(*PtrV)
		if !ok {
			return false
		}
		x.nilCheck(st, p, pos)
		e := freshRef("binread.err", false)
		n := int64(0)
		if bt, ok := p.T.Underlying().(*types.Basic); ok {
			switch bt.Kind() {
			case types.Uint8:
				n = 1
			case types.Uint16:
				n = 2
			case types.Uint32:
				n = 4
			}
		}
		rd, ok1 := args[0].(*IfaceV)
		od, ok2 := args[1].(*IfaceV)
		if n == 0 || !ok1 || !ok2 || rd.Dyn == nil || od.Dyn == nil || typeName(rd.Dyn) != "*bytes.Reader" {
			x.store(st, p, x.symbolic(st, p.T, "binread", false))
			return ret(&IfaceV{Ref: e})
		}
		rp := rd.Val.(*PtrV)
		x.nilCheck(st, rp, pos)
		rs := x.load(st, rp).(*StructV)
		b := x.view(st, rs.F[fieldNamed(rs, "s")].(*SliceV))
		ix := rs.F[fieldNamed(rs, "i")].(*Term)
		okc := Le(AddC(ix, n), Len(b))
		val := I(0)
		for k := int64(0); k < n; k++ {
			j := k
			if typeName(od.Dyn) == "binary.littleEndian" {
				j = n - 1 - k
			}
			val = Add(MulC(big.NewInt(256), val), At(b, AddC(ix, j)))
		}
		x.store(st, p, Ite(okc, val, x.load(st, p).(*Term)))
		x.store(st, &PtrV{T: types.Typ[types.Int64], Cell: rp.Cell, Ref: rp.Ref, Path: append(rp.Path[:len(rp.Path):len(rp.Path)], PathEl{Field: fieldNamed(rs, "i")})}, Ite(okc, AddC(ix, n), Len(b)))
		st.assume(Eq(Eq(e, Null), okc))
		return ret(&IfaceV{Ref: e})
	case "bytes.NewReader":
		et := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		id := newCellID()
		z := x.zero(st, et).(*StructV)
		z.F[fieldNamed(z, "s")] = args[0]
		st.cells[id] = &Cell{Elem: et, Name: "reader", Content: z}
		return ret(&PtrV{T: et, Ref: mkAddr(id, "reader"), Cell: id})
	case "strconv.AppendInt", "strconv.AppendUint":
		if b, ok := args[2].(*Term); !ok || b != I(10) {
			return false
		}
		return ret(x.appendTo(st, args[0].(*SliceV), App("itoa", SBytes, args[1].(*Term)), nil, pos))
	case "utf8.AppendRune":
		return ret(x.appendTo(st, args[0].(*SliceV), App("utf8enc", SBytes, args[1].(*Term)), nil, pos))
	case "strings.Join", "bytes.Join":
		s := args[0].(*SliceV)
		sep := asBytes(x, st, args[1])
		t := x.view(st, s)
		var r *Term
		if s.Len.Op == OInt && s.Len.I.Int64() <= 8 {
			var ps []*Term
			for i := int64(0); i < s.Len.I.Int64(); i++ {
				if i > 0 {
					ps = append(ps, sep)
				}
				ps = append(ps, At(t, I(i)))
			}
			r = Cat(SBytes, ps...)
		} else {
			r = App("strjoin", SBytes, t, sep)
		}
		if name == "bytes.Join" {
			return ret(x.newBytes(st, r, types.NewSlice(types.Typ[types.Byte])))
		}
		return ret(r)
	case "bytes.Clone":
		s := args[0].(*SliceV)
		n := x.newBytes(st, x.view(st, s), s.T)
		n.Null = s.Null
		return ret(n)
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		t := asBytes(x, st, args[1])
		x.bufAppend(st, args[0].(*PtrV), t, pos)
		return ret(Len(t), nilErr)
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		x.bufAppend(st, args[0].(*PtrV), Unit(SBytes, args[1].(*Term)), pos)
		return ret(nilErr)
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		r := args[1].(*Term)
		t := App("utf8enc", SBytes, r)
		if r.Op == OInt && r.I.Int64() < 128 && r.I.Sign() >= 0 {
			t = Unit(SBytes, r)
		}
		x.bufAppend(st, args[0].(*PtrV), t, pos)
		return ret(Len(t), nilErr)
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return ret(x.bufView(st, args[0].(*PtrV), pos))
	case "(*bytes.Buffer).Bytes":
		p := args[0].(*PtrV)
		x.nilCheck(st, p, pos)
		s := x.load(st, p).(*StructV)
		sl := s.F[fieldNamed(s, "buf")].(*SliceV)
		off := s.F[fieldNamed(s, "off")].(*Term)
		return ret(&SliceV{T: sl.T, Cell: sl.Cell, Off: Add(sl.Off, off), Len: Sub2(sl.Len, off), Cap: Sub2(sl.Cap, off), Null: sl.Null})
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return ret(Len(x.bufView(st, args[0].(*PtrV), pos)))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		x.oblige(st, "safety", x.pname("grow", nil, pos), Le(I(0), args[1].(*Term)), pos)
		return true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		p := args[0].(*PtrV)
		x.nilCheck(st, p, pos)
		x.store(st, p, x.zero(st, p.T))
		return true
	case "fmt.Fprintf", "io.WriteString":
		i, ok := args[0].(*IfaceV)
		if !ok || i.Dyn == nil {
			return false
		}
		tn := typeName(i.Dyn)
		if tn != "*strings.Builder" && tn != "*bytes.Buffer" {
			return false
		}
		var t *Term
		if name == "io.WriteString" {
			t = args[1].(*Term)
		} else {
			va, ok := x.variadic(st, args[2])
			if !ok {
				return false
			}
			t = x.sprintf(st, args[1].(*Term), va)
		}
		x.bufAppend(st, i.Val.(*PtrV), t, pos)
		return ret(Len(t), nilErr)
	}
	_ = fmt.Sprint
	return false
}
