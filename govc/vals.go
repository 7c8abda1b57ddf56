package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go (or specification) value.
type Val interface{}

type Scalar struct{ T Term } // bool, numbers, strings, interfaces, maps, channels, opaque structs

type Slice struct{ Base, Off, Len, Cap Term }

type Struct struct{ F []Val }

type Tuple struct{ E []Val }

// Seq is a specification value: an immutable sequence (one row per leaf of the element type).
type Seq struct {
	Rows  []Term
	Off   Term
	Len   Term
	Elem  types.Type // nil for spec sorts
	ESort string
}

type ptrKind int

const (
	PObj   ptrKind = iota // struct object at Ref
	PField                // non-struct field Name of struct object Ref
	PElem                 // element Idx (path inside it) of the slice storage Ref
	PCell                 // variable of non-struct type at Ref
	PArr                  // array storage at Ref
)

type Ptr struct {
	K    ptrKind
	Ref  Term
	Idx  Term
	Elem types.Type // PElem: element type of the storage; others: pointee type
	To   types.Type // pointee type
	Path string     // PElem: leaf path prefix; PField: field name
	St   string     // PField: struct type key
}

type Func struct {
	Fn   *ssa.Function
	Bind []Val
	Bld  string // builtin name
}

type leaf struct {
	Path string
	Sort string
	Ref  byte // 'b' slice base / map / chan (plain ref), 'p' struct pointer, 'i' interface, 0 none
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if strings.HasPrefix(p, repoModule) {
		return false
	}
	if strings.HasSuffix(p, "stat/distuv") {
		return false
	}
	_, st := n.Underlying().(*types.Struct)
	return st
}

const repoModule = "github.com/wearelumenai/distclus"

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && !isOpaqueStruct(t)
}

var leafCache = map[string][]leaf{}

// leavesOf flattens a Go type into SMT-sorted components.
func leavesOf(t types.Type) []leaf {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves1(t)
	leafCache[k] = l
	return l
}

func leaves1(t types.Type) []leaf {
	if isOpaqueStruct(t) {
		return []leaf{{"", SInt, 0}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, 0}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{"", SInt, 0}}
		case u.Info()&types.IsFloat != 0:
			return []leaf{{"", SReal, 0}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SInt, 0}}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return []leaf{{"", SInt, 0}}
		}
	case *types.Slice:
		return []leaf{{".b", SInt, 'b'}, {".o", SInt, 0}, {".l", SInt, 0}, {".c", SInt, 0}}
	case *types.Pointer:
		if isStruct(u.Elem()) {
			return []leaf{{"", SInt, 'p'}}
		}
		return []leaf{{"", SInt, 'b'}}
	case *types.Interface:
		return []leaf{{"", SInt, 'i'}}
	case *types.Map, *types.Chan:
		return []leaf{{"", SInt, 'b'}}
	case *types.Signature:
		return []leaf{{"", SInt, 0}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				out = append(out, leaf{"." + f.Name() + l.Path, l.Sort, l.Ref})
			}
		}
		return out
	}
	panic(unsup("unsupported type %s", t))
}

// flatten turns a value of Go type t into its leaf terms.
func (x *Exec) flatten(v Val) []Term {
	switch v := v.(type) {
	case Scalar:
		return []Term{v.T}
	case Slice:
		return []Term{v.Base, v.Off, v.Len, v.Cap}
	case Struct:
		var out []Term
		for _, f := range v.F {
			out = append(out, x.flatten(f)...)
		}
		return out
	case Seq:
		return append(append([]Term{}, v.Rows...), v.Off, v.Len)
	case Ptr:
		switch v.K {
		case PObj, PCell, PArr:
			return []Term{v.Ref}
		case PField:
			// address of a non-struct field: an injective function of the object
			t := x.subRef(v.St, v.Path, v.Ref)
			x.ptrReg[t.S] = v
			return []Term{t}
		}
		t := x.fresh("ptr", SInt)
		x.ptrReg[t.S] = v
		return []Term{t}
	case Func:
		key := "fn_nil"
		if v.Fn != nil {
			key = "fn$" + x.fnKey(v.Fn)
		}
		for _, b := range v.Bind {
			for _, t := range x.flatten(b) {
				key += "|" + t.S
			}
		}
		t, ok := x.fnIds[key]
		if !ok {
			t = x.fresh("fnval", SInt)
			x.assumeTop(Not(Eq(t, TI(0))))
			x.fnIds[key] = t
		}
		x.fnReg[t.S] = v
		return []Term{t}
	case Tuple:
		var out []Term
		for _, f := range v.E {
			out = append(out, x.flatten(f)...)
		}
		return out
	case nil:
		panic(unsup("flatten nil value"))
	}
	panic(unsup("flatten %T", v))
}

// build assembles a value of type t from leaf terms (consuming all of them).
func (x *Exec) build(t types.Type, ts []Term) Val {
	v, rest := x.build1(t, ts)
	if len(rest) != 0 {
		panic(unsup("build %s: %d terms left", t, len(rest)))
	}
	return v
}

func (x *Exec) build1(t types.Type, ts []Term) (Val, []Term) {
	if tp, ok := t.(*types.Tuple); ok {
		var out Tuple
		for i := 0; i < tp.Len(); i++ {
			var v Val
			v, ts = x.build1(tp.At(i).Type(), ts)
			out.E = append(out.E, v)
		}
		return out, ts
	}
	if isOpaqueStruct(t) {
		return Scalar{ts[0]}, ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return Slice{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		var out Struct
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = x.build1(u.Field(i).Type(), ts)
			out.F = append(out.F, v)
		}
		return out, ts
	case *types.Pointer:
		if p, ok := x.ptrReg[ts[0].S]; ok {
			return p, ts[1:]
		}
		return x.ptrFromRef(u.Elem(), ts[0]), ts[1:]
	case *types.Signature:
		if f, ok := x.fnReg[ts[0].S]; ok {
			return f, ts[1:]
		}
		return Scalar{ts[0]}, ts[1:]
	}
	return Scalar{ts[0]}, ts[1:]
}

func (x *Exec) ptrFromRef(elem types.Type, ref Term) Ptr {
	if p, ok := x.ptrReg[ref.S]; ok {
		return p
	}
	if isStruct(elem) {
		return Ptr{K: PObj, Ref: ref, To: elem, Elem: elem}
	}
	if a, ok := elem.Underlying().(*types.Array); ok {
		return Ptr{K: PArr, Ref: ref, To: elem, Elem: a.Elem()}
	}
	return Ptr{K: PCell, Ref: ref, To: elem, Elem: elem}
}

func scalar(v Val) Term {
	switch s := v.(type) {
	case Scalar:
		return s.T
	}
	panic(unsup("scalar expected, got %T", v))
}

// term returns the single-term form of a value (scalars, pointers, functions).
func (x *Exec) term(v Val) Term {
	ts := x.flatten(v)
	if len(ts) != 1 {
		panic(unsup("single term expected, got %T", v))
	}
	return ts[0]
}

func zeroOf(sort string) Term {
	switch sort {
	case SInt:
		return TI(0)
	case SReal:
		return TR("0.0")
	case SBool:
		return TFalse
	}
	panic(unsup("zero of %s", sort))
}

func (x *Exec) zero(t types.Type) Val {
	var ts []Term
	if tp, ok := t.(*types.Tuple); ok {
		var out Tuple
		for i := 0; i < tp.Len(); i++ {
			out.E = append(out.E, x.zero(tp.At(i).Type()))
		}
		return out
	}
	for _, l := range leavesOf(t) {
		ts = append(ts, zeroOf(l.Sort))
	}
	return x.build(t, ts)
}

func (x *Exec) iteVal(c Term, a, b Val) Val {
	if c.S == "true" {
		return a
	}
	if c.S == "false" {
		return b
	}
	switch va := a.(type) {
	case Struct:
		vb := b.(Struct)
		out := Struct{}
		for i := range va.F {
			out.F = append(out.F, x.iteVal(c, va.F[i], vb.F[i]))
		}
		return out
	case Tuple:
		vb := b.(Tuple)
		out := Tuple{}
		for i := range va.E {
			out.E = append(out.E, x.iteVal(c, va.E[i], vb.E[i]))
		}
		return out
	case Slice:
		vb := b.(Slice)
		return Slice{Ite(c, va.Base, vb.Base), Ite(c, va.Off, vb.Off), Ite(c, va.Len, vb.Len), Ite(c, va.Cap, vb.Cap)}
	case Scalar:
		tb := x.term(b)
		r := Ite(c, va.T, tb)
		return Scalar{r}
	case Ptr:
		vb, ok := b.(Ptr)
		if ok && va.K == vb.K && va.Path == vb.Path && va.St == vb.St {
			out := va
			out.Ref = Ite(c, va.Ref, vb.Ref)
			if va.K == PElem {
				out.Idx = Ite(c, va.Idx, vb.Idx)
			}
			return out
		}
		if ok && (va.K == PObj || va.K == PCell) && vb.K == va.K {
			out := va
			out.Ref = Ite(c, va.Ref, vb.Ref)
			return out
		}
		panic(unsup("merge of unlike pointers"))
	case Func:
		vb, ok := b.(Func)
		if ok && va.Fn == vb.Fn && len(va.Bind) == len(vb.Bind) {
			out := Func{Fn: va.Fn, Bld: va.Bld}
			for i := range va.Bind {
				out.Bind = append(out.Bind, x.iteVal(c, va.Bind[i], vb.Bind[i]))
			}
			return out
		}
		ta, tb := x.flatten(a)[0], x.flatten(b)[0]
		r := x.define("fnite", Ite(c, ta, tb))
		x.fnAlt[r.S] = []fnChoice{{c, a}, {Not(c), b}}
		return Scalar{r}
	case Seq:
		vb := b.(Seq)
		out := Seq{Off: Ite(c, va.Off, vb.Off), Len: Ite(c, va.Len, vb.Len), Elem: va.Elem, ESort: va.ESort}
		for i := range va.Rows {
			out.Rows = append(out.Rows, Ite(c, va.Rows[i], vb.Rows[i]))
		}
		return out
	case nil:
		return nil
	}
	panic(unsup("ite of %T", a))
}

type fnChoice struct {
	C Term
	V Val
}

func mangle(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("@p")
		case r == '[':
			b.WriteString("@L")
		case r == ']':
			b.WriteString("@R")
		default:
			fmt.Fprintf(&b, "@%x", r)
		}
	}
	return b.String()
}
