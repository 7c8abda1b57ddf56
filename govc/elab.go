package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// SV is a typed specification value.
type SV struct {
	V Val
	T types.Type // Go type when known
	S string     // spec sort otherwise
}

// SEnv is the environment a specification expression is evaluated in.
type SEnv struct {
	vars  map[string]SV
	st    *State
	old   *State
	loop0 *State // state at loop entry, for loopold()
	holes map[string]SV
	pol   int // +1 goal, -1 assumption, 0 neutral
	bound []string
	offs  *[]offUse
	pats  *[]patUse
	x     *Exec
	depth int
	first bool // acq(..) is the first acquisition, not the last one
}

type offUse struct{ v, off string }
type patUse struct{ v, pat string }

func (e *SEnv) child() *SEnv { c := *e; return &c }

func (e *SEnv) withVars(m map[string]SV) *SEnv {
	c := *e
	c.vars = make(map[string]SV, len(e.vars)+len(m))
	for k, v := range e.vars {
		c.vars[k] = v
	}
	for k, v := range m {
		c.vars[k] = v
	}
	return &c
}

func svT(t Term) SV {
	s := "int"
	switch t.Sort {
	case SReal:
		s = "real"
	case SBool:
		s = "bool"
	case SInt:
		s = "int"
	default:
		s = "smt:" + t.Sort
	}
	return SV{V: Scalar{t}, S: s}
}

type specErr struct{ msg string }

func (e specErr) Error() string { return e.msg }

func serr(f string, a ...interface{}) specErr { return specErr{fmt.Sprintf(f, a...)} }

func (e *SEnv) boolean(ex *Ex) Term {
	v := e.eval(ex)
	t := e.x.term(v.V)
	if t.Sort != SBool {
		panic(serr("boolean expected: %s", ex))
	}
	return t
}

func (e *SEnv) termOf(v SV) Term { return e.x.term(v.V) }

func (e *SEnv) flip() *SEnv { c := *e; c.pol = -e.pol; return &c }
func (e *SEnv) neutral() *SEnv {
	c := *e
	c.pol = 0
	return &c
}

func (e *SEnv) eval(ex *Ex) SV {
	x := e.x
	switch ex.Op {
	case "int":
		var n int64
		fmt.Sscan(ex.Name, &n)
		return svT(TI(n))
	case "real":
		r, _ := new(big.Rat).SetString(ex.Name)
		if f, _ := r.Float64(); r.SetFloat64(f) == nil {
			panic(serr("literal %s", ex.Name))
		}
		return svT(ratTerm(r))
	case "str":
		return SV{V: Scalar{x.strConst(ex.Name)}, S: "int"}
	case "hole":
		if v, ok := e.holes[ex.Name]; ok {
			return v
		}
		panic(serr("unbound placeholder %s", ex.Name))
	case "id":
		return e.ident(ex.Name)
	case "deref":
		v := e.eval(ex.Args[0])
		return e.deref(v)
	case "field":
		// package-level variable pkg.Name
		if ex.Args[0].Op == "id" {
			if ex.Args[0].Name == "g" {
				srt, ok := x.eng.sp.Ghosts[ex.Name]
				if !ok {
					panic(serr("unknown ghost g.%s", ex.Name))
				}
				t := x.ghost(e.st, ex.Name)
				_ = srt
				return svT(t)
			}
			if _, ok := e.vars[ex.Args[0].Name]; !ok {
				if v, ok := e.pkgMember(ex.Args[0].Name, ex.Name); ok {
					return v
				}
			}
		}
		return e.field(e.eval(ex.Args[0]), ex.Name)
	case "index":
		return e.index(e.eval(ex.Args[0]), e.neutral().eval(ex.Args[1]))
	case "slice":
		s := e.eval(ex.Args[0])
		lo := TI(0)
		if ex.Args[1] != nil {
			lo = e.termOf(e.eval(ex.Args[1]))
		}
		switch v := s.V.(type) {
		case Slice:
			hi := v.Len
			if ex.Args[2] != nil {
				hi = e.termOf(e.eval(ex.Args[2]))
			}
			return SV{V: Slice{v.Base, Add(v.Off, lo), Sub(hi, lo), Sub(v.Cap, lo)}, T: s.T}
		case Seq:
			hi := v.Len
			if ex.Args[2] != nil {
				hi = e.termOf(e.eval(ex.Args[2]))
			}
			return SV{V: Seq{Rows: v.Rows, Off: Add(v.Off, lo), Len: Sub(hi, lo), Elem: v.Elem, ESort: v.ESort}, S: s.S}
		}
		panic(serr("cannot slice %s", ex.Args[0]))
	case "un":
		if ex.Name == "!" {
			return svT(Not(e.flip().boolean(ex.Args[0])))
		}
		t := e.termOf(e.eval(ex.Args[0]))
		if t.Sort == SReal {
			return svT(app(SReal, "-", t))
		}
		return svT(Sub(TI(0), t))
	case "bin":
		return e.binary(ex)
	case "forall", "exists":
		return svT(e.quant(ex))
	case "call":
		return e.call(ex)
	}
	panic(serr("cannot evaluate %s", ex))
}

func (e *SEnv) ident(n string) SV {
	x := e.x
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return svT(TTrue)
	case "false":
		return svT(TFalse)
	case "nil":
		return svT(TI(0))
	case "INF":
		x.declareInf()
		return svT(Term{"INF", SReal})
	}
	if f, ok := x.eng.sp.Fns[n]; ok && len(f.Params) == 0 {
		return e.specCall(f, nil)
	}
	if x.top != nil {
		if v, ok := e.pkgMember(x.topPkg(), n); ok {
			return v
		}
	}
	panic(serr("unknown identifier %s", n))
}

func (e *SEnv) pkgMember(pkg, n string) (SV, bool) {
	x := e.x
	p := x.eng.pkgByName[pkg]
	if p == nil {
		if tp := x.eng.typePkgs[pkg]; tp != nil {
			if o, ok := tp.Scope().Lookup(n).(*types.Const); ok {
				t := types.Default(o.Type())
				return SV{V: x.constVal(o.Val(), t), T: t}, true
			}
		}
		return SV{}, false
	}
	if n == "initguard" {
		ptr := x.globalPtr(pkg+".init$guard", types.Typ[types.Bool])
		return SV{V: x.loadPtr(e.st, ptr), T: types.Typ[types.Bool]}, true
	}
	o := p.Pkg.Scope().Lookup(n)
	switch o := o.(type) {
	case *types.Var:
		ptr := x.globalPtr(pkg+"."+n, o.Type())
		return SV{V: x.loadPtr(e.st, ptr), T: o.Type()}, true
	case *types.Const:
		return SV{V: x.constVal(o.Val(), o.Type()), T: o.Type()}, true
	}
	return SV{}, false
}

func (e *SEnv) deref(v SV) SV {
	p, ok := v.V.(Ptr)
	if !ok {
		panic(serr("dereference of non-pointer %T", v.V))
	}
	return SV{V: e.specLoad(p), T: p.To}
}

// specLoad loads without emitting definitions that mention bound variables.
func (e *SEnv) specLoad(p Ptr) Val { return e.x.loadPtr(e.st, p) }

func (e *SEnv) field(v SV, name string) SV {
	x := e.x
	switch b := v.V.(type) {
	case Ptr:
		if b.K == PObj {
			u := b.To.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					fp := x.fieldPtr(b.To, i, b.Ref)
					if fp.K == PObj {
						return SV{V: fp, T: types.NewPointer(fp.To)}
					}
					return SV{V: x.loadPtr(e.st, fp), T: fp.To}
				}
			}
			panic(serr("no field %s in %s", name, b.To))
		}
		if b.K == PElem {
			sv := SV{V: x.loadPtr(e.st, b), T: b.To}
			return e.field(sv, name)
		}
		if b.K == PCell || b.K == PField {
			return e.field(e.deref(v), name)
		}
	case Struct:
		u := v.T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return SV{V: b.F[i], T: u.Field(i).Type()}
			}
		}
		panic(serr("no field %s in %s", name, v.T))
	}
	panic(serr("field %s of %T", name, v.V))
}

// absIndex computes off+i, recording uses of bound variables as plain indexes.
func (e *SEnv) absIndex(off, i Term) Term {
	for _, b := range e.bound {
		if i.S == b {
			if off.S != "0" {
				if e.offs != nil && !strings.Contains(off.S, "!b") {
					*e.offs = append(*e.offs, offUse{b, off.S})
				}
			}
			return Add(off, i)
		}
		if i.S == "(- "+b+" "+off.S+")" {
			return Term{b, SInt}
		}
		if strings.HasPrefix(i.S, "(+ (- "+b+" "+off.S+") ") {
			if _, c, ok := splitPlusConst(i); ok {
				return Add(Term{b, SInt}, TI(c))
			}
		}
		if off.S != "0" && e.offs != nil && !strings.Contains(off.S, "!b") {
			if base, _, ok := splitPlusConst(i); ok && base.S == b {
				*e.offs = append(*e.offs, offUse{b, off.S})
			}
		}
	}
	return Add(off, i)
}

func (e *SEnv) notePat(idx Term, pat Term) {
	if e.pats == nil {
		return
	}
	for _, b := range e.bound {
		if idx.S == b {
			*e.pats = append(*e.pats, patUse{b, pat.S})
		}
	}
}

func (e *SEnv) index(s SV, i SV) SV {
	x := e.x
	it := e.termOf(i)
	switch v := s.V.(type) {
	case Slice:
		elem := s.T.Underlying().(*types.Slice).Elem()
		idx := e.absIndex(v.Off, it)
		var ts []Term
		for _, l := range leavesOf(elem) {
			h := x.heap(e.st, "E:"+typeKey(elem)+l.Path, arr(SInt, arr(SInt, l.Sort)))
			t := Sel(x.rowOf(h, v.Base), idx)
			e.notePat(idx, t)
			ts = append(ts, t)
		}
		val := x.build(elem, ts)
		return SV{V: val, T: elem}
	case Seq:
		idx := e.absIndex(v.Off, it)
		var ts []Term
		for _, r := range v.Rows {
			t := Sel(r, idx)
			e.notePat(idx, t)
			ts = append(ts, t)
		}
		if v.Elem != nil {
			return SV{V: x.build(v.Elem, ts), T: v.Elem}
		}
		if v.ESort == "slice" {
			return SV{V: Slice{ts[0], ts[1], ts[2], ts[3]}, S: "slice"}
		}
		return svT(ts[0])
	case Scalar:
		if s.T != nil {
			if m, ok := s.T.Underlying().(*types.Map); ok {
				k := it
				var ts []Term
				for _, l := range leavesOf(m.Elem()) {
					h := x.heap(e.st, mapHeap(s.T, l.Path), arr(SInt, arr(leavesOf(m.Key())[0].Sort, l.Sort)))
					t := Sel(Sel(h, v.T), k)
					e.notePat(k, t)
					ts = append(ts, t)
				}
				return SV{V: x.build(m.Elem(), ts), T: m.Elem()}
			}
		}
		if strings.HasPrefix(v.T.Sort, "(Array ") {
			t := Sel(v.T, it)
			e.notePat(it, t)
			return svT(t)
		}
	case Ptr:
		if v.K == PArr {
			return e.index(SV{V: Slice{v.Ref, TI(0), TI(0), TI(0)}, T: types.NewSlice(v.Elem)}, i)
		}
	}
	panic(serr("cannot index %T", s.V))
}

func mapHeap(t types.Type, path string) string {
	m := t.Underlying().(*types.Map)
	return "M:" + typeKey(m.Key()) + ":" + typeKey(m.Elem()) + path
}

func (e *SEnv) binary(ex *Ex) SV {
	x := e.x
	op := ex.Name
	switch op {
	case "&&":
		return svT(And(e.boolean(ex.Args[0]), e.boolean(ex.Args[1])))
	case "||":
		return svT(Or(e.boolean(ex.Args[0]), e.boolean(ex.Args[1])))
	case "==>":
		a := e.flip().boolean(ex.Args[0])
		if a.S == "false" {
			return svT(TTrue)
		}
		return svT(Imp(a, e.boolean(ex.Args[1])))
	case "<==>":
		a := And(Imp(e.flip().boolean(ex.Args[0]), e.boolean(ex.Args[1])), Imp(e.flip().boolean(ex.Args[1]), e.boolean(ex.Args[0])))
		return svT(a)
	}
	e = e.neutral()
	av, bv := e.eval(ex.Args[0]), e.eval(ex.Args[1])
	if op == "==" || op == "!=" {
		t := e.equal(av, bv)
		if op == "!=" {
			t = Not(t)
		}
		return svT(t)
	}
	a, b := e.termOf(av), e.termOf(bv)
	switch op {
	case "<", "<=", ">", ">=":
		return svT(cmp(op, a, b))
	case "+", "-", "*":
		return svT(arith(op, a, b))
	case "/":
		if a.Sort == SInt && b.Sort == SInt {
			return svT(goDiv(a, b))
		}
		return svT(app(SReal, "/", ToReal(a), ToReal(b)))
	case "%":
		return svT(goRem(a, b))
	}
	_ = x
	panic(serr("operator %s", op))
}

// Go's truncated division.
func goDiv(a, b Term) Term {
	if n, ok := b.isConstInt(); ok && n > 0 {
		if strings.HasPrefix(a.S, "len") {
			return app(SInt, "div", a, b)
		}
		return Ite(Le(TI(0), a), app(SInt, "div", a, b), Sub(TI(0), app(SInt, "div", Sub(TI(0), a), b)))
	}
	q := app(SInt, "div", absT(a), absT(b))
	return Ite(Eq(Le(TI(0), a), Le(TI(0), b)), q, Sub(TI(0), q))
}

func absT(a Term) Term { return Ite(Le(TI(0), a), a, Sub(TI(0), a)) }

func goRem(a, b Term) Term { return Sub(a, Mul(b, goDiv(a, b))) }

func (e *SEnv) equal(a, b SV) Term {
	x := e.x
	if s, ok := a.V.(Slice); ok {
		if t, ok := b.V.(Slice); ok {
			return And(Eq(s.Base, t.Base), Eq(s.Off, t.Off), Eq(s.Len, t.Len))
		}
		return Eq(s.Base, x.term(b.V)) // comparison with nil
	}
	if s, ok := b.V.(Slice); ok {
		return Eq(s.Base, x.term(a.V))
	}
	fa, fb := x.flatten(a.V), x.flatten(b.V)
	if len(fa) != len(fb) {
		panic(serr("comparison of values of different shapes"))
	}
	var out []Term
	for i := range fa {
		out = append(out, Eq(fa[i], fb[i]))
	}
	return And(out...)
}

func specSort(t string) []string {
	switch {
	case t == "int" || t == "iface" || t == "ref" || t == "string" || t == "func" || t == "map" || t == "chan":
		return []string{SInt}
	case t == "real":
		return []string{SReal}
	case t == "bool":
		return []string{SBool}
	case t == "slice":
		return []string{SInt, SInt, SInt}
	case strings.HasPrefix(t, "seq["):
		in := t[4 : len(t)-1]
		var out []string
		if in == "slice" {
			out = []string{arr(SInt, SInt), arr(SInt, SInt), arr(SInt, SInt), arr(SInt, SInt)}
		} else {
			out = []string{arr(SInt, specSort(in)[0])}
		}
		return append(out, SInt, SInt)
	case strings.HasPrefix(t, "row["):
		return []string{arr(SInt, specSort(t[4 : len(t)-1])[0])}
	case strings.HasPrefix(t, "setof["):
		return []string{arr(specSort(t[6 : len(t)-1])[0], SBool)}
	case strings.HasPrefix(t, "rows["):
		return []string{arr(SInt, arr(SInt, specSort(t[5 : len(t)-1])[0]))}
	}
	panic(serr("unknown spec sort %s", t))
}

func (e *SEnv) quant(ex *Ex) Term {
	x := e.x
	var names []string
	c := e.child()
	m := map[string]SV{}
	for _, b := range ex.Vars {
		x.nbound++
		n := fmt.Sprintf("%s!b%d", mangle(b.Name), x.nbound)
		names = append(names, n)
		m[b.Name] = svT(Term{n, specSort(b.Type)[0]})
		if b.Type == "iface" || b.Type == "ref" {
			m[b.Name] = SV{V: Scalar{Term{n, SInt}}, S: b.Type}
		}
	}
	c = c.withVars(m)
	c.bound = append(append([]string{}, e.bound...), names...)
	var offs []offUse
	var pats []patUse
	c.offs, c.pats = &offs, &pats
	body := c.boolean(ex.Args[0])
	// propagate offsets of outer bound variables
	if e.offs != nil {
		*e.offs = append(*e.offs, offs...)
	}
	if e.pats != nil {
		*e.pats = append(*e.pats, pats...)
	}
	wantAll := ex.Op == "forall" && e.pol <= 0 || ex.Op == "exists" && e.pol >= 0
	mk := func(body Term, trig [][]Term, pats []patUse) Term {
		if body.S == "true" || body.S == "false" {
			return body
		}
		var vs []string
		for i, n := range names {
			vs = append(vs, "("+n+" "+specSort(ex.Vars[i].Type)[0]+")")
		}
		pat := ""
		if len(trig) > 0 {
			for _, tr := range trig {
				pat += " :pattern ("
				for i, t := range tr {
					if i > 0 {
						pat += " "
					}
					pat += t.S
				}
				pat += ")"
			}
		} else if len(names) == 1 && wantAll {
			seen := map[string]bool{}
			for _, p := range pats {
				if p.v == names[0] && !seen[p.pat] && onlyBound(p.pat, names[0]) && goodPattern(p.pat) {
					seen[p.pat] = true
					pat += " :pattern (" + p.pat + ")"
				}
			}
		}
		b := body.S
		if pat != "" {
			b = "(! " + b + pat + ")"
		}
		return Term{"(" + ex.Op + " (" + strings.Join(vs, " ") + ") " + b + ")", SBool}
	}
	evalTrig := func(c *SEnv) [][]Term {
		var out [][]Term
		for _, tr := range ex.Trig {
			var ts []Term
			for _, t := range tr {
				ts = append(ts, x.flatten(c.neutral().eval(t).V)[0])
			}
			out = append(out, ts)
		}
		return out
	}
	if !wantAll {
		// the trigger terms of a clause become ground terms of its proof
		var ts []Term
		for _, tr := range evalTrig(c) {
			for _, t := range tr {
				switch t.Sort {
				case SInt, SBool, SReal:
					f := "trg" + t.Sort
					x.declareFun(f, []string{t.Sort}, SBool)
					ts = append(ts, app(SBool, f, t))
				}
			}
		}
		if ex.Op == "forall" {
			body = Imp(And(ts...), body)
		} else {
			body = And(append(ts, body)...)
		}
		return mk(body, nil, nil)
	}
	// versions: one per distinct offset of each bound variable (single-variable shifts)
	type ver struct {
		v, off string
	}
	var vers []ver
	seen := map[string]bool{}
	hasPlain := false
	for _, p := range pats {
		for _, n := range names {
			if p.v == n {
				hasPlain = true
			}
		}
	}
	for _, o := range offs {
		for _, n := range names {
			if o.v == n && !seen[o.v+"@"+o.off] {
				seen[o.v+"@"+o.off] = true
				vers = append(vers, ver{o.v, o.off})
			}
		}
	}
	sort.Slice(vers, func(i, j int) bool { return vers[i].v+vers[i].off < vers[j].v+vers[j].off })
	var all []Term
	if len(vers) == 0 || hasPlain || len(ex.Trig) > 0 {
		all = append(all, mk(body, evalTrig(c), pats))
	}
	for _, vr := range vers {
		m2 := map[string]SV{}
		for i, b := range ex.Vars {
			if names[i] == vr.v {
				m2[b.Name] = svT(app(SInt, "-", Term{names[i], SInt}, Term{vr.off, SInt}))
			} else {
				m2[b.Name] = m[b.Name]
			}
		}
		c2 := e.withVars(m2)
		c2.bound = c.bound
		var o2 []offUse
		var p2 []patUse
		c2.offs, c2.pats = &o2, &p2
		b2 := c2.boolean(ex.Args[0])
		all = append(all, mk(b2, nil, p2))
	}
	if ex.Op == "forall" {
		return And(all...)
	}
	return Or(all...)
}

func goodPattern(p string) bool {
	return !strings.Contains(p, "(ite ") && !strings.Contains(p, "(+ ") && !strings.Contains(p, "(- ") && !strings.Contains(p, "(= ") && !strings.Contains(p, "(and ")
}

// onlyBound reports whether v is the only bound variable in s.
func onlyBound(s, v string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '!' && s[i+1] == 'b' {
			j := i
			for j > 0 && s[j-1] != ' ' && s[j-1] != '(' {
				j--
			}
			k := i
			for k < len(s) && s[k] != ' ' && s[k] != ')' {
				k++
			}
			if s[j:k] != v {
				return false
			}
		}
	}
	return true
}

func (e *SEnv) seqOf(v SV, sort string) Seq {
	x := e.x
	switch s := v.V.(type) {
	case Seq:
		return s
	case Slice:
		elem := v.T.Underlying().(*types.Slice).Elem()
		out := Seq{Off: s.Off, Len: s.Len, Elem: elem}
		for _, l := range leavesOf(elem) {
			h := x.heap(e.st, "E:"+typeKey(elem)+l.Path, arr(SInt, arr(SInt, l.Sort)))
			out.Rows = append(out.Rows, Sel(h, s.Base))
		}
		return out
	}
	panic(serr("sequence expected, got %T", v.V))
}

func (e *SEnv) flatArg(v SV, sort string) []Term {
	x := e.x
	if strings.HasPrefix(sort, "seq[") {
		s := e.seqOf(v, sort)
		return append(append([]Term{}, s.Rows...), s.Off, s.Len)
	}
	if sort == "slice" {
		s := v.V.(Slice)
		return []Term{s.Base, s.Off, s.Len}
	}
	t := x.term(v.V)
	if sort == "real" {
		t = ToReal(t)
	}
	return []Term{t}
}

// argFromFlat rebuilds a spec parameter from flattened terms.
func argFromFlat(sort string, ts []Term) (SV, []Term) {
	if strings.HasPrefix(sort, "seq[") {
		in := sort[4 : len(sort)-1]
		n := 1
		if in == "slice" {
			n = 4
		}
		return SV{V: Seq{Rows: ts[:n], Off: ts[n], Len: ts[n+1], ESort: in}, S: sort}, ts[n+2:]
	}
	if sort == "slice" {
		return SV{V: Slice{ts[0], ts[1], ts[2], ts[2]}, S: "slice"}, ts[3:]
	}
	return SV{V: Scalar{ts[0]}, S: sort}, ts[1:]
}

func (x *Exec) declSpecFn(f *SpecFn) string {
	n := "f$" + f.Name
	if !x.declared[n] {
		var args []string
		for _, p := range f.Params {
			args = append(args, specSort(p.Type)...)
		}
		x.declareFun(n, args, specSort(f.Ret)[0])
	}
	return n
}

func (e *SEnv) specCall(f *SpecFn, args []SV) SV {
	x := e.x
	if len(args) != len(f.Params) {
		panic(serr("%s expects %d arguments", f.Name, len(f.Params)))
	}
	if f.Kind == "def" {
		m := map[string]SV{}
		for i, p := range f.Params {
			a := args[i]
			if strings.HasPrefix(p.Type, "seq[") {
				a = SV{V: e.seqOf(a, p.Type), S: p.Type}
			}
			m[p.Name] = a
		}
		c := e.child()
		c.vars = m
		if e.depth > 30 {
			panic(serr("def %s: recursion", f.Name))
		}
		c.depth++
		return c.eval(f.Body)
	}
	name := x.declSpecFn(f)
	var flat []Term
	for i, p := range f.Params {
		flat = append(flat, e.flatArg(args[i], p.Type)...)
	}
	t := app(specSort(f.Ret)[0], name, flat...)
	if e.pats != nil {
		for _, b := range e.bound {
			for _, a := range flat {
				if a.S == b {
					*e.pats = append(*e.pats, patUse{b, t.S})
					break
				}
			}
		}
	}
	if f.Kind == "rec" {
		e.unfold(f, name, flat, t)
	}
	return SV{V: Scalar{t}, S: f.Ret}
}

// unfold emits the defining equation of a recursive spec function at one application.
func (e *SEnv) unfold(f *SpecFn, name string, flat []Term, t Term) {
	x := e.x
	// locate the recursion argument
	var args []SV
	rest := flat
	onTerm, onTerm2 := Term{}, ""
	for _, p := range f.Params {
		var v SV
		v, rest = argFromFlat(p.Type, rest)
		if p.Name == f.On {
			onTerm = x.term(v.V)
		}
		if p.Name == f.On2 {
			onTerm2 = x.term(v.V).S
		}
		args = append(args, v)
	}
	if strings.Contains(onTerm.S, "!b") || strings.Contains(onTerm2, "!b") {
		return
	}
	lit := false
	if n, err := strconv.Atoi(onTerm.S); err == nil && n <= 8 && f.On2 == "" {
		lit = true // a literal argument is unfolded to the end
	}
	if x.unfoldDepth >= x.maxUnfold && !lit || f.On2 != "" && x.unfoldDepth >= 1 {
		return
	}
	// generalise over bound variables in the other arguments
	var vars []string
	var appArgs []Term
	gen := false
	for _, a := range flat {
		if strings.Contains(a.S, "!b") {
			gen = true
		}
	}
	key := t.S
	if gen {
		appArgs = nil
		for _, a := range flat {
			if strings.Contains(a.S, "!b") {
				n := fmt.Sprintf("u!b%d", len(vars))
				vars = append(vars, "("+n+" "+a.Sort+")")
				appArgs = append(appArgs, Term{n, a.Sort})
			} else {
				appArgs = append(appArgs, a)
			}
		}
		key = app(t.Sort, name, appArgs...).S
	} else {
		appArgs = flat
	}
	if x.unfolded[key] {
		return
	}
	x.unfolded[key] = true
	args = nil
	rest = appArgs
	m := map[string]SV{}
	for _, p := range f.Params {
		var v SV
		v, rest = argFromFlat(p.Type, rest)
		m[p.Name] = v
	}
	c := &SEnv{vars: m, x: x, st: e.st, old: e.old}
	x.unfoldDepth++
	body := x.term(c.eval(f.Body).V)
	x.unfoldDepth--
	if t.Sort == SReal {
		body = ToReal(body)
	}
	lhs := app(t.Sort, name, appArgs...)
	eq := Eq(lhs, body)
	if gen {
		x.emit("(assert (forall (" + strings.Join(vars, " ") + ") (! " + eq.S + " :pattern (" + lhs.S + "))))")
	} else {
		x.emit("(assert " + eq.S + ")")
	}
}

func (e *SEnv) call(ex *Ex) SV {
	x := e.x
	n := ex.Name
	arg := func(i int) SV { return e.neutral().eval(ex.Args[i]) }
	switch n {
	case "old":
		if e.old == nil {
			panic(serr("old() without an old state"))
		}
		c := e.child()
		c.st = e.old
		return c.eval(ex.Args[0])
	case "acq":
		// in the state right after the guarding lock was last acquired
		c := e.child()
		st := e.st.clone()
		pre := "A:"
		if e.first {
			pre = "B:"
		}
		for h := range x.heap0 {
			if strings.HasPrefix(h, pre) {
				st.heaps[h[2:]] = x.heapIn(e.st, h)
			}
		}
		c.st = st
		return c.eval(ex.Args[0])
	case "loopold":
		c := e.child()
		if e.loop0 != nil {
			c.st = e.loop0
		}
		return c.eval(ex.Args[0])
	case "ite":
		c := e.neutral().boolean(ex.Args[0])
		a, b := e.eval(ex.Args[1]), e.eval(ex.Args[2])
		if ta, ok := a.V.(Scalar); ok {
			if tb, ok := b.V.(Scalar); ok {
				if ta.T.Sort == SReal || tb.T.Sort == SReal {
					return svT(Ite(c, ToReal(ta.T), ToReal(tb.T)))
				}
			}
		}
		return SV{V: x.iteVal(c, a.V, b.V), T: a.T, S: a.S}
	case "len":
		a := arg(0)
		switch v := a.V.(type) {
		case Slice:
			return svT(v.Len)
		case Seq:
			return svT(v.Len)
		}
		panic(serr("len of %T", a.V))
	case "cap":
		return svT(arg(0).V.(Slice).Cap)
	case "base":
		return svT(arg(0).V.(Slice).Base)
	case "off":
		a := arg(0)
		if s, ok := a.V.(Seq); ok {
			return svT(s.Off)
		}
		return svT(a.V.(Slice).Off)
	case "isnil":
		a := arg(0)
		if s, ok := a.V.(Slice); ok {
			return svT(Eq(s.Base, TI(0)))
		}
		return svT(Eq(x.flatten(a.V)[0], TI(0)))
	case "fresh":
		// allocated since the old state
		a := arg(0)
		t := x.flatten(a.V)[0]
		if p, ok := a.V.(Ptr); ok && p.K == PObj {
			t = x.root(p.Ref)
		}
		return svT(Lt(e.old.alloc, t))
	case "loopfresh":
		a := arg(0)
		t := x.flatten(a.V)[0]
		return svT(Lt(e.loop0.alloc, t))
	case "allocated":
		a := arg(0)
		t := x.flatten(a.V)[0]
		if p, ok := a.V.(Ptr); ok && p.K == PObj {
			t = x.root(p.Ref)
		}
		return svT(Le(t, e.st.alloc))
	case "real":
		return svT(ToReal(e.termOf(arg(0))))
	case "ref":
		return svT(x.flatten(arg(0).V)[0])
	case "vec":
		return SV{V: x.unbox(e.st, e.termOf(arg(0)), x.eng.tVec, false), T: x.eng.tVec}
	case "series":
		return SV{V: x.unbox(e.st, e.termOf(arg(0)), x.eng.tSeries, false), T: x.eng.tSeries}
	case "isvec":
		return svT(Eq(x.tagOf(e.termOf(arg(0))), x.typeId(x.eng.tVec)))
	case "isseries":
		return svT(Eq(x.tagOf(e.termOf(arg(0))), x.typeId(x.eng.tSeries)))
	case "unbox":
		t := x.eng.typeByName(exTypeName(ex.Args[1]))
		return SV{V: x.unbox(e.st, e.termOf(arg(0)), t, false), T: t}
	case "as":
		// the pointer in an interface value when it has that type, else nil
		t := x.eng.typeByName(exTypeName(ex.Args[1]))
		v := e.termOf(arg(0))
		p := x.unbox(e.st, v, t, false).(Ptr)
		r := Ite(And(Eq(x.tagOf(v), x.typeId(t)), Not(Eq(v, TI(0)))), p.Ref, TI(0))
		p.Ref = r
		if !strings.Contains(r.S, "!b") {
			// a name, so that the conditional does not end up in a pattern
			key := "as:" + r.S
			n, ok := x.defs[key]
			if !ok {
				c := x.fresh("as", SInt)
				x.assumeTop(Eq(c, r))
				n = c.S
				x.defs[key] = n
			}
			p.Ref = Term{n, SInt}
		}
		return SV{V: p, T: t}
	case "boxed":
		a := arg(0)
		return SV{V: Scalar{x.box(e.st, a.T, a.V)}, S: "iface"}
	case "box_as":
		a := arg(0)
		t := x.eng.typeByName(exTypeName(ex.Args[1]))
		return SV{V: Scalar{x.box(e.st, t, a.V)}, S: "iface"}
	case "typeis":
		t := x.eng.typeByName(exTypeName(ex.Args[1]))
		v := e.termOf(arg(0))
		return svT(And(Eq(x.tagOf(v), x.typeId(t)), Not(Eq(v, TI(0)))))
	case "dom":
		m := arg(0)
		k := e.termOf(arg(1))
		t := Sel(Sel(x.mapDom(e.st, m.T), e.termOf(m)), k)
		e.notePat(k, t)
		return svT(t)
	case "visited":
		it := arg(0)
		k := e.termOf(arg(1))
		ref := e.termOf(it)
		srt := k.Sort
		h := x.heap(e.st, "I:"+srt, arr(SInt, arr(srt, SBool)))
		t := Sel(Sel(h, ref), k)
		e.notePat(k, t)
		return svT(t)
	case "row":
		s := e.seqOf(arg(0), "")
		return svT(s.Rows[0])
	case "alloc":
		// the allocation counter: references up to it are in use
		return svT(e.st.alloc)
	case "mem":
		// the whole heap that holds the elements of slices like the given one
		v := arg(0)
		elem := v.T.Underlying().(*types.Slice).Elem()
		l := leavesOf(elem)[0]
		return svT(x.heap(e.st, "E:"+typeKey(elem)+l.Path, arr(SInt, arr(SInt, l.Sort))))
	case "leafrow":
		// the row of one component of the elements of a slice of structures
		v := arg(0)
		elem := v.T.Underlying().(*types.Slice).Elem()
		want := "." + strings.ReplaceAll(ex.Args[1].Name, "__", ".")
		for _, l := range leavesOf(elem) {
			if l.Path == want {
				return svT(Sel(x.heap(e.st, "E:"+typeKey(elem)+l.Path, arr(SInt, arr(SInt, l.Sort))), v.V.(Slice).Base))
			}
		}
		panic(serr("no component %s", want))
	case "segment": // segment(row, off, len): the sequence of len elements from off in a row
		return SV{V: Seq{Rows: []Term{e.termOf(arg(0))}, Off: e.termOf(arg(1)), Len: e.termOf(arg(2)), ESort: "iface"}, S: "seq[iface]"}
	case "seq":
		a := arg(0)
		return SV{V: e.seqOf(a, ""), S: "seq"}
	case "held":
		p := arg(0).V.(Ptr)
		return svT(Sel(x.heap(e.st, "g:lk", arr(SInt, SInt)), p.Ref))
	case "nolocks":
		return svT(Eq(x.heap(e.st, "g:lk", arr(SInt, SInt)), Term{"((as const (Array Int Int)) 0)", arr(SInt, SInt)}))
	case "locks":
		return svT(x.heap(e.st, "g:lk", arr(SInt, SInt)))
	case "qlen":
		q := e.queue(arg(0))
		return svT(Sub(q.tail, q.head))
	case "qcap":
		q := e.queue(arg(0))
		return svT(q.cap)
	case "qclosed":
		return svT(x.queue(e.st, arg(0)).closed)
	case "q":
		// pending elements of a channel as a sequence
		q := e.queue(arg(0))
		return SV{V: Seq{Rows: []Term{q.row}, Off: q.head, Len: Sub(q.tail, q.head), ESort: "iface"}, S: "seq[iface]"}
	case "store":
		a := e.termOf(arg(0))
		return svT(Store(a, e.termOf(arg(1)), e.termOf(arg(2))))
	case "isfn":
		// the value is the named function
		f := x.eng.fnByKey[exTypeName(ex.Args[1])]
		if f == nil {
			panic(serr("unknown function %s", exTypeName(ex.Args[1])))
		}
		return svT(Eq(x.term(arg(0).V), x.term(Func{Fn: f})))
	}
	if f, ok := x.eng.sp.Fns[n]; ok {
		var args []SV
		for i, p := range f.Params {
			if i >= len(ex.Args) {
				panic(serr("%s: missing arguments", n))
			}
			if f.Kind == "def" && (p.Type == "bool" || f.Ret == "bool") {
				// polarity inside defs is handled by evaluating the body with our polarity;
				// boolean arguments are evaluated neutrally
				args = append(args, e.neutral().eval(ex.Args[i]))
				continue
			}
			args = append(args, e.neutral().eval(ex.Args[i]))
		}
		return e.specCall(f, args)
	}
	panic(serr("unknown function %s in specification", n))
}

func (x *Exec) constVal(v constant.Value, t types.Type) Val {
	if v == nil {
		return x.zero(t)
	}
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return Scalar{TTrue}
		}
		return Scalar{TFalse}
	case constant.String:
		return Scalar{x.strConst(constant.StringVal(v))}
	case constant.Int, constant.Float:
		b, ok := t.Underlying().(*types.Basic)
		if ok && b.Info()&types.IsFloat != 0 {
			if f := constant.ToFloat(v); f.Kind() == constant.Float || f.Kind() == constant.Int {
				r := new(big.Rat)
				s := f.ExactString()
				if _, ok := r.SetString(s); ok {
					if d, _ := r.Float64(); !math.IsInf(d, 0) {
						r.SetFloat64(d)
					}
					return Scalar{ratTerm(r)}
				}
			}
		}
		if n, ok := constant.Int64Val(constant.ToInt(v)); ok {
			return Scalar{TI(n)}
		}
		return Scalar{Term{constant.ToInt(v).ExactString(), SInt}}
	}
	panic(unsup("constant %v", v))
}

func (x *Exec) strConst(s string) Term {
	if s == "" {
		return TI(0)
	}
	id, ok := x.eng.strIds[s]
	if !ok {
		id = int64(len(x.eng.strIds) + 1)
		x.eng.strIds[s] = id
	}
	return TI(id)
}

func (x *Exec) declareInf() {
	if !x.declared["INF"] {
		x.declared["INF"] = true
		x.emit("(declare-const INF Real)")
		x.emit("(assert (> INF 1000000.0))")
	}
}

// exTypeName is a type or function name written as an expression (pkg.Name, "quoted" otherwise).
func exTypeName(e *Ex) string {
	if e.Op == "deref" {
		return "*" + exTypeName(e.Args[0])
	}
	if e.Op == "field" && e.Args[0].Op == "id" {
		return e.Args[0].Name + "." + e.Name
	}
	return e.Name
}

// queue of a channel, with what always holds of it
func (e *SEnv) queue(v SV) chanQ {
	q := e.x.queue(e.st, v)
	if !strings.Contains(q.head.S, "!b") {
		e.x.qfacts(e.st, q)
	}
	return q
}
