package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is a symbolic machine state under a path condition.
type State struct {
	pc     Term
	heaps  map[string]Term
	alloc  Term
	defers []*deferRec
	dead   bool
}

type deferRec struct {
	pc   Term
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  ssa.Instruction
}

func (s *State) clone() *State {
	n := *s
	n.heaps = make(map[string]Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.defers = append([]*deferRec{}, s.defers...)
	return &n
}

// Obligation is one proof obligation.
type Obligation struct {
	Name   string
	Kind   string // ensures pre frame safe cand-entry cand-step lemma cover ...
	Desc   string
	Prefix int
	PC     Term
	Goal   Term
	Cand   string
	Cover  bool // must NOT be provable (vacuity check)
	Props  []string
	Status string // proved unknown refuted
	Solver string
	Time   float64
	Output string
	Rank   int
	Alts   []Term // goals one of which is enough
}

func (x *Exec) emit(line string) { x.lines = append(x.lines, line) }

func (x *Exec) fresh(hint, sort string) Term {
	x.nfresh++
	n := fmt.Sprintf("%s!%d", mangle(hint), x.nfresh)
	x.emit("(declare-const " + n + " " + sort + ")")
	return Term{n, sort}
}

// define names a term (a total definition, hence unguarded).
func (x *Exec) define(hint string, t Term) Term {
	if len(t.S) < 40 || strings.Contains(t.S, "!b") {
		return t
	}
	if n, ok := x.defs[t.S]; ok {
		return Term{n, t.Sort}
	}
	x.nfresh++
	n := fmt.Sprintf("%s!%d", mangle(hint), x.nfresh)
	x.defs[t.S] = n
	x.defBody[n] = t.S
	x.emit("(define-fun " + n + " () " + t.Sort + " " + t.S + ")")
	r := Term{n, t.Sort}
	if v, ok := x.dynOf[t.S]; ok {
		x.dynOf[n] = v
	}
	if v, ok := x.fnReg[t.S]; ok {
		x.fnReg[n] = v
	}
	if v, ok := x.ptrReg[t.S]; ok {
		x.ptrReg[n] = v
	}
	return r
}

func (x *Exec) defineVal(hint string, v Val) Val {
	switch v := v.(type) {
	case Scalar:
		return Scalar{x.define(hint, v.T)}
	case Slice:
		return Slice{x.define(hint+".b", v.Base), x.define(hint+".o", v.Off), x.define(hint+".l", v.Len), x.define(hint+".c", v.Cap)}
	case Struct:
		out := Struct{}
		for _, f := range v.F {
			out.F = append(out.F, x.defineVal(hint, f))
		}
		return out
	case Tuple:
		out := Tuple{}
		for _, f := range v.E {
			out.E = append(out.E, x.defineVal(hint, f))
		}
		return out
	case Ptr:
		v.Ref = x.define(hint, v.Ref)
		if v.K == PElem {
			v.Idx = x.define(hint, v.Idx)
		}
		return v
	}
	return v
}

func (x *Exec) declareFun(name string, args []string, ret string) {
	if x.declared[name] {
		return
	}
	x.declared[name] = true
	x.emit("(declare-fun " + name + " (" + strings.Join(args, " ") + ") " + ret + ")")
}

func (x *Exec) assumeTop(t Term) {
	if t.S == "true" {
		return
	}
	if x.factSeen[t.S] {
		return
	}
	x.factSeen[t.S] = true
	x.emit("(assert " + t.S + ")")
}

func (x *Exec) assume(st *State, t Term) {
	if t.S == "true" {
		return
	}
	x.assumeTop(Imp(st.pc, t))
}

// ---- references ----

func (x *Exec) subRef(styp, field string, ref Term) Term {
	f := "sub$" + mangle(styp) + "$" + mangle(field)
	if !x.declared[f] {
		x.declareFun(f, []string{SInt}, SInt)
		x.declareFun("inv"+f, []string{SInt}, SInt)
		x.declareFun("root", []string{SInt}, SInt)
		x.declareFun("subkind", []string{SInt}, SInt)
		x.nsub++
		id := TI(int64(x.nsub))
		x.emit(fmt.Sprintf("(assert (forall ((r Int)) (! (and (= (root (%s r)) (root r)) (= (inv%s (%s r)) r) (not (= (%s r) 0)) (= (subkind (%s r)) %s)) :pattern ((%s r)))))", f, f, f, f, f, id.S, f))
	}
	t := x.define("sub", app(SInt, f, ref))
	if x.subs == nil {
		x.subs = map[string]subInfo{}
	}
	x.subs[t.S] = subInfo{styp, field, ref}
	return t
}

func (x *Exec) root(r Term) Term {
	x.declareFun("root", []string{SInt}, SInt)
	return app(SInt, "root", r)
}

func (x *Exec) newRef(st *State, hint string) Term {
	r := x.define("ref_"+hint, Add(st.alloc, TI(1)))
	// always a fresh name so that registries do not collide
	if !strings.Contains(r.S, "ref_") {
		n := x.fresh("ref_"+hint, SInt)
		x.assumeTop(Eq(n, Add(st.alloc, TI(1))))
		r = n
	}
	x.declareFun("subkind", []string{SInt}, SInt)
	x.assumeTop(And(Eq(x.root(r), r), Eq(app(SInt, "subkind", r), TI(0))))
	st.alloc = r
	x.freshRefs[r.S] = true
	if h, ok := st.heaps[spreadHeap]; ok {
		x.assume(st, Not(Sel(h, r)))
	}
	return r
}

// resolve follows definitions and reads of earlier writes to the term that was written, when
// the chain of writes determines it (writes to other objects allocated here are skipped).
func (x *Exec) resolve(t Term) Term {
	for n := 0; n < 64; n++ {
		if b, ok := x.defBody[t.S]; ok {
			t = Term{b, t.Sort}
			continue
		}
		if !strings.HasPrefix(t.S, "(select ") {
			return t
		}
		p := splitArgs(t.S)
		if len(p) != 3 {
			return t
		}
		h, r := p[1], p[2]
		found := false
		for m := 0; m < 256; m++ {
			if b, ok := x.defBody[h]; ok {
				h = b
				continue
			}
			if !strings.HasPrefix(h, "(store ") {
				return t
			}
			q := splitArgs(h)
			if len(q) != 4 {
				return t
			}
			if q[2] == r {
				t = Term{q[3], t.Sort}
				found = true
				break
			}
			if !x.freshRefs[q[2]] || !x.freshRefs[r] {
				return t
			}
			h = q[1]
		}
		if !found {
			return t
		}
	}
	return t
}

// ---- heaps ----

func (x *Exec) heap(st *State, name, sort string) Term {
	if t, ok := st.heaps[name]; ok {
		return t
	}
	if t, ok := x.heap0[name]; ok {
		st.heaps[name] = t
		return t
	}
	x.heapSort[name] = sort
	n := "H0$" + mangle(name)
	x.emit("(declare-const " + n + " " + sort + ")")
	t := Term{n, sort}
	x.heap0[name] = t
	st.heaps[name] = t
	return t
}

func (x *Exec) setHeap(st *State, name string, t Term) {
	st.heaps[name] = x.define("h$"+name, t)
}

func fieldHeap(styp, leafPath string) string { return "F:" + styp + leafPath }

// loadLeaves reads all leaves of type t at pointer p.
func (x *Exec) loadPtr(st *State, p Ptr) Val {
	switch p.K {
	case PObj:
		return x.loadObj(st, p.To, p.Ref)
	case PField:
		var ts []Term
		for _, l := range leavesOf(p.To) {
			h := x.heap(st, fieldHeap(p.St, "."+p.Path+l.Path), arr(SInt, l.Sort))
			t := x.define("ld", Sel(h, p.Ref))
			ts = append(ts, t)
		}
		v := x.build(p.To, ts)
		x.wf(st, p.To, ts)
		return v
	case PCell:
		var ts []Term
		for _, l := range leavesOf(p.To) {
			h := x.heap(st, "C:"+typeKey(p.To)+l.Path, arr(SInt, l.Sort))
			ts = append(ts, x.define("ld", Sel(h, p.Ref)))
		}
		v := x.build(p.To, ts)
		x.wf(st, p.To, ts)
		return v
	case PElem:
		var ts []Term
		for _, l := range leavesOf(p.To) {
			h := x.heap(st, "E:"+typeKey(p.Elem)+p.Path+l.Path, arr(SInt, arr(SInt, l.Sort)))
			ts = append(ts, x.define("ld", Sel(x.rowOf(h, p.Ref), p.Idx)))
		}
		v := x.build(p.To, ts)
		x.wf(st, p.To, ts)
		x.logAccess(st, false, typeKey(p.Elem), p.Ref, p.Idx, Add(p.Idx, TI(1)))
		return v
	}
	panic(unsup("load through array pointer"))
}

func (x *Exec) rowOf(h, base Term) Term { return Sel(h, base) }

func (x *Exec) loadObj(st *State, t types.Type, ref Term) Val {
	if isOpaqueStruct(t) {
		h := x.heap(st, "O:"+typeKey(t), arr(SInt, SInt))
		return Scalar{x.define("ld", Sel(h, ref))}
	}
	u := t.Underlying().(*types.Struct)
	out := Struct{}
	for i := 0; i < u.NumFields(); i++ {
		out.F = append(out.F, x.loadPtr(st, x.fieldPtr(t, i, ref)))
	}
	return out
}

// fieldPtr is the address of field i of the struct object at ref.
func (x *Exec) fieldPtr(t types.Type, i int, ref Term) Ptr {
	u := t.Underlying().(*types.Struct)
	f := u.Field(i)
	if isStruct(f.Type()) || isOpaqueStruct(f.Type()) {
		return Ptr{K: PObj, Ref: x.subRef(typeKey(t), f.Name(), ref), To: f.Type(), Elem: f.Type()}
	}
	return Ptr{K: PField, Ref: ref, To: f.Type(), Elem: f.Type(), Path: f.Name(), St: typeKey(t)}
}

func (x *Exec) storePtr(st *State, p Ptr, v Val) {
	x.guardChange(st, p, func() { x.storeAt(st, p, v) })
}

func (x *Exec) storeAt(st *State, p Ptr, v Val) {
	switch p.K {
	case PObj:
		if isOpaqueStruct(p.To) {
			n := "O:" + typeKey(p.To)
			h := x.heap(st, n, arr(SInt, SInt))
			x.setHeap(st, n, Store(h, p.Ref, x.term(v)))
			return
		}
		u := p.To.Underlying().(*types.Struct)
		s, ok := v.(Struct)
		if !ok {
			panic(unsup("store of %T into struct", v))
		}
		for i := 0; i < u.NumFields(); i++ {
			x.storePtr(st, x.fieldPtr(p.To, i, p.Ref), s.F[i])
		}
	case PField:
		ts := x.flatten(v)
		x.guardWrite(st, p)
		for k, l := range leavesOf(p.To) {
			n := fieldHeap(p.St, "."+p.Path+l.Path)
			h := x.heap(st, n, arr(SInt, l.Sort))
			x.setHeap(st, n, Store(h, p.Ref, ts[k]))
		}
		x.logStore(st, "F:"+p.St+"."+p.Path, p.Ref)
		x.parCellWrite(st, p)
	case PCell:
		ts := x.flatten(v)
		for k, l := range leavesOf(p.To) {
			n := "C:" + typeKey(p.To) + l.Path
			h := x.heap(st, n, arr(SInt, l.Sort))
			x.setHeap(st, n, Store(h, p.Ref, ts[k]))
		}
		x.logStore(st, "C:"+typeKey(p.To), p.Ref)
		x.parCellWrite(st, p)
		x.spreadWrite(st, p)
	case PElem:
		ts := x.flatten(v)
		for k, l := range leavesOf(p.To) {
			n := "E:" + typeKey(p.Elem) + p.Path + l.Path
			h := x.heap(st, n, arr(SInt, arr(SInt, l.Sort)))
			x.setHeap(st, n, Store(h, p.Ref, Store(x.rowOf(h, p.Ref), p.Idx, ts[k])))
		}
		x.logStore(st, "E:"+typeKey(p.Elem), p.Ref)
		x.logAccess(st, true, typeKey(p.Elem), p.Ref, p.Idx, Add(p.Idx, TI(1)))
	default:
		panic(unsup("store through array pointer"))
	}
}

// zeroInit assumes that a freshly allocated location holds zero values.
func (x *Exec) zeroInit(st *State, p Ptr) {
	switch p.K {
	case PObj:
		if isOpaqueStruct(p.To) {
			h := x.heap(st, "O:"+typeKey(p.To), arr(SInt, SInt))
			x.assume(st, Eq(Sel(h, p.Ref), TI(0)))
			return
		}
		u := p.To.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			x.zeroInit(st, x.fieldPtr(p.To, i, p.Ref))
		}
	case PField:
		for _, l := range leavesOf(p.To) {
			h := x.heap(st, fieldHeap(p.St, "."+p.Path+l.Path), arr(SInt, l.Sort))
			x.assume(st, Eq(Sel(h, p.Ref), zeroOf(l.Sort)))
		}
	case PCell:
		for _, l := range leavesOf(p.To) {
			h := x.heap(st, "C:"+typeKey(p.To)+l.Path, arr(SInt, l.Sort))
			x.assume(st, Eq(Sel(h, p.Ref), zeroOf(l.Sort)))
		}
	}
}

func constArr(sort string, v Term) Term {
	return Term{"((as const " + sort + ") " + v.S + ")", sort}
}

func (x *Exec) zeroRows(st *State, elem types.Type, base Term) {
	for _, l := range leavesOf(elem) {
		h := x.heap(st, "E:"+typeKey(elem)+l.Path, arr(SInt, arr(SInt, l.Sort)))
		x.assume(st, Eq(Sel(h, base), constArr(arr(SInt, l.Sort), zeroOf(l.Sort))))
	}
}

// wf assumes the well-formedness of leaf terms of type t in state st.
func (x *Exec) wf(st *State, t types.Type, ts []Term) {
	ls := leavesOf(t)
	for i, l := range ls {
		tm := ts[i]
		if strings.Contains(tm.S, "!b") {
			continue
		}
		switch l.Ref {
		case 'b':
			if strings.HasSuffix(l.Path, ".b") && i+3 < len(ls) && strings.HasSuffix(ls[i+3].Path, ".c") {
				b, o, n, c := ts[i], ts[i+1], ts[i+2], ts[i+3]
				x.assume(st, And(Le(TI(0), b), Le(b, st.alloc), Le(TI(0), o), Le(TI(0), n), Le(n, c), Imp(Eq(b, TI(0)), Eq(c, TI(0)))))
				continue
			}
			x.assume(st, And(Le(TI(0), tm), Le(tm, st.alloc)))
		case 'p':
			x.assume(st, Le(x.root(tm), st.alloc))
			x.assumeTop(Eq(x.root(TI(0)), TI(0)))
		}
	}
}

func (x *Exec) freshVal(st *State, hint string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		out := Tuple{}
		for i := 0; i < tp.Len(); i++ {
			out.E = append(out.E, x.freshVal(st, hint, tp.At(i).Type()))
		}
		return out
	}
	var ts []Term
	for _, l := range leavesOf(t) {
		ts = append(ts, x.fresh(hint+l.Path, l.Sort))
	}
	x.wf(st, t, ts)
	if isUnsigned(t) {
		x.assume(st, Le(TI(0), ts[0]))
	}
	return x.build(t, ts)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// ---- merging ----

type inEdge struct {
	from int // predecessor index for phis
	st   *State
}

func (x *Exec) mergeStates(ins []inEdge) *State {
	var live []inEdge
	for _, e := range ins {
		if e.st != nil && e.st.pc.S != "false" {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return live[0].st.clone()
	}
	var pcs []Term
	for _, e := range live {
		pcs = append(pcs, e.st.pc)
	}
	out := &State{heaps: map[string]Term{}}
	pc := Or(pcs...)
	// factor (and p c) (and p (not c))
	out.pc = x.define("pc", simplifyOr(pcs, pc))
	names := map[string]bool{}
	for _, e := range live {
		for k := range e.st.heaps {
			names[k] = true
		}
	}
	var order []string
	for k := range names {
		order = append(order, k)
	}
	sort.Strings(order)
	for _, k := range order {
		first := x.heapIn(live[0].st, k)
		same := true
		for _, e := range live[1:] {
			if x.heapIn(e.st, k).S != first.S {
				same = false
			}
		}
		if same {
			out.heaps[k] = first
			continue
		}
		t := x.heapIn(live[len(live)-1].st, k)
		for i := len(live) - 2; i >= 0; i-- {
			t = Ite(live[i].st.pc, x.heapIn(live[i].st, k), t)
		}
		out.heaps[k] = x.define("hm$"+k, t)
	}
	al := live[len(live)-1].st.alloc
	for i := len(live) - 2; i >= 0; i-- {
		al = Ite(live[i].st.pc, live[i].st.alloc, al)
	}
	out.alloc = x.define("alloc", al)
	// defers: union preserving order
	for _, e := range live {
		for _, d := range e.st.defers {
			found := false
			for _, o := range out.defers {
				if o == d {
					found = true
				}
			}
			if !found {
				out.defers = append(out.defers, d)
			}
		}
	}
	return out
}

func (x *Exec) heapIn(st *State, k string) Term {
	if t, ok := st.heaps[k]; ok {
		return t
	}
	return x.heap0[k]
}

func simplifyOr(pcs []Term, def Term) Term {
	if len(pcs) == 2 {
		a, b := pcs[0].S, pcs[1].S
		if strings.HasPrefix(a, "(and ") && strings.HasPrefix(b, "(and ") {
			pa, pb := splitArgs(a), splitArgs(b)
			if len(pa) == 3 && len(pb) == 3 && pa[1] == pb[1] {
				if Not(Term{pa[2], SBool}).S == pb[2] || Not(Term{pb[2], SBool}).S == pa[2] {
					return Term{pa[1], SBool}
				}
			}
		}
	}
	return def
}

func (x *Exec) mergeVals(ins []inEdge, vals []Val) Val {
	var out Val
	for i := len(ins) - 1; i >= 0; i-- {
		if ins[i].st == nil || ins[i].st.pc.S == "false" || vals[i] == nil {
			continue
		}
		if out == nil {
			out = vals[i]
		} else {
			out = x.iteVal(ins[i].st.pc, vals[i], out)
		}
	}
	return out
}
