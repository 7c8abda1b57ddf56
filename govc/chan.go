package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels are queues: rows of the elements ever sent (one per leaf of the element type),
// the numbers of elements received and sent, the capacity. A blocking operation that cannot
// proceed blocks for ever (partial correctness): the state after it satisfies its condition.

type chanQ struct{ row, head, tail, cap, closed Term }

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

func (x *Exec) qHeap(st *State, kind string) Term {
	if kind == "closed" {
		return x.heap(st, "Q:closed", arr(SInt, SBool))
	}
	return x.heap(st, "Q:"+kind, arr(SInt, SInt))
}

func qRow(t types.Type, l leaf) string { return "Q:row:" + typeKey(t) + l.Path }

func (x *Exec) queueOf(st *State, t types.Type, ref Term) chanQ {
	el := chanElem(t)
	l := leavesOf(el)[0]
	q := chanQ{
		row:    Sel(x.heap(st, qRow(el, l), arr(SInt, arr(SInt, l.Sort))), ref),
		head:   Sel(x.qHeap(st, "head"), ref),
		tail:   Sel(x.qHeap(st, "tail"), ref),
		cap:    Sel(x.qHeap(st, "cap"), ref),
		closed: Sel(x.qHeap(st, "closed"), ref),
	}
	return q
}

func (x *Exec) queue(st *State, v SV) chanQ { return x.queueOf(st, v.T, x.term(v.V)) }

// qfacts: what always holds of a queue
func (x *Exec) qfacts(st *State, q chanQ) {
	x.assume(st, And(Le(TI(0), q.head), Le(q.head, q.tail), Le(TI(0), q.cap), Le(Sub(q.tail, q.head), q.cap)))
}

func (x *Exec) makeChan(st *State, i *ssa.MakeChan, r, size Term) {
	x.assume(st, Le(TI(0), size))
	x.setHeap(st, "Q:head", Store(x.qHeap(st, "head"), r, TI(0)))
	x.setHeap(st, "Q:tail", Store(x.qHeap(st, "tail"), r, TI(0)))
	x.setHeap(st, "Q:cap", Store(x.qHeap(st, "cap"), r, size))
	x.setHeap(st, "Q:closed", Store(x.qHeap(st, "closed"), r, TFalse))
	x.logQ(st, chanElem(i.Type()), r)
}

func (x *Exec) logQ(st *State, el types.Type, r Term) {
	for _, k := range []string{"head", "tail", "cap", "closed"} {
		x.logStore(st, "Q:"+k, r)
	}
	for _, l := range leavesOf(el) {
		x.logStore(st, heapGroup(qRow(el, l)), r)
	}
}

// qPut, qGet: effects of a send and of a receive under a condition
func (x *Exec) qPut(st *State, cond Term, el types.Type, r Term, v Val) {
	tail := Sel(x.qHeap(st, "tail"), r)
	ts := x.flatten(v)
	for k, l := range leavesOf(el) {
		n := qRow(el, l)
		h := x.heap(st, n, arr(SInt, arr(SInt, l.Sort)))
		x.setHeap(st, n, Ite(cond, Store(h, r, Store(Sel(h, r), tail, ts[k])), h))
	}
	h := x.qHeap(st, "tail")
	x.setHeap(st, "Q:tail", Ite(cond, Store(h, r, Add(tail, TI(1))), h))
	x.logQ(st, el, r)
}

func (x *Exec) qGet(st *State, cond Term, el types.Type, r Term) Val {
	head := Sel(x.qHeap(st, "head"), r)
	some := Lt(head, Sel(x.qHeap(st, "tail"), r))
	zero := x.flatten(x.zero(el))
	var ts []Term
	for k, l := range leavesOf(el) {
		h := x.heap(st, qRow(el, l), arr(SInt, arr(SInt, l.Sort)))
		ts = append(ts, x.define("rcv", Ite(some, Sel(Sel(h, r), head), zero[k])))
	}
	h := x.qHeap(st, "head")
	x.setHeap(st, "Q:head", Ite(And(cond, some), Store(h, r, Add(head, TI(1))), h))
	x.logQ(st, el, r)
	v := x.build(el, ts)
	x.wf(st, el, x.flatten(v))
	return v
}

func (x *Exec) chanSend(fr *Frame, st *State, in ssa.Instruction, ch Val, cv ssa.Value, v Val) {
	if ct := x.chanContract(cv, "send"); ct != nil {
		x.applyContract(fr, st, in, ct, []Val{ch, v}, []types.Type{cv.Type(), chanElem(cv.Type())}, types.NewTuple())
		return
	}
	el := chanElem(cv.Type())
	r := x.term(ch)
	q := x.queueOf(st, cv.Type(), r)
	x.qfacts(st, q)
	x.safe(st, fr, in, "send-on-closed-channel", Not(q.closed))
	// a send on a nil or full channel blocks
	x.assume(st, And(Not(Eq(r, TI(0))), Lt(Sub(q.tail, q.head), q.cap)))
	x.qPut(st, TTrue, el, r, v)
}

func (x *Exec) chanRecv(fr *Frame, st *State, in ssa.Instruction, ch Val, cv ssa.Value, ok bool) Val {
	el := chanElem(cv.Type())
	if ct := x.chanContract(cv, "recv"); ct != nil {
		r := x.applyContract(fr, st, in, ct, []Val{ch}, []types.Type{cv.Type()}, recvType(el)).(Tuple)
		if ok {
			return r
		}
		return r.E[0]
	}
	r := x.term(ch)
	q := x.queueOf(st, cv.Type(), r)
	x.qfacts(st, q)
	some := x.define("some", Lt(q.head, q.tail))
	x.assume(st, And(Not(Eq(r, TI(0))), Or(some, q.closed)))
	v := x.qGet(st, TTrue, el, r)
	if ok {
		return Tuple{[]Val{v, Scalar{some}}}
	}
	return v
}

func (x *Exec) chanClose(fr *Frame, st *State, in ssa.Instruction, ch Val, cv ssa.Value) {
	if ct := x.chanContract(cv, "close"); ct != nil {
		x.applyContract(fr, st, in, ct, []Val{ch}, []types.Type{cv.Type()}, types.NewTuple())
		return
	}
	r := x.term(ch)
	x.safe(st, fr, in, "close-of-nil-channel", Not(Eq(r, TI(0))))
	x.safe(st, fr, in, "close-of-closed-channel", Not(Sel(x.qHeap(st, "closed"), r)))
	x.setHeap(st, "Q:closed", Store(x.qHeap(st, "closed"), r, TTrue))
	x.logQ(st, chanElem(cv.Type()), r)
}

func (x *Exec) havocChan(st *State, v SV) {
	el := chanElem(v.T)
	r := x.term(v.V)
	for _, l := range leavesOf(el) {
		n := qRow(el, l)
		h := x.heap(st, n, arr(SInt, arr(SInt, l.Sort)))
		x.setHeap(st, n, Store(h, r, x.fresh("qrow", arr(SInt, l.Sort))))
	}
	for _, k := range []string{"head", "tail"} {
		x.setHeap(st, "Q:"+k, Store(x.qHeap(st, k), r, x.fresh("q"+k, SInt)))
	}
	x.setHeap(st, "Q:closed", Store(x.qHeap(st, "closed"), r, x.fresh("qclosed", SBool)))
	x.qfacts(st, x.queueOf(st, v.T, r))
	x.logQ(st, el, r)
}

func recvType(el types.Type) types.Type {
	return types.NewTuple(types.NewVar(0, nil, "", el), types.NewVar(0, nil, "", types.Typ[types.Bool]))
}

// selectContract: a select statement whose channels are under contract takes any of its cases.
func (x *Exec) selectContract(fr *Frame, st *State, i *ssa.Select) Val {
	idx := x.fresh("select", SInt)
	var ins []inEdge
	var vals []Val
	recv := 0
	for _, s := range i.States {
		if s.Dir != types.SendOnly {
			recv++
		}
	}
	lo := 0
	if !i.Blocking {
		lo = -1
	}
	try := ""
	if !i.Blocking {
		try = "try"
	}
	old := st.pc
	for k := lo; k < len(i.States); k++ {
		s := st.clone()
		s.pc = x.define("pc", And(st.pc, Eq(idx, TI(int64(k)))))
		out := Tuple{[]Val{Scalar{TI(int64(k))}, Scalar{TFalse}}}
		for j, c := range i.States {
			el := chanElem(c.Chan.Type())
			ch := x.value(fr, c.Chan)
			if c.Dir == types.SendOnly {
				if j == k {
					ct := x.chanContract(c.Chan, try+"send")
					if ct == nil {
						panic(unsup("select with a channel without contract"))
					}
					x.applyContract(fr, s, i, ct, []Val{ch, x.value(fr, c.Send)}, []types.Type{c.Chan.Type(), el}, types.NewTuple())
				}
				continue
			}
			if j == k {
				ct := x.chanContract(c.Chan, try+"recv")
				if ct == nil {
					panic(unsup("select with a channel without contract"))
				}
				r := x.applyContract(fr, s, i, ct, []Val{ch}, []types.Type{c.Chan.Type()}, recvType(el)).(Tuple)
				out.E[1] = r.E[1]
				out.E = append(out.E, r.E[0])
				continue
			}
			out.E = append(out.E, x.zero(el))
		}
		ins = append(ins, inEdge{0, s})
		vals = append(vals, out)
	}
	x.assume(st, And(Le(TI(int64(lo)), idx), Lt(idx, TI(int64(len(i.States))))))
	v := x.joinInto(st, ins, vals)
	st.pc = old
	return v
}

func (x *Exec) selectStmt(fr *Frame, st *State, i *ssa.Select) Val {
	for _, s := range i.States {
		op := "recv"
		if s.Dir == types.SendOnly {
			op = "send"
		}
		if x.chanContract(s.Chan, op) != nil {
			return x.selectContract(fr, st, i)
		}
	}
	idx := x.fresh("select", SInt)
	var ready []Term
	type sc struct {
		r    Term
		el   types.Type
		some Term
	}
	var cs []sc
	for _, s := range i.States {
		r := x.term(x.value(fr, s.Chan))
		q := x.queueOf(st, s.Chan.Type(), r)
		x.qfacts(st, q)
		some := x.define("some", Lt(q.head, q.tail))
		if s.Dir == types.SendOnly {
			ready = append(ready, And(Not(Eq(r, TI(0))), Or(q.closed, Lt(Sub(q.tail, q.head), q.cap))))
		} else {
			ready = append(ready, And(Not(Eq(r, TI(0))), Or(some, q.closed)))
		}
		cs = append(cs, sc{r, chanElem(s.Chan.Type()), some})
	}
	var pick []Term
	for k, rd := range ready {
		pick = append(pick, And(Eq(idx, TI(int64(k))), rd))
	}
	if i.Blocking {
		x.assume(st, Or(pick...))
	} else {
		pick = append(pick, And(Eq(idx, TI(-1)), Not(Or(ready...))))
		x.assume(st, Or(pick...))
	}
	out := Tuple{[]Val{Scalar{idx}, nil}}
	okT := TFalse
	for k, s := range i.States {
		on := x.define("sel", Eq(idx, TI(int64(k))))
		if s.Dir == types.SendOnly {
			x.safe(st, fr, i, "send-on-closed-channel", Or(Not(on), Not(Sel(x.qHeap(st, "closed"), cs[k].r))))
			x.qPut(st, on, cs[k].el, cs[k].r, x.value(fr, s.Send))
			continue
		}
		v := x.qGet(st, on, cs[k].el, cs[k].r)
		okT = Or(okT, And(on, cs[k].some))
		out.E = append(out.E, v)
	}
	out.E[1] = Scalar{x.define("ok", okT)}
	return out
}
