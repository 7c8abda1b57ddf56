package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parCtx collects the memory accesses of one generic piece of a parallel call.
type parCtx struct {
	start        Term // allocation counter when the piece starts
	lo, hi, rank Term
	rng, rnk     map[string][]Term
	wr           map[string]bool
	where        string
	fr           *Frame
	in           ssa.Instruction
}

func (x *Exec) shared(b Term) Term {
	// allocated before the piece started
	return Le(b, x.par.start)
}

// logAccess records an access to slice storage inside a parallel piece.
func (x *Exec) logAccess(st *State, write bool, elem string, base, lo, hi Term) {
	if x.par == nil || strings.Contains(base.S, "!b") {
		return
	}
	p := x.par
	// accesses to storage allocated by the calling function: in the piece's own range or at its own rank
	g := And(st.pc, x.shared(base), Lt(x.alloc0, base), Lt(lo, hi))
	p.rng[elem] = append(p.rng[elem], Imp(g, And(Le(p.lo, lo), Le(hi, p.hi))))
	p.rnk[elem] = append(p.rnk[elem], Imp(g, And(Le(p.rank, lo), Le(hi, Add(p.rank, TI(1))))))
	if write {
		p.wr[elem] = true
		x.check(st, "safe", x.topKey()+"/race:caller-data@"+p.where, "a parallel piece writes no storage that existed before the call ("+elem+")",
			Or(Not(x.shared(base)), Lt(x.alloc0, base)))
	}
}

// parCellWrite: variables, fields and maps written by a piece are its own.
func (x *Exec) parCellWrite(st *State, p Ptr) {
	if x.par == nil {
		return
	}
	r := p.Ref
	if p.K == PField || p.K == PObj {
		r = x.root(r)
	}
	x.check(st, "safe", x.topKey()+"/race:shared-variable@"+x.par.where, "a parallel piece writes no shared variable", Not(x.shared(r)))
}

// parArgs: what a piece hands to a function under contract is not written by other pieces.
func (x *Exec) parArgs(st *State, in ssa.Instruction, c *Contract, args []Val, ts []types.Type) {
	if x.par == nil {
		return
	}
	var chk func(v Val, t types.Type)
	chk = func(v Val, t types.Type) {
		if p, ok := v.(Ptr); ok {
			switch p.K {
			case PCell:
				x.guardRead(st, p)
				chk(x.loadPtr(st, p), p.To)
				return
			case PObj:
				r := x.root(p.Ref)
				x.check(st, "safe", x.topKey()+"/race:argument@"+x.par.where, "argument of "+c.Key+" is not shared with other pieces", Or(Not(x.shared(r)), Le(r, x.alloc0)))
				return
			}
			x.check(st, "safe", x.topKey()+"/race:argument@"+x.par.where, "argument of "+c.Key+" is not shared with other pieces", Or(Not(x.shared(p.Ref)), Le(p.Ref, x.alloc0)))
			return
		}
		ls := leavesOf(t)
		fl := x.flatten(v)
		if len(ls) != len(fl) {
			return
		}
		for k, l := range ls {
			if l.Ref == 'b' {
				x.check(st, "safe", x.topKey()+"/race:argument@"+x.par.where, "argument of "+c.Key+" is not shared with other pieces", Or(Not(x.shared(fl[k])), Le(fl[k], x.alloc0)))
			}
		}
	}
	for i, a := range args {
		if _, ok := a.(Func); ok {
			continue
		}
		chk(a, ts[i])
	}
}

// callPar is a call of core.Par: by its contract the function is called once per rank on
// contiguous ranges that partition the indexes; the pieces do not interfere (checked here), so
// that their joint effect is the one of running them one after the other.
func (x *Exec) callPar(fr *Frame, st *State, in ssa.Instruction, c *Contract, args []Val) Val {
	x.usedC[c.Key] = true
	f, ok := args[0].(Func)
	if !ok {
		f, ok = x.fnReg[x.term(args[0]).S]
	}
	if !ok || f.Fn == nil {
		panic(unsup("core.Par with an unknown function"))
	}
	if x.par != nil {
		panic(unsup("nested core.Par"))
	}
	size, deg := x.term(args[1]), x.term(args[2])
	vars := map[string]SV{}
	for i, n := range c.Params {
		vars[n] = SV{V: args[i], T: in.(*ssa.Call).Call.Args[i].Type()}
	}
	env := &SEnv{x: x, vars: vars, st: st, old: st, pol: 1}
	for k, r := range c.Requires {
		if len(r.Props) > 0 {
			continue // about the ghost state of the runner itself
		}
		x.check(st, "pre", fmt.Sprintf("%s/pre:%s#%d", x.topKey(), c.Key, k+1), "precondition of "+c.Key+" at "+x.posOf(in)+": "+r.Src, env.boolean(r.E))
	}
	pb := x.fresh("pb", arr(SInt, SInt))
	x.heapSort["g:pb"] = arr(SInt, SInt)
	if _, ok := x.heap0["g:pb"]; !ok {
		x.heap(st, "g:pb", arr(SInt, SInt))
	}
	st.heaps["g:pb"] = pb
	x.nbound++
	b := fmt.Sprintf("r!b%d", x.nbound)
	x.assume(st, And(Eq(Sel(pb, TI(0)), TI(0)), Eq(Sel(pb, deg), size)))
	x.assume(st, Term{fmt.Sprintf("(forall ((%s Int)) (! (=> (and (<= 0 %s) (<= %s %s)) (and (<= 0 (select %s %s)) (<= (select %s %s) %s))) :pattern ((select %s %s))))", b, b, b, deg.S, pb.S, b, pb.S, b, size.S, pb.S, b), SBool})
	b2 := b + "q"
	x.assume(st, Term{fmt.Sprintf("(forall ((%[1]s Int) (%[2]s Int)) (! (=> (and (<= 0 %[1]s) (<= %[1]s %[2]s) (<= %[2]s %[3]s)) (<= (select %[4]s %[1]s) (select %[4]s %[2]s))) :pattern ((select %[4]s %[1]s) (select %[4]s %[2]s))))", b, b2, deg.S, pb.S), SBool})
	// pseudo-loop over the ranks
	fr.ncall++
	id := fmt.Sprintf("%s/P%d", fr.path, fr.ncall)
	key := in.(ssa.Value)
	x.parKey = key
	l := x.loopHead(fr, in.Block(), id, st, nil, map[ssa.Value]Val{key: Scalar{TI(0)}})
	head := l.head
	rk := x.term(x.parRank)
	x.assume(head, And(Le(TI(0), rk), Le(rk, deg)))
	x.parKey = nil
	body := head.clone()
	body.pc = x.define("pc", And(head.pc, Lt(rk, deg)))
	lo, hi := x.define("plo", Sel(pb, rk)), x.define("phi", Sel(pb, Add(rk, TI(1))))
	x.assume(body, Le(lo, hi))
	x.par = &parCtx{start: body.alloc, lo: lo, hi: hi, rank: rk, rng: map[string][]Term{}, rnk: map[string][]Term{}, wr: map[string]bool{}, where: x.where(fr), fr: fr, in: in}
	x.inline(fr, body, in, f, []Val{Scalar{lo}, Scalar{hi}, Scalar{rk}})
	p := x.par
	x.par = nil
	var ks []string
	for k := range p.wr {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s := body.clone()
		s.pc = TTrue
		x.check(s, "safe", x.topKey()+"/race:"+k+"@"+p.where, "concurrent pieces access shared "+k+" only in their own range or at their own rank", Or(And(p.rng[k]...), And(p.rnk[k]...)))
	}
	if !body.dead && body.pc.S != "false" {
		x.loopBackWith(l, body, map[ssa.Value]Val{key: Scalar{Add(rk, TI(1))}})
	}
	out := head.clone()
	out.pc = x.define("pc", And(head.pc, Eq(rk, deg)))
	out.heaps["g:pb"] = pb
	d := st.defers
	*st = *out
	st.defers = d
	return nil
}

// ---- go statements ----

const spreadHeap = "g:spread"

// doGo runs the goroutine's body at the go statement. The bodies in reach only touch ghost
// state (checked) and never read a variable that is written after the statement (checked).
func (x *Exec) doGo(fr *Frame, st *State, i *ssa.Go) {
	fn, args := x.callParts(fr, st, &i.Call)
	if f, ok := fn.(Func); ok && f.Fn != nil && !i.Call.IsInvoke() {
		if ct := x.contractFor(f.Fn); ct != nil && ct.Flags["spawn"] != "" {
			var ts []types.Type
			for _, p := range f.Fn.Params {
				ts = append(ts, p.Type())
			}
			x.spawn(fr, st, i, ct, args, ts)
			return
		}
	}
	if _, ok := x.eng.sp.Ghosts["spawn"]; !ok {
		panic(unsup("go statement"))
	}
	h := x.ghost(st, "spawn")
	st.heaps["g:spawn"] = x.define("spawn", Add(h, TI(1)))
	mine := x.ghost(st, "mine")
	st.heaps["g:mine"] = TI(0)
	x.heap(st, spreadHeap, arr(SInt, SBool))
	old := st.clone()
	x.goMode = true
	pc := st.pc
	x.invoke(fr, st, i, &i.Call, fn, args)
	x.goMode = false
	if st.dead {
		st.dead = false
		st.pc = pc
	}
	st.pc = pc
	st.heaps["g:mine"] = mine
	var hs []string
	for k := range st.heaps {
		hs = append(hs, k)
	}
	sort.Strings(hs)
	for _, k := range hs {
		if strings.HasPrefix(k, "g:") || strings.HasSuffix(k, ":sync.WaitGroup") || x.heapIn(old, k).S == st.heaps[k].S {
			continue
		}
		r := x.fresh("go", SInt)
		x.check(st, "safe", x.topKey()+"/goroutine-writes:"+k, "a goroutine started here writes no shared memory", Imp(Le(x.frameRef(k, r), old.alloc), Eq(Sel(st.heaps[k], r), Sel(x.heapIn(old, k), r))))
	}
}

func (x *Exec) guardRead(st *State, p Ptr) {
	if x.goMode && p.K == PCell {
		h := x.heap(st, spreadHeap, arr(SInt, SBool))
		st.heaps[spreadHeap] = x.define("spread", Store(h, p.Ref, TTrue))
	}
	x.lockRead(st, p)
}

func (x *Exec) spreadWrite(st *State, p Ptr) {
	if x.goMode {
		return
	}
	h, ok := st.heaps[spreadHeap]
	if !ok {
		return
	}
	x.check(st, "safe", x.topKey()+"/race:captured-variable", "no variable read by a started goroutine is written afterwards", Not(Sel(h, p.Ref)))
}
