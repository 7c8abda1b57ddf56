package main

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- locks ----
//
// The heap "g:lk" holds, for each mutex, how the current thread holds it: 0 not at all, 1 for
// reading, 2 for writing. Acquiring a mutex that guards fields forgets their values (another
// thread may have changed them), assumes the lock invariant, and keeps a snapshot that the
// specifications name acq(..); releasing it after a write lock checks the invariant and the
// step relation.

const lockHeap = "g:lk"

type subInfo struct {
	styp, field string
	ref         Term
}

func init() {
	for _, m := range []string{"RWMutex", "Mutex"} {
		for _, op := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			op := op
			intrinsics["sync.(*"+m+")."+op] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, args []Val, rt types.Type) Val {
				x.lockOp(fr, st, in, args[0], op)
				return nil
			}
		}
	}
}

func (x *Exec) locks(st *State) Term { return x.heap(st, lockHeap, arr(SInt, SInt)) }

func (x *Exec) lockOp(fr *Frame, st *State, in ssa.Instruction, m Val, op string) {
	r := x.asPtr(st, fr, in, m).Ref
	cur := Sel(x.locks(st), r)
	info, known := x.subs[r.S]
	name := "mutex"
	var g *Guard
	if known {
		name = info.styp + "." + info.field
		g = x.guardNamed(name)
	}
	at := "@" + x.where(fr)
	set := func(v int64) { x.setHeap(st, lockHeap, Store(x.locks(st), r, TI(v))) }
	switch op {
	case "Lock", "RLock":
		x.check(st, "lock", x.topKey()+"/acquired-once:"+name+at, op+" of "+name+" at "+x.posOf(in)+": it is not already held by this thread", Eq(cur, TI(0)))
		if g != nil {
			for _, b := range g.Before {
				o := x.subRef(info.styp, b[strings.LastIndex(b, ".")+1:], info.ref)
				x.check(st, "lock", x.topKey()+"/lock-order:"+name+at, op+" of "+name+" at "+x.posOf(in)+": "+b+" is not held", Eq(Sel(x.locks(st), o), TI(0)))
			}
		}
		v := int64(2)
		if op == "RLock" {
			v = 1
		}
		set(v)
		if g != nil {
			x.acquire(st, g, info)
		}
	case "Unlock":
		x.check(st, "lock", x.topKey()+"/released-once:"+name+at, "Unlock of "+name+" at "+x.posOf(in)+": it is held for writing", Eq(cur, TI(2)))
		if g != nil {
			x.release(st, g, info, at+" at "+x.posOf(in))
		}
		set(0)
	case "RUnlock":
		x.check(st, "lock", x.topKey()+"/released-once:"+name+at, "RUnlock of "+name+" at "+x.posOf(in)+": it is held for reading", Eq(cur, TI(1)))
		set(0)
	}
}

func (x *Exec) guardType(g *Guard) types.Type {
	return x.eng.typeByName(g.Mutex[:strings.LastIndex(g.Mutex, ".")])
}

func (x *Exec) guardEnv(st *State, g *Guard, info subInfo, pol int) *SEnv {
	t := x.guardType(g)
	self := SV{V: Ptr{K: PObj, Ref: info.ref, To: t, Elem: t}, T: types.NewPointer(t)}
	return &SEnv{x: x, vars: map[string]SV{"self": self}, st: st, old: x.entryOrTmp(), pol: pol}
}

// guardHeaps: the heaps that hold the guarded fields and the contents of guarded maps
func (x *Exec) guardHeaps(g *Guard) map[string]string {
	out := map[string]string{}
	t := x.guardType(g)
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if !g.has(u.Field(i).Name()) {
			continue
		}
		p := x.fieldPtr(t, i, TI(0))
		x.ptrHeaps(p, out)
		if mt, ok := p.To.Underlying().(*types.Map); ok {
			ks := leavesOf(mt.Key())[0].Sort
			out[mapHeap(p.To, "#dom")] = arr(SInt, arr(ks, SBool))
			for _, l := range leavesOf(mt.Elem()) {
				out[mapHeap(p.To, l.Path)] = arr(SInt, arr(ks, l.Sort))
			}
		}
	}
	return out
}

func (x *Exec) ptrHeaps(p Ptr, out map[string]string) {
	if p.K == PObj {
		if isOpaqueStruct(p.To) {
			out["O:"+typeKey(p.To)] = arr(SInt, SInt)
			return
		}
		for i := 0; i < p.To.Underlying().(*types.Struct).NumFields(); i++ {
			x.ptrHeaps(x.fieldPtr(p.To, i, p.Ref), out)
		}
		return
	}
	for _, l := range leavesOf(p.To) {
		out[fieldHeap(p.St, "."+p.Path+l.Path)] = arr(SInt, l.Sort)
	}
}

func (g *Guard) has(f string) bool {
	for _, n := range g.Fields {
		if n == f {
			return true
		}
	}
	return false
}

func (x *Exec) acquire(st *State, g *Guard, info subInfo) {
	a := x.fresh("alloc", SInt)
	x.assumeTop(Le(st.alloc, a))
	st.alloc = a
	x.havocGuarded(st, g, info, false)
	for _, e := range g.Acquires {
		h := x.ghost(st, e[2:])
		st.heaps["g:"+e[2:]] = x.fresh("g$"+e[2:], h.Sort)
	}
	env := x.guardEnv(st, g, info, -1)
	for _, e := range g.Inv {
		x.assume(st, env.boolean(e.E))
	}
	x.snapshot(st, g)
}

// snapshot records the state that the specifications name acq(..).
func (x *Exec) snapshot(st *State, g *Guard) {
	var hs []string
	gh := x.guardHeaps(g)
	for h := range gh {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	done := "B1:" + g.Mutex
	was := x.firstDone(st, g)
	for _, h := range hs {
		x.heap(st, "A:"+h, gh[h])
		st.heaps["A:"+h] = x.heap(st, h, gh[h])
		// B: the same, for the first acquisition
		b := x.heap(st, "B:"+h, gh[h])
		st.heaps["B:"+h] = x.define("first$"+h, Ite(was, b, x.heap(st, h, gh[h])))
	}
	st.heaps[done] = TTrue
}

// forgetSnapshots: the snapshots are those of the callee; it returns the first ones of the caller.
func (x *Exec) forgetSnapshots(st *State) map[string]Term {
	first := map[string]Term{}
	var gs []string
	for n := range x.eng.sp.Guards {
		if x.guardNamed(n) != nil {
			gs = append(gs, n)
		}
	}
	sort.Strings(gs)
	for _, n := range gs {
		m := x.guardHeaps(x.eng.sp.Guards[n])
		var hs []string
		for h := range m {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		for _, h := range hs {
			x.heap(st, "A:"+h, m[h])
			first[h] = x.heap(st, "B:"+h, m[h])
			st.heaps["A:"+h] = x.fresh("snap", m[h])
			st.heaps["B:"+h] = x.fresh("snap1", m[h])
		}
	}
	return first
}

// keepSnapshots: an acquisition of the caller came before those of the callee.
func (x *Exec) keepSnapshots(st *State, first map[string]Term) {
	var gs []string
	for n := range x.eng.sp.Guards {
		if x.guardNamed(n) != nil {
			gs = append(gs, n)
		}
	}
	sort.Strings(gs)
	for _, n := range gs {
		g := x.eng.sp.Guards[n]
		was := x.firstDone(st, g)
		for _, h := range x.guardHeapNames(g) {
			st.heaps["B:"+h] = x.define("first$"+h, Ite(was, first[h], st.heaps["B:"+h]))
		}
		st.heaps["B1:"+g.Mutex] = TTrue
	}
}

func (x *Exec) firstDone(st *State, g *Guard) Term {
	done := "B1:" + g.Mutex
	if _, ok := x.heap0[done]; !ok {
		x.emit("(assert (not " + x.heap(st, done, SBool).S + "))")
	}
	return x.heap(st, done, SBool)
}

func (x *Exec) guardHeapNames(g *Guard) []string {
	var hs []string
	for h := range x.guardHeaps(g) {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	return hs
}

// havocGuarded forgets the guarded fields of an object, and the contents of the guarded maps
// (of any map of these types when the map itself may have been replaced).
func (x *Exec) havocGuarded(st *State, g *Guard, info subInfo, replaced bool) {
	t := x.guardType(g)
	u := t.Underlying().(*types.Struct)
	ng := x.noGuard
	x.noGuard = true
	for i := 0; i < u.NumFields(); i++ {
		if !g.has(u.Field(i).Name()) {
			continue
		}
		p := x.fieldPtr(t, i, info.ref)
		v := x.freshVal(st, "acq."+u.Field(i).Name(), p.To)
		x.storePtr(st, p, v)
		if mt, ok := p.To.Underlying().(*types.Map); ok {
			m := x.term(v)
			if replaced {
				for _, n := range append([]string{"#dom"}, leafPaths(mt.Elem())...) {
					h := x.mapHeapOf(st, p.To, n)
					x.setHeap(st, mapHeap(p.To, n), x.fresh("maps", h.Sort))
				}
				x.logStore(st, "M:"+typeKey(mt.Key())+":"+typeKey(mt.Elem()), TI(0))
				continue
			}
			ks := leavesOf(mt.Key())[0].Sort
			n := mapHeap(p.To, "#dom")
			x.setHeap(st, n, Store(x.mapDom(st, p.To), m, x.fresh("dom", arr(ks, SBool))))
			for _, l := range leavesOf(mt.Elem()) {
				n := mapHeap(p.To, l.Path)
				h := x.heap(st, n, arr(SInt, arr(ks, l.Sort)))
				x.setHeap(st, n, Store(h, m, x.fresh("mrow", arr(ks, l.Sort))))
			}
			x.logStore(st, "M:"+typeKey(mt.Key())+":"+typeKey(mt.Elem()), m)
		}
	}
	x.noGuard = ng
}

func leafPaths(t types.Type) []string {
	var out []string
	for _, l := range leavesOf(t) {
		out = append(out, l.Path)
	}
	return out
}

func (x *Exec) mapHeapOf(st *State, t types.Type, path string) Term {
	mt := t.Underlying().(*types.Map)
	ks := leavesOf(mt.Key())[0].Sort
	if path == "#dom" {
		return x.mapDom(st, t)
	}
	for _, l := range leavesOf(mt.Elem()) {
		if l.Path == path {
			return x.heap(st, mapHeap(t, path), arr(SInt, arr(ks, l.Sort)))
		}
	}
	panic(unsup("map component %s", path))
}

func (x *Exec) release(st *State, g *Guard, info subInfo, at string) {
	for k, e := range g.Inv {
		nm := e.Name
		if nm == "" {
			nm = fmt.Sprint(k + 1)
		}
		if !x.eng.inProp(e.Props) {
			continue
		}
		x.check(st, "lock", x.topKey()+"/lock-invariant:"+nm, "released "+g.Mutex+at+": "+e.Src, x.guardEnv(st, g, info, 1).boolean(e.E))
	}
	for k, e := range g.Steps {
		nm := e.Name
		if nm == "" {
			nm = fmt.Sprint(k + 1)
		}
		if !x.eng.inProp(e.Props) {
			continue
		}
		x.check(st, "lock", x.topKey()+"/step:"+nm, "released "+g.Mutex+at+": "+e.Src, x.guardEnv(st, g, info, 1).boolean(e.E))
	}
	x.ghostSet(st, x.guardEnv(st, g, info, 1).neutral(), g.Releases)
}

// ghostSet runs simultaneous ghost assignments "g.x := e".
func (x *Exec) ghostSet(st *State, env *SEnv, sets [][2]string) {
	var vs []Term
	for _, s := range sets {
		vs = append(vs, x.term(env.eval(parseExpr(s[1])).V))
	}
	for k, s := range sets {
		n := strings.TrimSpace(s[0])[2:]
		x.ghost(st, n)
		st.heaps["g:"+n] = x.define("g$"+n, vs[k])
	}
}

func (x *Exec) guardNamed(name string) *Guard {
	g := x.eng.sp.Guards[name]
	if g == nil || !x.eng.inPropStrict(g.Props) {
		return nil
	}
	return g
}

func (x *Exec) guardFor(styp, f string) *Guard {
	for _, g := range x.eng.sp.Guards {
		i := strings.LastIndex(g.Mutex, ".")
		if g.Mutex[:i] == styp && g.has(f) && x.eng.inPropStrict(g.Props) {
			return g
		}
	}
	return nil
}

// guardOf: the guard of a location and the object that holds it
func (x *Exec) guardOf(p Ptr) (*Guard, subInfo) {
	var in subInfo
	switch p.K {
	case PField:
		f := p.Path
		if i := strings.Index(f, "."); i > 0 {
			f = f[:i]
		}
		in = subInfo{p.St, f, p.Ref}
		if g := x.guardFor(p.St, f); g != nil {
			return g, in
		}
	case PObj:
	default:
		return nil, in
	}
	r := p.Ref
	for {
		i, ok := x.subs[r.S]
		if !ok {
			return nil, in
		}
		if g := x.guardFor(i.styp, i.field); g != nil {
			return g, i
		}
		r = i.ref
	}
}

func (x *Exec) guardHeld(st *State, g *Guard, in subInfo) Term {
	return Sel(x.locks(st), x.subRef(in.styp, g.Mutex[strings.LastIndex(g.Mutex, ".")+1:], in.ref))
}

// guardedBy: the guard named by an expression like algo.statusMutex
func (x *Exec) guardedBy(env *SEnv, src string) (*Guard, subInfo) {
	e := parseExpr(src)
	o := env.eval(e.Args[0]).V.(Ptr)
	t := typeKey(o.To)
	return x.guardNamed(t + "." + e.Name), subInfo{t, e.Name, o.Ref}
}

// guardChange runs the store of a guarded field: the clauses on changes hold of it.
func (x *Exec) guardChange(st *State, p Ptr, store func()) {
	if x.noGuard || x.noChange || x.top == nil {
		store()
		return
	}
	g, in := x.guardOf(p)
	if g == nil || len(g.Changes)+len(g.Changed) == 0 {
		store()
		return
	}
	old := st.clone()
	x.noChange = true
	store()
	x.noChange = false
	isNew := Lt(x.alloc0, x.root(in.ref))
	for k, c := range g.Changes {
		if !x.eng.inProp(c.Props) {
			continue
		}
		env := x.guardEnv(st, g, in, 1)
		env.old = old
		nm := c.Name
		if nm == "" {
			nm = fmt.Sprint(k + 1)
		}
		x.check(st, "lock", x.topKey()+"/change:"+nm, "write of "+in.styp+"."+in.field+": "+c.Src, Or(isNew, env.boolean(c.E)))
	}
	before := map[string]Term{}
	for _, s := range g.Changed {
		n := strings.TrimSpace(s[0])[2:]
		before[n] = x.ghost(st, n)
	}
	env := x.guardEnv(st, g, in, 1).neutral()
	env.old = old
	x.ghostSet(st, env, g.Changed)
	for n, t := range before {
		st.heaps["g:"+n] = x.define("g$"+n, Ite(isNew, t, st.heaps["g:"+n]))
	}
}

func (x *Exec) guardWrite(st *State, p Ptr) {
	if x.noGuard || x.top == nil {
		return
	}
	g, in := x.guardOf(p)
	if g == nil {
		return
	}
	x.check(st, "lock", x.topKey()+"/guarded-write:"+in.styp+"."+in.field, "write of "+in.styp+"."+in.field+": "+g.Mutex+" is held for writing (or the object is new)",
		Or(Eq(x.guardHeld(st, g, in), TI(2)), Lt(x.alloc0, x.root(in.ref))))
}

func (x *Exec) lockRead(st *State, p Ptr) {
	if x.noGuard || x.top == nil {
		return
	}
	g, in := x.guardOf(p)
	if g == nil {
		return
	}
	for _, r := range g.Reads {
		if len(r.Fields) > 0 && !slices.Contains(r.Fields, in.field) {
			continue
		}
		ok := Or(Lt(TI(0), x.guardHeld(st, g, in)), Lt(x.alloc0, x.root(in.ref)))
		if r.Unless != nil {
			inf := in
			ok = Or(ok, x.guardEnv(st, g, inf, 1).boolean(r.Unless))
		}
		x.check(st, "lock", x.topKey()+"/guarded-read:"+in.styp+"."+in.field, "read of "+in.styp+"."+in.field+": "+g.Mutex+" is held (or the object is new)", ok)
	}
}

// guardMapWrite: a map loaded from a guarded field is written under the lock only.
func (x *Exec) guardMapWrite(fr *Frame, st *State, i *ssa.MapUpdate) {
	l, ok := i.Map.(*ssa.UnOp)
	if !ok || x.top == nil {
		return
	}
	if _, ok := l.X.(*ssa.FieldAddr); !ok {
		return
	}
	if p, ok := x.value(fr, l.X).(Ptr); ok {
		x.guardWrite(st, p)
	}
}

// lockedCall: a function under contract is called with exactly the locks it expects.
func (x *Exec) lockedCall(fr *Frame, st *State, in ssa.Instruction, c *Contract, args []Val, ts []types.Type) {
	if c.Flags["locks"] == "" && c.Holding == "" {
		return
	}
	if c.Holding != "" {
		x.holdingFacts(st, c, x.contractEnv(c, args, ts), 1, x.topKey()+"/locks-at-call:"+c.Key)
	}
	x.check(st, "lock", x.topKey()+"/locks-at-call:"+c.Key, "call of "+c.Key+" at "+x.posOf(in)+": the locks held are the ones it expects", Eq(x.locks(st), x.lockSet(st, c, x.contractEnv(c, args, ts))))
}

func (x *Exec) lockSet(st *State, c *Contract, vars map[string]SV) Term {
	t := Term{"((as const (Array Int Int)) 0)", arr(SInt, SInt)}
	if c.Holding != "" {
		env := &SEnv{x: x, vars: vars, st: st, old: st}
		p := x.fieldPtrOf(env, c.Holding)
		t = Store(t, p.Ref, TI(2))
	}
	return t
}

// holdingFacts: the invariant of the mutex that a function expects held, at its call (checked
// with pol 1) and after it (assumed with pol -1).
func (x *Exec) holdingFacts(st *State, c *Contract, vars map[string]SV, pol int, name string) {
	g, info := x.guardedBy(&SEnv{x: x, vars: vars, st: st, old: st}, c.Holding)
	if g == nil {
		return
	}
	for k, e := range g.Inv {
		t := x.guardEnv(st, g, info, pol).boolean(e.E)
		if pol < 0 {
			x.assume(st, t)
			continue
		}
		nm := e.Name
		if nm == "" {
			nm = fmt.Sprint(k + 1)
		}
		x.check(st, "lock", name+"#"+nm, "the invariant of "+g.Mutex+" holds: "+e.Src, t)
	}
}

func (x *Exec) fieldPtrOf(env *SEnv, src string) Ptr {
	e := parseExpr(src)
	return x.fieldPtrByName(env.eval(e.Args[0]).V.(Ptr), e.Name)
}

func (x *Exec) initLocks(st *State) {
	if x.top == nil {
		return
	}
	l := x.locks(st)
	x.assumeTop(Eq(l, x.lockSet(st, x.top, x.topEnv)))
	if x.top.Holding != "" {
		x.holdingFacts(st, x.top, x.topEnv, -1, "")
		if g, _ := x.guardedBy(&SEnv{x: x, vars: x.topEnv, st: st, old: st}, x.top.Holding); g != nil {
			x.snapshot(st, g)
		}
	}
}

// finalFacts: every lock taken was released.
func (x *Exec) finalFacts(out *State) {
	x.locksBack(out, "returns")
	if x.top != nil && x.top.Holding != "" {
		x.holdingFacts(out, x.top, x.topEnv, 1, x.topKey()+"/lock-invariant")
	}
}

func (x *Exec) locksBack(out *State, how string) {
	h0, ok := x.heap0[lockHeap]
	if !ok || out.heaps[lockHeap].S == "" || out.heaps[lockHeap].S == h0.S {
		return
	}
	x.oblige(out, "lock", x.topKey()+"/locks-released", "when it "+how+" the locks held are those held at entry", Eq(out.heaps[lockHeap], h0))
}

// ---- panics and recover ----

const panicHeap = "x:panic"

// panicking: the value of the current panic, 0 when there is none
func (x *Exec) panicking(st *State) Term {
	if _, ok := x.heap0[panicHeap]; !ok {
		t := x.heap(st, panicHeap, SInt)
		x.assumeTop(Eq(t, TI(0)))
	}
	return x.heap(st, panicHeap, SInt)
}

// raiseMaybe: the call may panic; the exceptional state waits in the frame.
func (x *Exec) raiseMaybe(fr *Frame, st *State, in ssa.Instruction) {
	x.panicking(st)
	b := x.fresh("panics", SBool)
	s := st.clone()
	s.pc = x.define("pc", And(st.pc, b))
	v := x.fresh("panicval", SInt)
	x.assume(s, Lt(TI(0), v))
	s.heaps[panicHeap] = v
	x.lastPanic(s, v)
	fr.panics = append(fr.panics, s)
	st.pc = x.define("pc", And(st.pc, Not(b)))
}

// lastPanic: specifications name the panic's value g.panicked when that ghost is declared.
func (x *Exec) lastPanic(s *State, v Term) {
	if _, ok := x.eng.sp.Ghosts["panicked"]; ok {
		x.ghost(s, "panicked")
		s.heaps["g:panicked"] = v
	}
}

// unwind runs the deferred calls of a frame for the exceptional states raised in it.
func (x *Exec) unwind(fr *Frame, outer []*deferRec, ins map[*ssa.BasicBlock][]inEdge, loops map[*ssa.BasicBlock]*loopRec) {
	if len(fr.panics) == 0 {
		return
	}
	var es []inEdge
	for _, s := range fr.panics {
		es = append(es, inEdge{0, s})
	}
	fr.panics = nil
	s := x.mergeStates(es)
	if s == nil {
		return
	}
	x.runDefers(fr, s)
	if len(fr.panics) > 0 {
		panic(unsup("panic while panicking in %s", fnKey(fr.fn)))
	}
	pv := x.panicking(s)
	out := s.clone()
	out.pc = x.define("pc", And(s.pc, Not(Eq(pv, TI(0)))))
	out.defers = append([]*deferRec{}, outer...)
	if pv.S != "0" {
		switch {
		case fr.parent != nil:
			fr.parent.panics = append(fr.parent.panics, out)
		case x.top != nil && x.top.Flags["maypanic"] != "":
			x.locksBack(out, "panics")
		default:
			x.check(out, "safe", x.topKey()+"/no-panic", "a panic raised by a callee does not escape", TFalse)
		}
	}
	s.pc = x.define("pc", And(s.pc, Eq(pv, TI(0))))
	if s.pc.S == "false" {
		return
	}
	if b := fr.fn.Recover; b != nil {
		x.runBlock(fr, b, s, ins, loops)
		return
	}
	if fr.fn.Signature.Results().Len() == 0 {
		fr.exits = append(fr.exits, exitRec{st: s})
		return
	}
	panic(unsup("recovery without a recover block in %s", fnKey(fr.fn)))
}

func (x *Exec) doRecover(fr *Frame, st *State) Term {
	if !fr.deferred {
		return TI(0)
	}
	v := x.panicking(st)
	st.heaps[panicHeap] = TI(0)
	return v
}

func (x *Exec) raise(fr *Frame, st *State, certain bool) bool { return false }

// ---- channels under contract ----

func (x *Exec) chanContract(cv ssa.Value, op string) *Contract {
	o := x.funcOrigin(cv)
	c := x.eng.sp.Chans[o+"."+op]
	if c == nil && strings.HasPrefix(op, "try") {
		c = x.eng.sp.Chans[o+"."+op[3:]]
	}
	if c != nil && !x.eng.inPropStrict(c.Props) {
		return nil
	}
	return c
}

// ---- goroutines under contract ----

// spawn: the new goroutine's precondition holds; what it does is interference.
func (x *Exec) spawn(fr *Frame, st *State, in ssa.Instruction, c *Contract, args []Val, ts []types.Type) {
	x.usedC[c.Key] = true
	vars := x.contractEnv(c, args, ts)
	env := &SEnv{x: x, vars: vars, st: st, old: st, pol: 1}
	for k, r := range c.Requires {
		nm := r.Name
		if nm == "" {
			nm = fmt.Sprint(k + 1)
		}
		if r.Name == "thread" {
			continue // about the new goroutine's own ghost state
		}
		x.check(st, "pre", x.topKey()+"/pre:go:"+c.Key+"#"+nm, "precondition of the goroutine "+c.Key+" at "+x.posOf(in)+": "+r.Src, env.boolean(r.E))
	}
	x.callClauses(st, in, c, vars)
	if g := c.Flags["spawn"]; strings.HasPrefix(g, "g.") {
		h := x.ghost(st, g[2:])
		st.heaps["g:"+g[2:]] = x.define("spawned", Add(h, TI(1)))
	}
}
