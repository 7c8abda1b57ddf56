package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec is the symbolic execution of one verification target.
type Exec struct {
	eng      *Engine
	top      *Contract
	topFn    *ssa.Function
	lines    []string
	declared map[string]bool
	factSeen map[string]bool
	unfolded map[string]bool
	nfresh   int
	nbound   int
	nsub     int
	heap0    map[string]Term
	heapSort map[string]string
	obls     []*Obligation
	oblNames map[string]int
	fnIds    map[string]Term
	fnReg    map[string]Func
	fnAlt    map[string][]fnChoice
	ptrReg   map[string]Ptr
	dynOf    map[string]dynVal
	typeIds  map[string]bool

	freshRefs map[string]bool
	alloc0    Term
	entry     *State
	topEnv    map[string]SV
	modEx     map[string][]exempt
	modPre    map[string][]exempt

	unfoldDepth, maxUnfold int

	// loop bookkeeping that survives passes
	lp        *LoopInfo
	restart   bool
	loops     []*loopRec
	par       *parCtx
	depth     int
	frames    []*Frame
	usedC     map[string]bool // contracts applied
	inlined   map[string]bool
	unsups    []string
	goMode    bool
	assumed   map[string]bool
	callBlock map[*Frame]*ssa.BasicBlock
	noGuard   bool
	noChange  bool
	subs      map[string]subInfo
	nextDefer bool
	parKey    ssa.Value // pseudo loop variable of a parallel call
	parRank   Val
	defs      map[string]string
	defBody   map[string]string // name of a definition: its body
}

// LoopInfo is shared by all passes over one target.
type LoopInfo struct {
	mod    map[string]map[string]bool            // loop -> heaps modified
	alloc  map[string]bool                       // loop -> allocates
	exc    map[string]map[string]map[string]bool // loop -> heap prefix -> binding keys
	only   map[string]bool                       // when set, only these candidates are considered
	dead   map[string]bool
	shapes map[string]bool
	hot    map[string]bool // candidates that needed a long query
	known  map[string]bool
	noCand bool
	sorts  map[string]string
}

func newLoopInfo() *LoopInfo {
	return &LoopInfo{mod: map[string]map[string]bool{}, alloc: map[string]bool{}, exc: map[string]map[string]map[string]bool{}, known: map[string]bool{}, dead: map[string]bool{}, hot: map[string]bool{}, sorts: map[string]string{}}
}

type dynVal struct {
	T types.Type
	V Val
}

type Frame struct {
	fn           *ssa.Function
	env          map[ssa.Value]Val
	path         string
	parent       *Frame
	ncall        int
	exits        []exitRec
	panics       []*State
	deferred     bool // called by a defer
	contractVars map[string]SV
}

type exitRec struct {
	st  *State
	res []Val
}

type loopRec struct {
	id     string
	fr     *Frame
	header *ssa.BasicBlock
	entry  *State
	head   *State
	cands  []*cand
	scope  map[string]string // ref term -> binding key (for frame exceptions)
}

type cand struct {
	key  string
	eval func(st *State, over map[ssa.Value]Val, pol int) Term
}

func (e *Engine) newExec(top *Contract, fn *ssa.Function, lp *LoopInfo) *Exec {
	x := &Exec{eng: e, top: top, topFn: fn, declared: map[string]bool{}, factSeen: map[string]bool{}, unfolded: map[string]bool{},
		defs: map[string]string{}, defBody: map[string]string{}, heap0: map[string]Term{}, heapSort: map[string]string{}, fnIds: map[string]Term{}, fnReg: map[string]Func{}, fnAlt: map[string][]fnChoice{},
		ptrReg: map[string]Ptr{}, dynOf: map[string]dynVal{}, typeIds: map[string]bool{}, freshRefs: map[string]bool{}, lp: lp, maxUnfold: 1,
		usedC: map[string]bool{}, inlined: map[string]bool{}, oblNames: map[string]int{}, assumed: map[string]bool{}, callBlock: map[*Frame]*ssa.BasicBlock{}}
	x.declareFun("root", []string{SInt}, SInt)
	x.emit("(assert (= (root 0) 0))")
	return x
}

func (x *Exec) topPkg() string {
	if x.topFn != nil && x.topFn.Pkg != nil {
		return x.topFn.Pkg.Pkg.Name()
	}
	if x.top != nil {
		if i := strings.Index(x.top.Key, "."); i > 0 {
			return x.top.Key[:i]
		}
	}
	return ""
}

func (x *Exec) oblige(st *State, kind, name, desc string, goal Term) *Obligation {
	o := &Obligation{Kind: kind, Name: x.uniq(name), Desc: desc, Prefix: len(x.lines), PC: st.pc, Goal: goal}
	x.obls = append(x.obls, o)
	return o
}

func (x *Exec) uniq(n string) string {
	x.oblNames[n]++
	if k := x.oblNames[n]; k > 1 {
		return fmt.Sprintf("%s~%d", n, k)
	}
	return n
}

// check adds an obligation and assumes it afterwards.
func (x *Exec) check(st *State, kind, name, desc string, goal Term) {
	if goal.S == "true" || st.pc.S == "false" {
		return
	}
	x.oblige(st, kind, name, desc, goal)
	x.assume(st, goal)
}

func (x *Exec) posOf(i ssa.Instruction) string {
	p := x.eng.prog.Fset.Position(i.Pos())
	if !p.IsValid() {
		return ""
	}
	f := p.Filename
	if k := strings.LastIndex(f, "/repo/"); k >= 0 {
		f = f[k+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Exec) where(fr *Frame) string { return x.fnKey(fr.fn) }

func (x *Exec) safe(st *State, fr *Frame, i ssa.Instruction, what string, goal Term) {
	if x.top != nil {
		if _, ok := x.top.Flags["mayfail"]; ok {
			x.assume(st, goal)
			return
		}
	}
	x.check(st, "safe", x.topKey()+"/safe:"+what+"@"+x.where(fr), what+" at "+x.posOf(i), goal)
}

func (x *Exec) topKey() string {
	if x.top != nil {
		return x.top.Key
	}
	return "?"
}

// ---- function bodies ----

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] && !s.Dominates(b) {
				visit(s)
			}
		}
		out = append(out, b)
	}
	visit(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (x *Exec) runBody(fr *Frame, st *State) (*State, Val) {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		panic(unsup("no body for %s", fn))
	}
	x.frames = append(x.frames, fr)
	defer func() { x.frames = x.frames[:len(x.frames)-1] }()
	outerDefers := st.defers
	st = st.clone()
	st.defers = nil
	ins := map[*ssa.BasicBlock][]inEdge{}
	ins[fn.Blocks[0]] = []inEdge{{-1, st}}
	loops := map[*ssa.BasicBlock]*loopRec{}
	nl := 0
	for _, b := range rpo(fn) {
		edges := ins[b]
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				phis = append(phis, p)
			} else {
				break
			}
		}
		var vals = map[ssa.Value]Val{}
		for _, p := range phis {
			var vs []Val
			for _, e := range edges {
				vs = append(vs, x.value(fr, p.Edges[e.from]))
			}
			if len(edges) > 0 {
				v := x.tryVal(func() Val { return x.mergeVals(edges, vs) }, st, p.Type(), "phi")
				vals[p] = x.defineVal("phi", v)
			}
		}
		cur := x.mergeStates(edges)
		if isHeader(b) {
			nl++
			id := fmt.Sprintf("%s/L%d", fr.path, nl)
			if cur == nil {
				continue
			}
			l := x.loopHead(fr, b, id, cur, phis, vals)
			loops[b] = l
			cur = l.head.clone()
		} else {
			if cur == nil {
				continue
			}
			for p, v := range vals {
				fr.env[p] = v
			}
		}
		if fn.Recover == b {
			continue
		}
		x.runBlock(fr, b, cur, ins, loops)
	}
	x.unwind(fr, outerDefers, ins, loops)
	// collect exits
	var es []inEdge
	for _, e := range fr.exits {
		es = append(es, inEdge{0, e.st})
	}
	if len(es) == 0 {
		return nil, nil
	}
	var res Tuple
	nres := fn.Signature.Results().Len()
	for k := 0; k < nres; k++ {
		var vs []Val
		for _, e := range fr.exits {
			vs = append(vs, e.res[k])
		}
		res.E = append(res.E, x.defineVal("ret", x.mergeVals(es, vs)))
	}
	out := x.mergeStates(es)
	if out == nil {
		return nil, nil
	}
	out.defers = outerDefers
	var rv Val = res
	if nres == 1 {
		rv = res.E[0]
	}
	return out, rv
}

func (x *Exec) tryVal(f func() Val, st *State, t types.Type, what string) (v Val) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				x.reportUnsup(st, what+": "+u.msg)
				v = x.freshVal(st, "unsup", t)
				return
			}
			panic(r)
		}
	}()
	return f()
}

func (x *Exec) reportUnsup(st *State, msg string) {
	x.unsups = append(x.unsups, msg)
	x.oblige(st, "unsupported", x.topKey()+"/unsupported:"+strings.Fields(msg + " ?")[0], msg, TFalse)
}

var deadCheck = os.Getenv("GOVC_DEAD") != ""

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, ins map[*ssa.BasicBlock][]inEdge, loops map[*ssa.BasicBlock]*loopRec) {
	goTo := func(k int, st *State) {
		s := b.Succs[k]
		if st.pc.S == "false" {
			return
		}
		// predecessor index (careful with duplicate edges)
		from := -1
		cnt := 0
		for j := 0; j < k; j++ {
			if b.Succs[j] == s {
				cnt++
			}
		}
		for pi, p := range s.Preds {
			if p == b {
				if cnt == 0 {
					from = pi
					break
				}
				cnt--
			}
		}
		if s.Dominates(b) {
			x.loopBack(fr, loops[s], from, st)
			return
		}
		ins[s] = append(ins[s], inEdge{from, st})
	}
	if deadCheck && st.pc.S != "false" {
		// development aid: is the end of the block reachable under the assumptions made so far?
		defer func() {
			o := x.oblige(st, "cover", fmt.Sprintf("dead:%s@%s#%d", fr.path, x.posOf(b.Instrs[len(b.Instrs)-1]), b.Index), b.Comment, TFalse)
			o.Cover = true
		}()
	}
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := scalar(x.value(fr, i.Cond))
			c = x.define("cond", c)
			s1, s2 := st.clone(), st.clone()
			s1.pc = x.define("pc", And(st.pc, c))
			s2.pc = x.define("pc", And(st.pc, Not(c)))
			goTo(0, s1)
			goTo(1, s2)
			return
		case *ssa.Jump:
			goTo(0, st)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range i.Results {
				res = append(res, x.value(fr, r))
			}
			fr.exits = append(fr.exits, exitRec{st, res})
			return
		case *ssa.Panic:
			x.doPanic(fr, st, i)
			return
		default:
			if !x.step(fr, st, in) {
				return
			}
		}
	}
}

func (x *Exec) step(fr *Frame, st *State, in ssa.Instruction) (cont bool) {
	cont = true
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch u := r.(type) {
			case unsupported:
				msg = u.msg
			case specErr:
				msg = "specification: " + u.msg
			default:
				panic(r)
			}
			x.reportUnsup(st, fmt.Sprintf("%s (%T at %s in %s)", msg, in, x.posOf(in), fr.fn.Name()))
			if v, ok := in.(ssa.Value); ok {
				func() {
					defer func() { recover() }()
					fr.env[v] = x.freshVal(st, "unsup", v.Type())
				}()
			}
		}
	}()
	if v, ok := in.(ssa.Value); ok {
		r := x.evalInstr(fr, st, in)
		if r != nil || isEmptyTuple(v.Type()) {
			fr.env[v] = r
		}
	} else {
		x.execInstr(fr, st, in)
	}
	if st.dead || st.pc.S == "false" {
		return false
	}
	return true
}

func isEmptyTuple(t types.Type) bool {
	tp, ok := t.(*types.Tuple)
	return ok && tp.Len() == 0
}

func (x *Exec) value(fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return x.zero(c.Type())
		}
		return x.constVal(c.Value, c.Type())
	case *ssa.Function:
		return Func{Fn: c}
	case *ssa.Builtin:
		return Func{Bld: c.Name()}
	case *ssa.Global:
		return x.globalPtr(c.Pkg.Pkg.Name()+"."+c.Name(), c.Type().(*types.Pointer).Elem())
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsup("value %s of %s not available", v.Name(), fr.fn))
}

// globalPtr is the address of a package variable.
func (x *Exec) globalPtr(name string, t types.Type) Ptr {
	n := "glob$" + mangle(name)
	if !x.declared[n] {
		x.declared[n] = true
		x.emit("(declare-const " + n + " Int)")
		x.emit("(assert (< " + n + " 0))")
		for other := range x.declared {
			if strings.HasPrefix(other, "glob$") && other != n {
				x.emit("(assert (not (= " + n + " " + other + ")))")
			}
		}
		x.emit("(assert (= (root " + n + ") " + n + "))")
		if x.eng.constGlobals[name] {
			// never reassigned error/pointer values: non-nil
			for _, l := range leavesOf(t) {
				if l.Ref == 'i' {
					h := x.heap(x.entryOrTmp(), "C:"+typeKey(t)+l.Path, arr(SInt, l.Sort))
					x.declared["errg$"+name] = true
					if h0, ok := x.heap0["C:"+typeKey(t)+l.Path]; ok {
						h = h0
					}
					x.emit("(assert (not (= (select " + h.S + " " + n + ") 0)))")
					for other := range x.declared {
						if strings.HasPrefix(other, "errg$") && other != "errg$"+name {
							x.emit("(assert (not (= (select " + h.S + " " + n + ") (select " + h.S + " glob$" + mangle(other[5:]) + "))))")
						}
					}
					x.declareFun("errkind", []string{SInt}, SInt)
					x.emit("(assert (= (errkind (select " + h.S + " " + n + ")) 1))")
				}
			}
		}
	}
	p := x.ptrFromRef(t, Term{n, SInt})
	return p
}

func (x *Exec) entryOrTmp() *State {
	if x.entry != nil {
		return x.entry
	}
	return &State{heaps: map[string]Term{}, pc: TTrue, alloc: TI(0)}
}

func (x *Exec) execInstr(fr *Frame, st *State, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.Store:
		p := x.asPtr(st, fr, i, x.value(fr, i.Addr))
		x.storePtr(st, p, x.value(fr, i.Val))
	case *ssa.MapUpdate:
		x.mapUpdate(fr, st, i)
	case *ssa.Send:
		x.chanSend(fr, st, i, x.value(fr, i.Chan), i.Chan, x.value(fr, i.X))
	case *ssa.Defer:
		d := &deferRec{pc: st.pc, call: &i.Call, pos: i}
		d.fn, d.args = x.callParts(fr, st, &i.Call)
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		x.runDefers(fr, st)
	case *ssa.Go:
		x.doGo(fr, st, i)
	case *ssa.DebugRef:
	default:
		panic(unsup("instruction %T", in))
	}
}

func (x *Exec) asPtr(st *State, fr *Frame, in ssa.Instruction, v Val) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsup("pointer expected, got %T", v))
	}
	if p.K != PElem {
		x.nonNil(st, fr, in, p.Ref)
	}
	return p
}

func (x *Exec) nonNil(st *State, fr *Frame, in ssa.Instruction, ref Term) {
	if x.freshRefs[ref.S] || strings.HasPrefix(ref.S, "glob$") || strings.HasPrefix(ref.S, "(sub$") {
		return
	}
	x.safe(st, fr, in, "nil-dereference", Not(Eq(ref, TI(0))))
}

func (x *Exec) evalInstr(fr *Frame, st *State, in ssa.Instruction) Val {
	switch i := in.(type) {
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		r := x.newRef(st, i.Name())
		p := x.ptrFromRef(t, r)
		if p.K == PArr {
			x.zeroRows(st, p.Elem, r)
		} else {
			x.zeroInit(st, p)
		}
		return p
	case *ssa.BinOp:
		return x.binop(fr, st, i)
	case *ssa.UnOp:
		return x.unop(fr, st, i)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var o ssa.Value
		if c, ok := in.(*ssa.ChangeType); ok {
			o = c.X
		} else {
			o = in.(*ssa.ChangeInterface).X
		}
		v := x.value(fr, o)
		if p, ok := v.(Ptr); ok && p.K == PCell {
			return p
		}
		return v
	case *ssa.Convert:
		return x.convert(fr, st, i)
	case *ssa.MakeInterface:
		v := x.value(fr, i.X)
		return Scalar{x.box(st, i.X.Type(), v)}
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, i)
	case *ssa.FieldAddr:
		p := x.value(fr, i.X).(Ptr)
		st0 := i.X.Type().Underlying().(*types.Pointer).Elem()
		f := st0.Underlying().(*types.Struct).Field(i.Field)
		switch p.K {
		case PObj:
			x.nonNil(st, fr, in, p.Ref)
			return x.fieldPtr(st0, i.Field, p.Ref)
		case PElem:
			q := p
			q.Path = p.Path + "." + f.Name()
			q.To = f.Type()
			return q
		}
		panic(unsup("field address of pointer kind %d", p.K))
	case *ssa.Field:
		s, ok := x.value(fr, i.X).(Struct)
		if !ok {
			panic(unsup("field of %T", x.value(fr, i.X)))
		}
		return s.F[i.Field]
	case *ssa.IndexAddr:
		idx := x.term(x.value(fr, i.Index))
		switch s := x.value(fr, i.X).(type) {
		case Slice:
			elem := i.X.Type().Underlying().(*types.Slice).Elem()
			x.safe(st, fr, i, "index-in-range", And(Le(TI(0), idx), Lt(idx, s.Len)))
			return Ptr{K: PElem, Ref: s.Base, Idx: x.define("ix", Add(s.Off, idx)), Elem: elem, To: elem}
		case Ptr:
			if s.K == PArr {
				n := s.To.Underlying().(*types.Array).Len()
				x.safe(st, fr, i, "index-in-range", And(Le(TI(0), idx), Lt(idx, TI(n))))
				return Ptr{K: PElem, Ref: s.Ref, Idx: idx, Elem: s.Elem, To: s.Elem}
			}
		}
		panic(unsup("index address"))
	case *ssa.Index:
		panic(unsup("array index"))
	case *ssa.Lookup:
		return x.lookup(fr, st, i)
	case *ssa.Slice:
		return x.slice(fr, st, i)
	case *ssa.MakeSlice:
		elem := i.Type().Underlying().(*types.Slice).Elem()
		n := x.term(x.value(fr, i.Len))
		c := x.term(x.value(fr, i.Cap))
		x.safe(st, fr, i, "make-size", And(Le(TI(0), n), Le(n, c)))
		r := x.newRef(st, i.Name())
		x.zeroRows(st, elem, r)
		return Slice{r, TI(0), n, c}
	case *ssa.MakeMap:
		r := x.newRef(st, i.Name())
		d := x.mapDom(st, i.Type())
		ks := leavesOf(i.Type().Underlying().(*types.Map).Key())[0].Sort
		x.assume(st, Eq(Sel(d, r), constArr(arr(ks, SBool), TFalse)))
		return Scalar{r}
	case *ssa.MakeChan:
		r := x.newRef(st, i.Name())
		x.makeChan(st, i, r, x.term(x.value(fr, i.Size)))
		return Scalar{r}
	case *ssa.MakeClosure:
		f := Func{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.Bind = append(f.Bind, x.value(fr, b))
		}
		return f
	case *ssa.Extract:
		t, ok := x.value(fr, i.Tuple).(Tuple)
		if !ok {
			panic(unsup("extract from %T", x.value(fr, i.Tuple)))
		}
		return t.E[i.Index]
	case *ssa.Call:
		return x.call(fr, st, i, &i.Call)
	case *ssa.Select:
		return x.selectStmt(fr, st, i)
	case *ssa.Range:
		return x.rangeMap(fr, st, i)
	case *ssa.Next:
		return x.nextMap(fr, st, i)
	}
	panic(unsup("instruction %T", in))
}

func (x *Exec) binop(fr *Frame, st *State, i *ssa.BinOp) Val {
	a, b := x.value(fr, i.X), x.value(fr, i.Y)
	switch i.Op {
	case token.EQL, token.NEQ:
		e := &SEnv{x: x, st: st}
		// comparison against nil slice/func/map/pointer handled by shape
		t := func() Term {
			if _, ok := a.(Func); ok {
				return Eq(x.term(a), x.term(b))
			}
			// slices are only compared with nil
			if s, ok := a.(Slice); ok && isNilConst(i.Y) {
				return Eq(s.Base, TI(0))
			}
			if s, ok := b.(Slice); ok && isNilConst(i.X) {
				return Eq(s.Base, TI(0))
			}
			return e.equal(SV{V: a, T: i.X.Type()}, SV{V: b, T: i.Y.Type()})
		}()
		if f, ok := a.(Func); ok && f.Fn != nil && isNilConst(i.Y) {
			t = TFalse
		}
		if i.Op == token.NEQ {
			t = Not(t)
		}
		return Scalar{x.define("c", t)}
	}
	ta, tb := x.term(a), x.term(b)
	isStr := false
	if bt, ok := i.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	if isStr {
		x.declareFun("strop", []string{SInt, SInt, SInt}, SInt)
		switch i.Op {
		case token.ADD:
			return Scalar{app(SInt, "strop", TI(0), ta, tb)}
		}
		return Scalar{app(SBool, ">", app(SInt, "strop", TI(int64(i.Op)), ta, tb), TI(0))}
	}
	switch i.Op {
	case token.ADD:
		return Scalar{x.define(i.Name(), Add(ta, tb))}
	case token.SUB:
		return Scalar{x.define(i.Name(), Sub(ta, tb))}
	case token.MUL:
		return Scalar{x.define(i.Name(), Mul(ta, tb))}
	case token.QUO:
		if ta.Sort == SReal {
			return Scalar{x.define(i.Name(), app(SReal, "/", ta, tb))}
		}
		x.safe(st, fr, i, "division-by-zero", Not(Eq(tb, TI(0))))
		return Scalar{x.define(i.Name(), goDiv(ta, tb))}
	case token.REM:
		x.safe(st, fr, i, "division-by-zero", Not(Eq(tb, TI(0))))
		return Scalar{x.define(i.Name(), goRem(ta, tb))}
	case token.LSS:
		return Scalar{cmp("<", ta, tb)}
	case token.LEQ:
		return Scalar{cmp("<=", ta, tb)}
	case token.GTR:
		return Scalar{cmp(">", ta, tb)}
	case token.GEQ:
		return Scalar{cmp(">=", ta, tb)}
	case token.AND:
		if ta.Sort == SBool {
			return Scalar{And(ta, tb)}
		}
	case token.OR:
		if ta.Sort == SBool {
			return Scalar{Or(ta, tb)}
		}
	}
	// uninterpreted integer operation
	n := "intop$" + fmt.Sprint(int(i.Op))
	x.declareFun(n, []string{SInt, SInt}, SInt)
	return Scalar{app(SInt, n, ta, tb)}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *Exec) unop(fr *Frame, st *State, i *ssa.UnOp) Val {
	v := x.value(fr, i.X)
	switch i.Op {
	case token.MUL:
		p := x.asPtr(st, fr, i, v)
		x.guardRead(st, p)
		return x.loadPtr(st, p)
	case token.NOT:
		return Scalar{Not(scalar(v))}
	case token.SUB:
		t := x.term(v)
		if t.Sort == SReal {
			if strings.HasPrefix(t.S, "(- ") {
				return Scalar{Term{t.S[3 : len(t.S)-1], SReal}}
			}
			return Scalar{app(SReal, "-", t)}
		}
		return Scalar{Sub(TI(0), t)}
	case token.ARROW:
		return x.chanRecv(fr, st, i, v, i.X, i.CommaOk)
	}
	panic(unsup("operator %s", i.Op))
}

func (x *Exec) convert(fr *Frame, st *State, i *ssa.Convert) Val {
	v := x.value(fr, i.X)
	from, ok1 := i.X.Type().Underlying().(*types.Basic)
	to, ok2 := i.Type().Underlying().(*types.Basic)
	if ok1 && ok2 {
		t := x.term(v)
		fi, ti := from.Info(), to.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return Scalar{x.define("r", ToReal(t))}
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			if strings.HasPrefix(t.S, "(to_real ") {
				return Scalar{Term{t.S[9 : len(t.S)-1], SInt}}
			}
			// truncation toward zero
			fl := app(SInt, "to_int", t)
			return Scalar{x.define("n", Ite(app(SBool, "<=", TR("0.0"), t), fl, Sub(TI(0), app(SInt, "to_int", app(SReal, "-", t)))))}
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0,
			fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return v
		}
	}
	panic(unsup("conversion %s to %s", i.X.Type(), i.Type()))
}

// ---- interfaces ----

func (x *Exec) tagOf(t Term) Term {
	x.declareFun("tag", []string{SInt}, SInt)
	return app(SInt, "tag", t)
}

func (x *Exec) typeId(t types.Type) Term { return TI(x.eng.typeIdOf(t)) }

func (x *Exec) box(st *State, t types.Type, v Val) Term {
	ts := x.flatten(v)
	ls := leavesOf(t)
	n := "box$" + mangle(typeKey(t))
	var sorts []string
	for _, l := range ls {
		sorts = append(sorts, l.Sort)
	}
	x.declareFun(n, sorts, SInt)
	for k, l := range ls {
		x.declareFun(fmt.Sprintf("unbox$%s$%d", mangle(typeKey(t)), k), []string{SInt}, l.Sort)
	}
	b := x.define("box", app(SInt, n, ts...))
	if !strings.Contains(b.S, "!b") {
		facts := []Term{Eq(x.tagOf(b), x.typeId(t)), Not(Eq(b, TI(0)))}
		for k, l := range ls {
			facts = append(facts, Eq(app(l.Sort, fmt.Sprintf("unbox$%s$%d", mangle(typeKey(t)), k), b), ts[k]))
		}
		x.assumeTop(And(facts...))
	}
	x.dynOf[b.S] = dynVal{t, v}
	return b
}

// unbox extracts the value of dynamic type t from an interface.
func (x *Exec) unbox(st *State, b Term, t types.Type, assume bool) Val {
	if d, ok := x.dynOf[b.S]; ok && types.Identical(d.T, t) {
		return d.V
	}
	var ts []Term
	var sorts []string
	for k, l := range leavesOf(t) {
		n := fmt.Sprintf("unbox$%s$%d", mangle(typeKey(t)), k)
		x.declareFun(n, []string{SInt}, l.Sort)
		ts = append(ts, x.define("ub", app(l.Sort, n, b)))
		sorts = append(sorts, l.Sort)
	}
	if !strings.Contains(b.S, "!b") {
		st2 := *st
		st2.pc = And(st.pc, Eq(x.tagOf(b), x.typeId(t)))
		x.wf(&st2, t, ts)
		n := "box$" + mangle(typeKey(t))
		x.declareFun(n, sorts, SInt)
		x.assume(&st2, Eq(app(SInt, n, ts...), b))
	}
	return x.build(t, ts)
}

func (x *Exec) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) Val {
	b := x.term(x.value(fr, i.X))
	if types.IsInterface(i.AssertedType) {
		if i.CommaOk {
			ok := x.fresh("implements", SBool)
			return Tuple{[]Val{Scalar{Ite(ok, b, TI(0))}, Scalar{ok}}}
		}
		return Scalar{b}
	}
	isT := Eq(x.tagOf(b), x.typeId(i.AssertedType))
	if d, ok := x.dynOf[b.S]; ok {
		if types.Identical(d.T, i.AssertedType) {
			isT = TTrue
		} else {
			isT = TFalse
		}
	}
	if i.CommaOk {
		c := x.define("isT", isT)
		s2 := st.clone()
		s2.pc = And(st.pc, c)
		v := x.unbox(s2, b, i.AssertedType, true)
		return Tuple{[]Val{x.iteVal(c, v, x.zero(i.AssertedType)), Scalar{c}}}
	}
	x.safe(st, fr, i, "type-assertion", isT)
	return x.unbox(st, b, i.AssertedType, true)
}

// ---- slices and maps ----

func (x *Exec) slice(fr *Frame, st *State, i *ssa.Slice) Val {
	var s Slice
	switch v := x.value(fr, i.X).(type) {
	case Slice:
		s = v
	case Ptr:
		if v.K != PArr {
			panic(unsup("slicing a pointer"))
		}
		n := TI(v.To.Underlying().(*types.Array).Len())
		s = Slice{v.Ref, TI(0), n, n}
	default:
		panic(unsup("slicing %T", v))
	}
	lo, hi, mx := TI(0), s.Len, s.Cap
	if i.Low != nil {
		lo = x.term(x.value(fr, i.Low))
	}
	if i.High != nil {
		hi = x.term(x.value(fr, i.High))
	}
	if i.Max != nil {
		mx = x.term(x.value(fr, i.Max))
	}
	x.safe(st, fr, i, "slice-in-range", And(Le(TI(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.Cap)))
	return Slice{s.Base, x.define("off", Add(s.Off, lo)), x.define("len", Sub(hi, lo)), x.define("cap", Sub(mx, lo))}
}

func (x *Exec) mapDom(st *State, t types.Type) Term {
	m := t.Underlying().(*types.Map)
	ks := leavesOf(m.Key())
	if len(ks) != 1 {
		panic(unsup("map key %s", m.Key()))
	}
	return x.heap(st, mapHeap(t, "#dom"), arr(SInt, arr(ks[0].Sort, SBool)))
}

func (x *Exec) mapUpdate(fr *Frame, st *State, i *ssa.MapUpdate) {
	m := x.term(x.value(fr, i.Map))
	k := x.term(x.value(fr, i.Key))
	x.nonNil(st, fr, i, m)
	x.guardMapWrite(fr, st, i)
	x.mapStore(st, i.Map.Type(), m, k, x.value(fr, i.Value))
}

func (x *Exec) mapStore(st *State, t types.Type, m, k Term, v Val) {
	mt := t.Underlying().(*types.Map)
	d := x.mapDom(st, t)
	x.setHeap(st, mapHeap(t, "#dom"), Store(d, m, Store(Sel(d, m), k, TTrue)))
	ts := x.flatten(v)
	for j, l := range leavesOf(mt.Elem()) {
		n := mapHeap(t, l.Path)
		h := x.heap(st, n, arr(SInt, arr(k.Sort, l.Sort)))
		x.setHeap(st, n, Store(h, m, Store(Sel(h, m), k, ts[j])))
	}
	x.logStore(st, "M:"+typeKey(mt.Key())+":"+typeKey(mt.Elem()), m)
}

func (x *Exec) lookup(fr *Frame, st *State, i *ssa.Lookup) Val {
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		panic(unsup("string index"))
	}
	m := x.term(x.value(fr, i.X))
	k := x.term(x.value(fr, i.Index))
	in := x.define("in", And(Not(Eq(m, TI(0))), Sel(Sel(x.mapDom(st, i.X.Type()), m), k)))
	var ts []Term
	for _, l := range leavesOf(mt.Elem()) {
		h := x.heap(st, mapHeap(i.X.Type(), l.Path), arr(SInt, arr(k.Sort, l.Sort)))
		ts = append(ts, x.define("mv", Ite(in, Sel(Sel(h, m), k), zeroOf(l.Sort))))
	}
	x.wf(st, mt.Elem(), ts)
	v := x.build(mt.Elem(), ts)
	if i.CommaOk {
		return Tuple{[]Val{v, Scalar{in}}}
	}
	return v
}

func (x *Exec) rangeMap(fr *Frame, st *State, i *ssa.Range) Val {
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		panic(unsup("range over string"))
	}
	ks := leavesOf(mt.Key())[0].Sort
	r := x.newRef(st, "iter")
	n := "I:" + ks
	h := x.heap(st, n, arr(SInt, arr(ks, SBool)))
	x.assume(st, Eq(Sel(h, r), constArr(arr(ks, SBool), TFalse)))
	return Struct{[]Val{Scalar{r}, x.value(fr, i.X)}}
}

func (x *Exec) nextMap(fr *Frame, st *State, i *ssa.Next) Val {
	it := x.value(fr, i.Iter).(Struct)
	r := x.term(it.F[0])
	m := x.term(it.F[1])
	rg := i.Iter.(*ssa.Range)
	mt := rg.X.Type().Underlying().(*types.Map)
	ks := leavesOf(mt.Key())[0].Sort
	n := "I:" + ks
	h := x.heap(st, n, arr(SInt, arr(ks, SBool)))
	ok := x.fresh("ok", SBool)
	k := x.fresh("key", ks)
	dom := Sel(x.mapDom(st, rg.X.Type()), m)
	vis := Sel(h, r)
	x.assume(st, Imp(ok, And(Not(Eq(m, TI(0))), Sel(dom, k), Not(Sel(vis, k)))))
	x.nbound++
	b := fmt.Sprintf("k!b%d", x.nbound)
	x.assume(st, Imp(Not(ok), Term{fmt.Sprintf("(forall ((%s %s)) (! (=> (and (not (= %s 0)) (select %s %s)) (select %s %s)) :pattern ((select %s %s)) :pattern ((select %s %s))))", b, ks, m.S, dom.S, b, vis.S, b, vis.S, b, dom.S, b), SBool}))
	x.setHeap(st, n, Ite(ok, Store(h, r, Store(vis, k, TTrue)), h))
	var ts []Term
	for _, l := range leavesOf(mt.Elem()) {
		hh := x.heap(st, mapHeap(rg.X.Type(), l.Path), arr(SInt, arr(ks, l.Sort)))
		ts = append(ts, x.define("mv", Sel(Sel(hh, m), k)))
	}
	x.logStore(st, "I:"+ks, r)
	var kv Val = Scalar{k}
	return Tuple{[]Val{Scalar{ok}, kv, x.build(mt.Elem(), ts)}}
}

// ---- defers, panics ----

func (x *Exec) runDefers(fr *Frame, st *State) {
	ds := st.defers
	st.defers = nil
	for k := len(ds) - 1; k >= 0; k-- {
		d := ds[k]
		if d.pc.S == st.pc.S || strings.Contains(" "+st.pc.S+" ", " "+d.pc.S+" ") {
			x.runDeferred(fr, st, d)
			continue
		}
		// conditional defer
		s1, s2 := st.clone(), st.clone()
		s1.pc = x.define("pc", And(st.pc, d.pc))
		s2.pc = x.define("pc", And(st.pc, Not(d.pc)))
		x.runDeferred(fr, s1, d)
		m := x.mergeStates([]inEdge{{0, s1}, {1, s2}})
		if m == nil {
			st.pc = TFalse
			return
		}
		pc := st.pc
		*st = *m
		if st.pc.S != pc.S && s1.pc.S != "false" {
			x.assumeTop(Eq(st.pc, pc))
		}
		st.pc = pc
	}
}

func (x *Exec) runDeferred(fr *Frame, st *State, d *deferRec) {
	x.nextDefer = true
	x.invoke(fr, st, d.pos, d.call, d.fn, d.args)
	x.nextDefer = false
}

func (x *Exec) doPanic(fr *Frame, st *State, i *ssa.Panic) {
	if x.raise(fr, st, true) {
		return
	}
	name := x.topKey() + "/no-panic@" + x.where(fr)
	if x.top != nil && x.eng.panicsFlag(x.top) != "" {
		// the contract says exactly when a panic is allowed
		e := parseExpr(x.eng.panicsFlag(x.top))
		env := &SEnv{x: x, vars: x.topEnv, st: x.entry, old: x.entry, pol: 1}
		x.check(st, "safe", name, "panic at "+x.posOf(i)+" only when "+x.eng.panicsFlag(x.top), env.boolean(e))
		return
	}
	x.check(st, "safe", name, "panic at "+x.posOf(i)+" is unreachable", TFalse)
}

// ---- loops ----

func (x *Exec) loopHead(fr *Frame, b *ssa.BasicBlock, id string, entry *State, phis []*ssa.Phi, entryVals map[ssa.Value]Val) *loopRec {
	l := &loopRec{id: id, fr: fr, header: b, entry: entry.clone(), scope: map[string]string{}}
	if x.lp.mod[id] == nil {
		x.lp.mod[id] = map[string]bool{}
		x.lp.exc[id] = map[string]map[string]bool{}
	}
	var entryPc = entry.pc
	head := entry.clone()
	_ = entryPc
	var mods []string
	for h := range x.lp.mod[id] {
		mods = append(mods, h)
	}
	sort.Strings(mods)
	// scope of reference-valued bindings (before the havoc)
	x.collectScope(fr, b, l)
	for _, h := range mods {
		srt := x.lp.sorts[h]
		x.heap(entry, h, srt)
		x.heap(l.entry, h, srt)
		head.heaps[h] = x.fresh("hl$"+h, srt)
	}
	if x.lp.alloc[id] {
		head.alloc = x.fresh("alloc", SInt)
		x.assumeTop(Le(entry.alloc, head.alloc))
	}
	over := map[ssa.Value]Val{}
	for _, p := range phis {
		v := x.tryVal(func() Val { return x.freshVal(head, p.Name(), p.Type()) }, head, p.Type(), "phi")
		over[p] = v
	}
	// unchanged pointers/functions keep their static identity
	for _, p := range phis {
		if f, ok := entryVals[p].(Func); ok {
			over[p] = f
		}
	}
	if x.parKey != nil {
		x.parRank = Scalar{x.fresh("rank", SInt)}
		over[x.parKey] = x.parRank
		x.assume(head, Le(TI(0), x.term(x.parRank)))
	}
	cands := x.candidates(fr, b, l, phis, entryVals, mods)
	for p, v := range entryVals {
		fr.env[p] = v
	}
	for _, c := range cands {
		if x.lp.dead[c.key] || !x.lp.allowed(c.key) {
			continue
		}
		x.lp.known[c.key] = true
		l.cands = append(l.cands, c)
		func() {
			defer func() {
				if r := recover(); r != nil {
					x.lp.dropNow(c.key, r)
				}
			}()
			g := c.eval(entry, entryVals, 1)
			if g.S != "true" {
				o := x.oblige(entry, "cand-entry", c.key, "loop invariant candidate holds on entry", g)
				o.Cand = c.key
			}
		}()
	}
	for p, v := range over {
		fr.env[p] = v
	}
	l.head = head
	for _, c := range l.cands {
		func() {
			defer func() {
				if r := recover(); r != nil {
					x.lp.dropNow(c.key, r)
				}
			}()
			x.assume(head, c.eval(head, over, -1))
		}()
	}
	x.loops = append(x.loops, l)
	return l
}

// dropNow discards a candidate that cannot even be stated here.
func (lp *LoopInfo) dropNow(key string, r interface{}) {
	if os.Getenv("GOVC_V") == "2" && !lp.dead[key] {
		fmt.Fprintln(os.Stderr, "dropped", key, r)
	}
	lp.dead[key] = true
}

func (x *Exec) loopBack(fr *Frame, l *loopRec, from int, st *State) {
	if l == nil {
		panic("irreducible loop")
	}
	x.loopMods(l, st)
	x.loopBackPhis(fr, l, from, st)
}

func (x *Exec) loopMods(l *loopRec, st *State) {
	id := l.id
	// modified heaps
	for h, t := range st.heaps {
		ht, ok := l.head.heaps[h]
		if !ok {
			ht = x.heap0[h]
		}
		if ht.S != t.S && !x.lp.mod[id][h] {
			x.lp.mod[id][h] = true
			x.lp.sorts[h] = t.Sort
			x.restart = true
		}
	}
	if st.alloc.S != l.head.alloc.S && !x.lp.alloc[id] {
		x.lp.alloc[id] = true
		x.restart = true
	}
	if len(st.defers) > len(l.head.defers) {
		x.reportUnsup(st, "defer inside a loop")
	}
}

func (x *Exec) loopBackPhis(fr *Frame, l *loopRec, from int, st *State) {
	over := map[ssa.Value]Val{}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		over[p] = x.value(fr, p.Edges[from])
	}
	x.loopCands(l, st, over)
}

// loopBackWith is the back edge of a pseudo-loop.
func (x *Exec) loopBackWith(l *loopRec, st *State, over map[ssa.Value]Val) {
	x.loopMods(l, st)
	x.loopCands(l, st, over)
}

func (x *Exec) loopCands(l *loopRec, st *State, over map[ssa.Value]Val) {
	for _, c := range l.cands {
		func() {
			defer func() {
				if r := recover(); r != nil {
					x.lp.dropNow(c.key, r)
				}
			}()
			g := c.eval(st, over, 1)
			if g.S != "true" {
				o := x.oblige(st, "cand-step", c.key, "loop invariant candidate is preserved", g)
				o.Cand = c.key
			}
		}()
	}
}

func (x *Exec) logStore(st *State, heapPrefix string, ref Term) {
	for _, l := range x.loops {
		if l.head == nil {
			continue
		}
		if k, ok := l.scope[ref.S]; ok {
			m := x.lp.exc[l.id]
			if m[heapPrefix] == nil {
				m[heapPrefix] = map[string]bool{}
			}
			if !m[heapPrefix][k] {
				m[heapPrefix][k] = true
				x.restart = true
			}
		}
	}
}

// bindings visible at a loop header: parameters, free variables and dominating values of
// the frame and of its callers.
type binding struct {
	key   string
	t     types.Type
	get   func(st *State, over map[ssa.Value]Val) Val
	phi   bool
	own   bool
	outer bool // a phi of an enclosing loop
	field bool // a field of a structure in scope: not used to fill templates
}

func (x *Exec) bindingsAt(fr *Frame, b *ssa.BasicBlock, phis []*ssa.Phi, entryVals map[ssa.Value]Val) []binding {
	var out []binding
	for _, p := range phis {
		p := p
		out = append(out, binding{key: "phi." + p.Name(), t: p.Type(), phi: true, own: true, get: func(st *State, over map[ssa.Value]Val) Val {
			return over[p]
		}})
	}
	inPar := x.parKey != nil
	if inPar {
		k := x.parKey
		out = append(out, binding{key: "phi.rank", t: types.Typ[types.Int], phi: true, own: true, get: func(st *State, over map[ssa.Value]Val) Val {
			return over[k]
		}})
	}
	add := func(f *Frame, v ssa.Value, val Val, own bool) {
		pre := ""
		if !own {
			pre = f.path + ":"
		}
		if val == nil {
			return
		}
		ph, isPhi := v.(*ssa.Phi)
		outer := isPhi && f.fn.Blocks != nil && inCycle(ph.Block(), b)
		out = append(out, binding{key: pre + v.Name(), t: v.Type(), own: own, outer: outer, get: func(*State, map[ssa.Value]Val) Val { return val }})
		if p, ok := val.(Ptr); ok && (p.K == PCell) {
			out = append(out, binding{key: pre + "*" + v.Name(), t: p.To, own: own, get: func(st *State, _ map[ssa.Value]Val) Val { return x.loadPtr(st, p) }})
		}
	}
	fields := func(key string, t types.Type, own bool, get func(st *State) Val) {
		str, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < str.NumFields(); i++ {
			i := i
			ft := str.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Slice, *types.Pointer, *types.Map:
			default:
				continue
			}
			out = append(out, binding{key: key + "." + str.Field(i).Name(), t: ft, own: own, field: true, get: func(st *State, _ map[ssa.Value]Val) Val {
				v := get(st)
				if s, ok := v.(Struct); ok && i < len(s.F) {
					return s.F[i]
				}
				return nil
			}})
		}
	}
	add0 := add
	add = func(f *Frame, v ssa.Value, val Val, own bool) {
		add0(f, v, val, own)
		if val == nil {
			return
		}
		pre := ""
		if !own {
			pre = f.path + ":"
		}
		fields(pre+v.Name(), v.Type(), own, func(*State) Val { return val })
		if p, ok := val.(Ptr); ok && p.To != nil {
			fields(pre+"*"+v.Name(), p.To, own, func(st *State) Val { return x.loadPtr(st, p) })
		}
	}
	cur, blk := fr, b
	own := true
	for cur != nil {
		for _, p := range cur.fn.Params {
			add(cur, p, cur.env[p], own)
		}
		for _, p := range cur.fn.FreeVars {
			add(cur, p, cur.env[p], own)
		}
		for _, bb := range cur.fn.Blocks {
			if bb == blk || !bb.Dominates(blk) {
				if !(bb == blk && (!own || inPar)) {
					continue
				}
			}
			for _, in := range bb.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if v == x.parKey {
						continue
					}
					if val, ok := cur.env[v]; ok && val != nil {
						add(cur, v, val, own)
					}
				}
			}
		}
		// the caller's current block is unknown here; only its completed dominating
		// values matter and extra ones are harmless (they are simply candidates)
		if cur.parent != nil {
			blk = x.callBlock[cur]
		}
		cur = cur.parent
		own = false
	}
	return out
}

func (x *Exec) collectScope(fr *Frame, b *ssa.BasicBlock, l *loopRec) {
	for _, bd := range x.bindingsAt(fr, b, nil, nil) {
		func() {
			defer func() { recover() }()
			v := bd.get(l.entry, nil)
			switch s := v.(type) {
			case Slice:
				if _, ok := l.scope[s.Base.S]; !ok && s.Base.S != "0" {
					l.scope[s.Base.S] = bd.key
				}
			case Ptr:
				if s.K != PElem {
					if _, ok := l.scope[s.Ref.S]; !ok && s.Ref.S != "0" {
						l.scope[s.Ref.S] = bd.key
					}
				} else if _, ok := l.scope[s.Ref.S]; !ok {
					l.scope[s.Ref.S] = bd.key
				}
			case Scalar:
				if s.T.Sort == SInt {
					switch bd.t.Underlying().(type) {
					case *types.Map, *types.Chan:
						if _, ok := l.scope[s.T.S]; !ok && s.T.S != "0" {
							l.scope[s.T.S] = bd.key
						}
					}
				}
			case Struct:
				if len(s.F) > 0 {
					if r, ok := s.F[0].(Scalar); ok && strings.HasPrefix(r.T.S, "ref_iter") {
						l.scope[r.T.S] = bd.key
					}
				}
			}
		}()
	}
}

func matchType(pat string, t types.Type) bool {
	switch pat {
	case "any":
		return true
	}
	u := t.Underlying()
	basic := func(info types.BasicInfo) bool {
		b, ok := u.(*types.Basic)
		return ok && b.Info()&info != 0
	}
	switch pat {
	case "int":
		return basic(types.IsInteger)
	case "real":
		return basic(types.IsFloat)
	case "bool":
		return basic(types.IsBoolean)
	case "string":
		return basic(types.IsString)
	case "iface":
		return types.IsInterface(t)
	case "map":
		_, ok := u.(*types.Map)
		return ok
	case "iter":
		return strings.Contains(t.String(), "iter") && false
	}
	if strings.HasPrefix(pat, "[]") {
		s, ok := u.(*types.Slice)
		return ok && matchType(pat[2:], s.Elem())
	}
	if strings.HasPrefix(pat, "*") {
		s, ok := u.(*types.Pointer)
		return ok && matchType(pat[1:], s.Elem())
	}
	return typeKey(t) == pat
}

// modFrame: the frame of the function under verification (its modifies clauses) for some heaps
func (x *Exec) modFrame(hs []string) func(st *State, over map[ssa.Value]Val, pol int) Term {
	if x.modEx == nil && x.modPre == nil {
		return nil
	}
	some := false
	for _, h := range hs {
		some = some || len(exemptsOf(h, x.modEx, x.modPre)) > 0
	}
	if !some {
		return nil
	}
	return func(st *State, over map[ssa.Value]Val, pol int) Term {
		var all []Term
		for _, h := range hs {
			h0, h1 := x.heapIn(x.entry, h), x.heapIn(st, h)
			if h0.S == "" || h1.S == "" || h0.S == h1.S {
				continue
			}
			es := exemptsOf(h, x.modEx, x.modPre)
			if anyAll(es) {
				continue
			}
			x.nbound++
			r := Term{fmt.Sprintf("r!b%d", x.nbound), SInt}
			cond := []Term{Le(x.frameRef(h, r), x.alloc0), Not(Eq(r, TI(0)))}
			for _, e := range es {
				cond = append(cond, Not(Eq(r, e.ref)))
			}
			body := Imp(And(cond...), Eq(Sel(h1, r), Sel(h0, r)))
			all = append(all, Term{fmt.Sprintf("(forall ((%s Int)) (! %s :pattern ((select %s %s))))", r.S, body.S, h1.S, r.S), SBool})
			for _, e := range es {
				if e.lo.S == "" || !strings.HasPrefix(h, "E:") {
					continue
				}
				x.nbound++
				i := Term{fmt.Sprintf("i!b%d", x.nbound), SInt}
				outside := []Term{Le(e.ref, x.alloc0)}
				for _, f := range es {
					if f.lo.S == "" {
						outside = append(outside, Not(Eq(f.ref, e.ref)))
					} else {
						outside = append(outside, Or(Not(Eq(f.ref, e.ref)), Or(Lt(i, f.lo), Le(f.hi, i))))
					}
				}
				g := Sel(Sel(h1, e.ref), i)
				body := Imp(And(outside...), Eq(g, Sel(Sel(h0, e.ref), i)))
				all = append(all, Term{fmt.Sprintf("(forall ((%s Int)) (! %s :pattern (%s)))", i.S, body.S, g.S), SBool})
			}
		}
		return And(all...)
	}
}

func (x *Exec) candidates(fr *Frame, b *ssa.BasicBlock, l *loopRec, phis []*ssa.Phi, entryVals map[ssa.Value]Val, mods []string) []*cand {
	var out []*cand
	if x.lp.noCand {
		return nil
	}
	id := l.id
	bs := x.bindingsAt(fr, b, phis, entryVals)
	// iterator bindings for map ranges
	addc := func(key string, f func(st *State, over map[ssa.Value]Val, pol int) Term) {
		out = append(out, &cand{key: id + "|" + key, eval: f})
	}
	// --- generic frames
	groups := map[string][]string{}
	for _, h := range mods {
		g := heapGroup(h)
		groups[g] = append(groups[g], h)
	}
	var gs []string
	for g := range groups {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		hs := groups[g]
		if strings.HasPrefix(g, "A:") || strings.HasPrefix(g, "B:") || strings.HasPrefix(g, "B1:") || g == panicHeap {
			continue
		}
		if strings.HasPrefix(g, "g:") {
			if g == lockHeap {
				addc("locks", func(st *State, over map[ssa.Value]Val, pol int) Term {
					return Eq(x.heapIn(st, lockHeap), x.heapIn(l.entry, lockHeap))
				})
			}
			continue
		}
		g := g
		exc := x.lp.exc[id][excKey(g)]
		mk := func(base *State, bound Term, ex []binding) func(st *State, over map[ssa.Value]Val, pol int) Term {
			return func(st *State, over map[ssa.Value]Val, pol int) Term {
				var all []Term
				for _, h := range hs {
					h0 := x.heapIn(base, h)
					h1 := x.heapIn(st, h)
					if h0.S == "" || h1.S == "" || h0.S == h1.S {
						continue
					}
					x.nbound++
					r := Term{fmt.Sprintf("r!b%d", x.nbound), SInt}
					cond := []Term{Le(x.frameRef(h, r), bound)}
					for _, e := range ex {
						cond = append(cond, Not(Eq(r, refOfBinding(x, e, base))))
					}
					body := Imp(And(cond...), Eq(Sel(h1, r), Sel(h0, r)))
					all = append(all, Term{fmt.Sprintf("(forall ((%s Int)) (! %s :pattern ((select %s %s))))", r.S, body.S, h1.S, r.S), SBool})
				}
				return And(all...)
			}
		}
		var ex []binding
		for _, bd := range bs {
			if exc[bd.key] {
				ex = append(ex, bd)
			}
		}
		addc("frame-entry:"+g, mk(l.entry, l.entry.alloc, ex))
		if len(ex) > 0 || l.entry.alloc.S != x.alloc0.S {
			addc("frame-fn:"+g, mk(x.entry, x.alloc0, nil))
		}
		if ef := x.modFrame(hs); ef != nil {
			addc("frame-mod:"+g, ef)
		}
	}
	// --- integer bounds
	type ib struct {
		key string
		get func(st *State, over map[ssa.Value]Val) Term
	}
	var limits []ib
	seenLim := map[string]bool{}
	for _, bd := range bs {
		bd := bd
		if bd.phi {
			continue
		}
		func() {
			defer func() { recover() }()
			v := bd.get(l.entry, entryVals)
			switch s := v.(type) {
			case Slice:
				if !seenLim[s.Len.S] {
					seenLim[s.Len.S] = true
					limits = append(limits, ib{"len(" + bd.key + ")", func(st *State, over map[ssa.Value]Val) Term { return bd.get(st, over).(Slice).Len }})
				}
			case Scalar:
				if matchType("int", bd.t) && !seenLim[s.T.S] {
					if _, c := s.T.isConstInt(); !c {
						seenLim[s.T.S] = true
						limits = append(limits, ib{bd.key, func(st *State, over map[ssa.Value]Val) Term { return x.term(bd.get(st, over)) }})
					}
				}
			}
		}()
	}
	if len(limits) > 14 {
		limits = limits[:14]
	}
	var ints []*ssa.Phi
	for _, p := range phis {
		if matchType("int", p.Type()) {
			ints = append(ints, p)
		}
	}
	for _, p := range ints {
		p := p
		ev := entryVals[p]
		if ev == nil {
			continue
		}
		addc(p.Name()+">=entry", func(st *State, over map[ssa.Value]Val, pol int) Term { return Le(x.term(ev), x.term(over[p])) })
		addc(p.Name()+"<=entry", func(st *State, over map[ssa.Value]Val, pol int) Term { return Le(x.term(over[p]), x.term(ev)) })
		addc(p.Name()+">=0", func(st *State, over map[ssa.Value]Val, pol int) Term { return Le(TI(0), x.term(over[p])) })
		for _, lim := range limits {
			lim := lim
			addc(p.Name()+"<="+lim.key, func(st *State, over map[ssa.Value]Val, pol int) Term {
				return Le(x.term(over[p]), lim.get(st, over))
			})
			addc(p.Name()+"<"+lim.key, func(st *State, over map[ssa.Value]Val, pol int) Term {
				return Lt(x.term(over[p]), lim.get(st, over))
			})
		}
		for _, q := range ints {
			q := q
			if q.Name() <= p.Name() || entryVals[q] == nil {
				continue
			}
			eq := entryVals[q]
			addc(p.Name()+"-"+q.Name()+"=entry", func(st *State, over map[ssa.Value]Val, pol int) Term {
				return Eq(Sub(x.term(over[p]), x.term(over[q])), Sub(x.term(ev), x.term(eq)))
			})
			addc(p.Name()+"+"+q.Name()+"=entry", func(st *State, over map[ssa.Value]Val, pol int) Term {
				return Eq(Add(x.term(over[p]), x.term(over[q])), Add(x.term(ev), x.term(eq)))
			})
		}
	}
	// slice phis: lengths relative to int phis
	// --- templates of the contract
	if x.top == nil {
		return out
	}
	for _, tpl := range x.top.Invs {
		tpl := tpl
		x.instTemplate(fr, tpl, bs, phis, l, entryVals, addc)
	}
	return out
}

func excKey(group string) string {
	return group
}

// heapGroup groups the leaves of one location.
func heapGroup(h string) string {
	if i := strings.LastIndex(h, "."); i > 0 {
		switch h[i:] {
		case ".b", ".o", ".l", ".c":
			return h[:i]
		}
	}
	if i := strings.Index(h, "#dom"); i > 0 {
		return h[:i]
	}
	if strings.HasPrefix(h, "E:") {
		// struct elements: group by element type
		if i := strings.Index(h[2:], "."); i > 0 {
			rest := h[2:]
			j := strings.LastIndex(rest, ".")
			// keep package-qualified type names such as core.Elemt
			if strings.Count(rest, ".") > 1 {
				return "E:" + rest[:j]
			}
		}
	}
	return h
}

func (x *Exec) frameRef(h string, r Term) Term {
	if strings.HasPrefix(h, "F:") || strings.HasPrefix(h, "O:") {
		return x.root(r)
	}
	return r
}

func refOfBinding(x *Exec, b binding, st *State) Term {
	switch s := b.get(st, nil).(type) {
	case Slice:
		return s.Base
	case Ptr:
		return s.Ref
	case Scalar:
		return s.T
	case Struct:
		return x.term(s.F[0])
	}
	panic(unsup("reference of binding"))
}

func (x *Exec) instTemplate(fr *Frame, tpl InvT, bs []binding, phis []*ssa.Phi, l *loopRec, entryVals map[ssa.Value]Val, addc func(string, func(*State, map[ssa.Value]Val, int) Term)) {
	type choice struct {
		key string
		get func(st *State, over map[ssa.Value]Val) SV
	}
	var opts [][]choice
	for _, h := range tpl.Holes {
		var cs []choice
		pat := h.Type
		phiOnly := false
		if strings.HasPrefix(pat, "phi ") {
			phiOnly = true
			pat = strings.TrimSpace(pat[4:])
		}
		outerOnly := false
		if strings.HasPrefix(pat, "outer ") {
			outerOnly = true
			pat = strings.TrimSpace(pat[6:])
		}
		seen := map[string]bool{}
		for _, b := range bs {
			b := b
			if b.field || outerOnly && !b.outer {
				continue
			}
			if pat == "iter" {
				if r, ok := func() (s Struct, ok bool) {
					defer func() { recover() }()
					s, ok = b.get(l.entry, entryVals).(Struct)
					return
				}(); ok && len(r.F) == 2 {
					if sc, ok := r.F[0].(Scalar); ok && strings.HasPrefix(sc.T.S, "ref_iter") {
						cs = append(cs, choice{b.key, func(st *State, over map[ssa.Value]Val) SV {
							return SV{V: b.get(st, over).(Struct).F[0], S: "ref"}
						}})
					}
				}
				continue
			}
			if phiOnly && !b.phi || !matchType(pat, b.t) {
				continue
			}
			if !b.phi {
				// avoid duplicates with the same entry term
				k := func() (k string) {
					defer func() { recover() }()
					for _, t := range x.flatten(b.get(l.entry, entryVals)) {
						k += t.S + ","
					}
					return
				}()
				if k == "" || seen[k] {
					continue
				}
				seen[k] = true
				if pat == "int" {
					if _, c := (Term{strings.TrimSuffix(k, ","), SInt}).isConstInt(); c {
						continue
					}
				}
			}
			cs = append(cs, choice{b.key, func(st *State, over map[ssa.Value]Val) SV { return SV{V: b.get(st, over), T: b.t} }})
			if (b.phi || outerOnly) && pat == "int" {
				cs = append(cs, choice{b.key + "+1", func(st *State, over map[ssa.Value]Val) SV {
					return SV{V: Scalar{Add(x.term(b.get(st, over)), TI(1))}, T: b.t}
				}})
			}
		}
		if len(cs) == 0 {
			return
		}
		opts = append(opts, cs)
	}
	// enumerate combinations (bounded)
	total := 1
	for _, o := range opts {
		total *= len(o)
	}
	const maxComb = 400
	idx := make([]int, len(opts))
	for n := 0; n < total && n < maxComb; n++ {
		pick := make([]choice, len(opts))
		key := fmt.Sprintf("T%d", tpl.Id)
		for k := range opts {
			pick[k] = opts[k][idx[k]]
			key += "," + pick[k].key
		}
		addc(key, func(st *State, over map[ssa.Value]Val, pol int) Term {
			holes := map[string]SV{}
			for k, h := range tpl.Holes {
				holes[h.Name] = pick[k].get(st, over)
			}
			env := &SEnv{x: x, vars: x.topEnv, st: st, old: x.entry, loop0: l.entry, holes: holes, pol: pol}
			return env.boolean(tpl.E)
		})
		for k := len(idx) - 1; k >= 0; k-- {
			idx[k]++
			if idx[k] < len(opts[k]) {
				break
			}
			idx[k] = 0
		}
	}
}

// inCycle: the block h heads a loop (some block it dominates jumps back to it) that
// contains block b, or, for a frame other than b's, heads any loop.
func inCycle(h, b *ssa.BasicBlock) bool {
	if h == b {
		return false
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			return h.Parent() != b.Parent() || h.Dominates(b)
		}
	}
	return false
}

var _ = constant.MakeInt64
