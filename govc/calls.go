package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) fnKey(f *ssa.Function) string { return fnKey(f) }

func fnKey(f *ssa.Function) string {
	if f.Parent() != nil {
		return fnKey(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Name()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return typePkg(p.Elem(), pkg) + ".(*" + typeName(p.Elem()) + ")." + f.Name()
		}
		return typePkg(t, pkg) + "." + typeName(t) + "." + f.Name()
	}
	return pkg + "." + f.Name()
}

func typePkg(t types.Type, def string) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name()
	}
	return def
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// callParts evaluates the callee and the arguments of a call.
func (x *Exec) callParts(fr *Frame, st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.value(fr, a))
	}
	return x.value(fr, c.Value), args
}

func (x *Exec) call(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon) Val {
	fn, args := x.callParts(fr, st, c)
	return x.invoke(fr, st, in, c, fn, args)
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (x *Exec) invoke(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val) Val {
	if c.IsInvoke() {
		return x.invokeIface(fr, st, in, c, fn, args)
	}
	return x.callValue(fr, st, in, c, fn, args)
}

func (x *Exec) callValue(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val) Val {
	if f, ok := fn.(Func); ok {
		if f.Bld != "" {
			return x.builtin(fr, st, in, c, f.Bld, args)
		}
		return x.callFn(fr, st, in, f, args, resultType(c))
	}
	t := x.term(fn)
	if f, ok := x.fnReg[t.S]; ok {
		return x.callFn(fr, st, in, f, args, resultType(c))
	}
	if f, ok := x.fnReg[x.resolve(t).S]; ok {
		return x.callFn(fr, st, in, f, args, resultType(c))
	}
	if alts, ok := x.fnAlt[t.S]; ok {
		var ins []inEdge
		var vals []Val
		for _, a := range alts {
			s := st.clone()
			s.pc = x.define("pc", And(st.pc, a.C))
			v := x.callValue(fr, s, in, c, a.V, args)
			ins = append(ins, inEdge{0, s})
			vals = append(vals, v)
		}
		return x.joinInto(st, ins, vals)
	}
	// function-valued parameter or field: by the contract of its type or origin
	x.safe(st, fr, in, "nil-function", Not(Eq(t, TI(0))))
	key := x.funcOrigin(c.Value)
	for _, k := range []string{key, typeKey(c.Value.Type())} {
		if ct := x.eng.sp.Funcs[k]; ct != nil {
			all := append([]Val{Scalar{t}}, args...)
			var ts []types.Type
			ts = append(ts, c.Value.Type())
			for _, a := range c.Args {
				ts = append(ts, a.Type())
			}
			return x.applyContract(fr, st, in, ct, all, ts, resultType(c))
		}
	}
	panic(unsup("call of unknown function value %s of type %s", key, typeKey(c.Value.Type())))
}

// joinInto merges alternative outcomes back into st.
func (x *Exec) joinInto(st *State, ins []inEdge, vals []Val) Val {
	m := x.mergeStates(ins)
	if m == nil {
		st.pc = TFalse
		return nil
	}
	var v Val
	has := false
	for _, w := range vals {
		if w != nil {
			has = true
		}
	}
	if has {
		v = x.defineVal("alt", x.mergeVals(ins, vals))
	}
	d := st.defers
	*st = *m
	st.defers = d
	return v
}

// funcOrigin describes where a function value was loaded from.
func (x *Exec) funcOrigin(v ssa.Value) string {
	switch o := v.(type) {
	case *ssa.Parameter:
		return fnKey(o.Parent()) + ":" + fmt.Sprint(paramIndex(o))
	case *ssa.FreeVar:
		if b := closureBinding(o); b != nil {
			return x.funcOrigin(b)
		}
		return "freevar"
	case *ssa.Alloc:
		var stored ssa.Value
		for _, r := range *o.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == o {
				if stored != nil {
					return "variable"
				}
				stored = s.Val
			}
		}
		if stored != nil {
			return x.funcOrigin(stored)
		}
	case *ssa.UnOp:
		if o.Op == token.MUL {
			if f, ok := o.X.(*ssa.FieldAddr); ok {
				t := f.X.Type().Underlying().(*types.Pointer).Elem()
				return typeKey(t) + "." + t.Underlying().(*types.Struct).Field(f.Field).Name()
			}
			return x.funcOrigin(o.X)
		}
	case *ssa.Field:
		t := o.X.Type()
		return typeKey(t) + "." + t.Underlying().(*types.Struct).Field(o.Field).Name()
	case *ssa.Phi:
		return "phi"
	}
	return "?"
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func (x *Exec) contractFor(f *ssa.Function) *Contract {
	c := x.eng.sp.Contracts[fnKey(f)]
	if c == nil || !x.eng.inPropStrict(c.Props) {
		return nil
	}
	if len(c.Params) != len(f.Params) && f.Blocks != nil {
		return nil
	}
	if len(c.Results) != 0 && len(c.Results) != f.Signature.Results().Len() {
		return nil
	}
	return c
}

func (x *Exec) callFn(fr *Frame, st *State, in ssa.Instruction, f Func, args []Val, rt types.Type) Val {
	fn := f.Fn
	key := fnKey(fn)
	if h, ok := intrinsics[key]; ok {
		r := h(x, fr, st, in, args, rt)
		if ct := x.contractFor(fn); ct != nil && ct.Kind == "extern" {
			// what else is assumed of a function that the engine models
			x.usedC[ct.Key] = true
			var ts []types.Type
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				ts = append(ts, fn.Signature.Params().At(i).Type())
			}
			vars := x.contractEnv(ct, args, ts)
			x.bindResults(ct, vars, r, rt)
			env := &SEnv{x: x, vars: vars, st: st, old: st, pol: -1}
			for _, en := range ct.Ensures {
				x.assume(st, env.boolean(en.E))
			}
		}
		return r
	}
	ct := x.contractFor(fn)
	if ct != nil && ct.Flags["inline"] != "" && len(fn.Blocks) > 0 {
		ct = nil
	}
	if ct != nil && ct.Flags["inline-in"] != "" && x.top != nil && strings.Contains(" "+ct.Flags["inline-in"]+" ", " "+x.top.Key+" ") {
		ct = nil
	}
	if ct != nil {
		var ts []types.Type
		if len(fn.Params) > 0 {
			for _, p := range fn.Params {
				ts = append(ts, p.Type())
			}
		} else {
			if r := fn.Signature.Recv(); r != nil {
				ts = append(ts, r.Type())
			}
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				ts = append(ts, fn.Signature.Params().At(i).Type())
			}
		}
		if key == "core.Par" {
			return x.callPar(fr, st, in, ct, args)
		}
		return x.applyContract(fr, st, in, ct, args, ts, rt)
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fr != nil && fr.fn.Name() == "init" && fr.fn.Synthetic != "" {
		// initialization of an imported package: it cannot write this package's variables
		return x.deadVal(fn)
	}
	inRepo := fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule)
	if fn.Pkg == nil && fn.Synthetic != "" {
		inRepo = true
	}
	if fn.Parent() != nil {
		inRepo = true
	}
	if !inRepo || len(fn.Blocks) == 0 {
		panic(unsup("call of %s, which has no contract", key))
	}
	return x.inline(fr, st, in, f, args)
}

func (x *Exec) inline(fr *Frame, st *State, in ssa.Instruction, f Func, args []Val) Val {
	fn := f.Fn
	depth := 0
	for p := fr; p != nil; p = p.parent {
		if p.fn == fn {
			panic(unsup("recursive call of %s", fnKey(fn)))
		}
		depth++
	}
	if depth > 14 {
		panic(unsup("inlining depth at %s", fnKey(fn)))
	}
	if fn.Synthetic == "" {
		x.inlined[fnKey(fn)] = true
	}
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: fr, deferred: x.nextDefer}
	x.nextDefer = false
	if fr != nil {
		fr.ncall++
		nf.path = fmt.Sprintf("%s>%s@%d", fr.path, fn.Name(), fr.ncall)
		if in != nil {
			x.callBlock[nf] = in.Block()
		}
	} else {
		nf.path = fn.Name()
	}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		nf.env[v] = f.Bind[i]
	}
	out, v := x.runBody(nf, st)
	if out == nil {
		st.pc = TFalse
		st.dead = true
		return x.deadVal(fn)
	}
	d := st.defers
	*st = *out
	st.defers = d
	return v
}

func (x *Exec) deadVal(fn *ssa.Function) Val {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return x.zero(r.At(0).Type())
	}
	return x.zero(r)
}

// invokeIface resolves an interface method call.
func (x *Exec) invokeIface(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val) Val {
	b := x.term(recv)
	if d, ok := x.dynOf[b.S]; ok && !types.IsInterface(d.T) {
		m := x.eng.methodOf(d.T, c.Method)
		if m != nil {
			return x.callFn(fr, st, in, Func{Fn: m}, append([]Val{d.V}, args...), resultType(c))
		}
	}
	it := c.Value.Type()
	ik := typeKey(it)
	x.safe(st, fr, in, "nil-interface", Not(Eq(b, TI(0))))
	// promoted through embedding: the interface that declares the method
	key := x.ifaceMethodKey(it, c.Method)
	ct := x.eng.sp.Contracts[key]
	if ct != nil && !x.eng.inPropStrict(ct.Props) {
		ct = nil
	}
	if ct != nil {
		ts := []types.Type{it}
		sig := c.Method.Type().(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		return x.applyContract(fr, st, in, ct, append([]Val{Scalar{b}}, args...), ts, resultType(c))
	}
	if impls, ok := x.eng.sp.Dispatch[ik]; ok {
		var ins []inEdge
		var vals []Val
		var any []Term
		for _, name := range impls {
			t := x.eng.typeByName(name)
			m := x.eng.methodOf(t, c.Method)
			if m == nil {
				panic(unsup("no method %s on %s", c.Method.Name(), name))
			}
			s := st.clone()
			is := Eq(x.tagOf(b), x.typeId(t))
			any = append(any, is)
			s.pc = x.define("pc", And(st.pc, is))
			r := x.unbox(s, b, t, true)
			v := x.callFn(fr, s, in, Func{Fn: m}, append([]Val{r}, args...), resultType(c))
			ins = append(ins, inEdge{0, s})
			vals = append(vals, v)
		}
		x.assumed["closed interface "+ik+": only "+strings.Join(impls, ", ")] = true
		x.assume(st, Or(any...))
		old := st.pc
		v := x.joinInto(st, ins, vals)
		st.pc = old
		return v
	}
	panic(unsup("interface call %s without contract", key))
}

func (x *Exec) ifaceMethodKey(it types.Type, m *types.Func) string {
	k := typeKey(it) + "." + m.Name()
	if x.eng.sp.Contracts[k] != nil {
		return k
	}
	iface := it.Underlying().(*types.Interface)
	for i := 0; i < iface.NumEmbeddeds(); i++ {
		e := iface.EmbeddedType(i)
		ei, ok := e.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for j := 0; j < ei.NumMethods(); j++ {
			if ei.Method(j).Name() == m.Name() {
				return x.ifaceMethodKey(e, ei.Method(j))
			}
		}
	}
	return k
}

// ---- contracts ----

func (x *Exec) contractEnv(c *Contract, args []Val, ts []types.Type) map[string]SV {
	m := map[string]SV{}
	for i, p := range c.Params {
		if i < len(args) {
			m[p] = SV{V: args[i], T: ts[i]}
		}
	}
	return m
}

func (x *Exec) applyContract(fr *Frame, st *State, in ssa.Instruction, c *Contract, args []Val, ts []types.Type, rt types.Type) Val {
	x.usedC[c.Key] = true
	vars := x.contractEnv(c, args, ts)
	env := &SEnv{x: x, vars: vars, st: st, old: st, pol: 1}
	for k, r := range c.Requires {
		if !x.eng.inProp(r.Props) {
			continue
		}
		e := *env
		g := e.boolean(r.E)
		nm := r.Name
		if nm == "" {
			nm = fmt.Sprint(k + 1)
		}
		x.check(st, "pre", x.topKey()+"/pre:"+c.Key+"#"+nm, "precondition of "+c.Key+" at "+x.posOf(in)+": "+r.Src, g)
	}
	if f := x.eng.panicsFlag(c); f != "" {
		// the callee panics exactly in these states
		bad := env.boolean(parseExpr(f))
		if !x.raise(fr, withPc(st, And(st.pc, bad)), true) {
			allowed := TFalse
			if x.top != nil && x.eng.panicsFlag(x.top) != "" {
				te := &SEnv{x: x, vars: x.topEnv, st: x.entry, old: x.entry, pol: 1}
				allowed = te.boolean(parseExpr(x.eng.panicsFlag(x.top)))
			}
			x.check(st, "safe", x.topKey()+"/no-panic:"+c.Key, "panic of "+c.Key+" at "+x.posOf(in), Or(Not(bad), allowed))
		}
		x.assume(st, Not(bad))
	}
	x.lockedCall(fr, st, in, c, args, ts)
	x.callClauses(st, in, c, vars)
	x.parArgs(st, in, c, args, ts)
	old := st.clone()
	if c.Flags["noalloc"] == "" {
		// before the havoc: what is written may be newly allocated
		a := x.fresh("alloc", SInt)
		x.assumeTop(Le(st.alloc, a))
		st.alloc = a
	}
	ng := x.noGuard
	x.noGuard = true
	for _, m := range x.eng.modifies(c) {
		x.havocLoc(st, old, vars, m)
	}
	x.noGuard = ng
	res := x.freshVal(st, "r."+shortKey(c.Key), rt)
	x.bindResults(c, vars, res, rt)
	if c.Flags["maypanic"] != "" {
		x.raiseMaybe(fr, st, in)
	}
	if c.Flags["noreturn"] != "" {
		st.pc = TFalse
		return res
	}
	env = &SEnv{x: x, vars: vars, st: st, old: old, pol: -1}
	snap := false
	first := map[string]Term{}
	for _, en := range c.Ensures {
		if len(en.Holes) > 0 {
			continue
		}
		if c.Kind == "func" && !x.eng.inProp(en.Props) {
			continue
		}
		if strings.Contains(en.Src, "acq(") {
			// for the callee's first or last acquisition, not for the caller's
			if !snap {
				snap = true
				first = x.forgetSnapshots(st)
			}
			e1 := *env
			e1.first = true
			x.assume(st, Or(env.boolean(en.E), e1.boolean(en.E)))
			continue
		}
		x.assume(st, env.boolean(en.E))
	}
	if snap {
		x.keepSnapshots(st, first)
	}
	for _, en := range c.Assumes {
		if x.eng.inPropStrict(en.Props) {
			x.assume(st, env.boolean(en.E))
			x.assumed["of each call of "+c.Key+": "+en.Src] = true
		}
	}
	if c.Holding != "" {
		x.holdingFacts(st, c, vars, -1, "")
	}
	var sets [][2]string
	for _, s := range c.Sets {
		if x.eng.inPropStrict(s.Props) {
			sets = append(sets, [2]string{s.Ghost, s.E})
		}
	}
	x.ghostSet(st, env.neutral(), sets)
	return res
}

// callClauses: what the function under verification promises at its calls of others
func (x *Exec) callClauses(st *State, in ssa.Instruction, c *Contract, vars map[string]SV) {
	if x.top == nil {
		return
	}
	for k, cc := range x.top.Calls {
		if cc.Key != c.Key || !x.eng.inProp(cc.Clause.Props) {
			continue
		}
		m := map[string]SV{}
		for n, v := range x.topEnv {
			m[n] = v
		}
		for i, p := range cc.Params {
			if i < len(c.Params) {
				m[p] = vars[c.Params[i]]
			}
		}
		nm := cc.Clause.Name
		if nm == "" {
			nm = fmt.Sprint(k + 1)
		}
		env := &SEnv{x: x, vars: m, st: st, old: x.entry, pol: 1}
		x.check(st, "call", x.topKey()+"/call:"+c.Key+"#"+nm, "call of "+c.Key+" at "+x.posOf(in)+": "+cc.Clause.Src, env.boolean(cc.Clause.E))
	}
}

// inProp: clauses tagged with properties only count (and are only relied on) there.
func (e *Engine) inProp(props []string) bool {
	if e.prop == "" || len(props) == 0 {
		return true
	}
	for _, p := range props {
		if p == e.prop {
			return true
		}
	}
	return false
}

// inPropStrict: what is declared for some properties only does not exist elsewhere.
func (e *Engine) inPropStrict(props []string) bool {
	return len(props) == 0 || e.prop != "" && e.inProp(props)
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (x *Exec) bindResults(c *Contract, vars map[string]SV, res Val, rt types.Type) {
	if tp, ok := rt.(*types.Tuple); ok {
		t, ok := res.(Tuple)
		if !ok {
			return
		}
		for i, n := range c.Results {
			if i < tp.Len() {
				vars[n] = SV{V: t.E[i], T: tp.At(i).Type()}
			}
		}
		return
	}
	if len(c.Results) == 1 {
		vars[c.Results[0]] = SV{V: res, T: rt}
	}
}

// havocLoc forgets the value of a location named in a modifies clause.
func (x *Exec) havocLoc(st, old *State, vars map[string]SV, loc string) {
	env := &SEnv{x: x, vars: vars, st: old, old: old}
	switch {
	case strings.HasPrefix(loc, "g."):
		n := loc[2:]
		h := x.ghost(st, n)
		st.heaps["g:"+n] = x.fresh("g$"+n, h.Sort)
		return
	case strings.HasPrefix(loc, "elems("):
		v := env.eval(parseExpr(loc[6 : len(loc)-1]))
		s := v.V.(Slice)
		elem := v.T.Underlying().(*types.Slice).Elem()
		for _, l := range leavesOf(elem) {
			n := "E:" + typeKey(elem) + l.Path
			h := x.heap(st, n, arr(SInt, arr(SInt, l.Sort)))
			row := x.fresh("row", arr(SInt, l.Sort))
			x.nbound++
			b := fmt.Sprintf("i!b%d", x.nbound)
			x.assume(st, Term{fmt.Sprintf("(forall ((%s Int)) (! (=> (or (< %s %s) (>= %s (+ %s %s))) (= (select %s %s) (select (select %s %s) %s))) :pattern ((select %s %s))))", b, b, s.Off.S, b, s.Off.S, s.Cap.S, row.S, b, h.S, s.Base.S, b, row.S, b), SBool})
			x.setHeap(st, n, Store(h, s.Base, row))
		}
		x.logStore(st, heapGroup("E:"+typeKey(elem)), s.Base)
		x.logAccess(st, true, typeKey(elem), s.Base, s.Off, Add(s.Off, s.Cap))
		return
	case strings.HasPrefix(loc, "array("), strings.HasPrefix(loc, "array0("):
		// the whole array behind a slice (array0: there may be none)
		none := strings.HasPrefix(loc, "array0(")
		loc = strings.Replace(loc, "array0(", "array(", 1)
		v := env.eval(parseExpr(loc[6 : len(loc)-1]))
		s := v.V.(Slice)
		elem := v.T.Underlying().(*types.Slice).Elem()
		for _, l := range leavesOf(elem) {
			n := "E:" + typeKey(elem) + l.Path
			h := x.heap(st, n, arr(SInt, arr(SInt, l.Sort)))
			row := x.fresh("row", arr(SInt, l.Sort))
			if none {
				x.assume(st, Imp(Eq(s.Base, TI(0)), Eq(row, Sel(h, s.Base))))
			}
			x.setHeap(st, n, Store(h, s.Base, row))
		}
		x.logStore(st, heapGroup("E:"+typeKey(elem)), s.Base)
		x.logAccess(st, true, typeKey(elem), s.Base, s.Off, Add(s.Off, s.Cap))
		return
	case strings.HasPrefix(loc, "guarded("):
		g, info := x.guardedBy(env, loc[8:len(loc)-1])
		if g != nil {
			x.havocGuarded(st, g, info, true)
		}
		return
	case strings.HasPrefix(loc, "mapof("):
		v := env.eval(parseExpr(loc[6 : len(loc)-1]))
		m := x.term(v.V)
		mt := v.T.Underlying().(*types.Map)
		ks := leavesOf(mt.Key())[0].Sort
		n := mapHeap(v.T, "#dom")
		d := x.mapDom(st, v.T)
		x.setHeap(st, n, Store(d, m, x.fresh("dom", arr(ks, SBool))))
		for _, l := range leavesOf(mt.Elem()) {
			n := mapHeap(v.T, l.Path)
			h := x.heap(st, n, arr(SInt, arr(ks, l.Sort)))
			x.setHeap(st, n, Store(h, m, x.fresh("mrow", arr(ks, l.Sort))))
		}
		x.logStore(st, "M:"+typeKey(mt.Key())+":"+typeKey(mt.Elem()), m)
		return
	case strings.HasPrefix(loc, "chanof("):
		v := env.eval(parseExpr(loc[7 : len(loc)-1]))
		x.havocChan(st, v)
		return
	case strings.HasPrefix(loc, "fields("):
		v := env.eval(parseExpr(loc[7 : len(loc)-1]))
		p := v.V.(Ptr)
		x.havocObj(st, p)
		return
	}
	e := parseExpr(loc)
	switch e.Op {
	case "field":
		b := env.eval(e.Args[0])
		p, ok := b.V.(Ptr)
		if !ok {
			panic(serr("modifies %s: not a field of a pointer", loc))
		}
		fp := x.fieldPtrByName(p, e.Name)
		if fp.K == PObj {
			x.havocObj(st, fp)
			return
		}
		x.havocPtr(st, fp)
	case "deref":
		p := env.eval(e.Args[0]).V.(Ptr)
		if p.K == PObj {
			x.havocObj(st, p)
			return
		}
		x.havocPtr(st, p)
	default:
		panic(serr("modifies clause %s", loc))
	}
}

// havocPtr forgets the value at a location (a conditional object that is not there has none).
func (x *Exec) havocPtr(st *State, p Ptr) {
	v := x.freshVal(st, "mod", p.To)
	if strings.HasPrefix(p.Ref.S, "as!") {
		o := x.flatten(x.loadPtr(st, p))
		for i, t := range x.flatten(v) {
			x.assume(st, Imp(Eq(p.Ref, TI(0)), Eq(t, o[i])))
		}
	}
	x.storePtr(st, p, v)
}

func (x *Exec) fieldPtrByName(p Ptr, name string) Ptr {
	if p.K == PElem {
		u := p.To.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				q := p
				q.Path += "." + name
				q.To = u.Field(i).Type()
				return q
			}
		}
	}
	if p.K != PObj {
		panic(serr("field %s of non-struct pointer", name))
	}
	u := p.To.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return x.fieldPtr(p.To, i, p.Ref)
		}
	}
	panic(serr("no field %s in %s", name, p.To))
}

func (x *Exec) havocObj(st *State, p Ptr) {
	if p.K == PElem || isOpaqueStruct(p.To) {
		x.havocPtr(st, p)
		return
	}
	u := p.To.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		fp := x.fieldPtr(p.To, i, p.Ref)
		if fp.K == PObj && !isOpaqueStruct(fp.To) {
			x.havocObj(st, fp)
			continue
		}
		x.havocPtr(st, fp)
	}
}

func ghostSort(s string) string { return specSort(s)[0] }

func (x *Exec) ghost(st *State, n string) Term {
	s, ok := x.eng.sp.Ghosts[n]
	if !ok {
		panic(serr("undeclared ghost %s", n))
	}
	return x.heap(st, "g:"+n, ghostSort(s))
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, name string, args []Val) Val {
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case Slice:
			if name == "len" {
				return Scalar{v.Len}
			}
			return Scalar{v.Cap}
		case Scalar:
			if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
				q := x.queue(st, SV{V: v, T: c.Args[0].Type()})
				if name == "cap" {
					return Scalar{q.cap}
				}
				return Scalar{Sub(q.tail, q.head)}
			}
			n := x.fresh("maplen", SInt)
			x.assume(st, Le(TI(0), n))
			return Scalar{n}
		}
	case "append":
		return x.appendCall(fr, st, in, c, args)
	case "copy":
		return x.copyCall(fr, st, in, c, args)
	case "close":
		x.chanClose(fr, st, in, args[0], c.Args[0])
		return nil
	case "recover":
		return Scalar{x.doRecover(fr, st)}
	case "min", "max":
		a, b := x.term(args[0]), x.term(args[1])
		op := "<="
		if name == "max" {
			op = ">="
		}
		if len(args) == 2 {
			return Scalar{Ite(cmp(op, a, b), a, b)}
		}
	case "ssa:wrapnilchk":
		return args[0]
	case "delete":
		m, k := x.term(args[0]), x.term(args[1])
		t := c.Args[0].Type()
		d := x.mapDom(st, t)
		x.setHeap(st, mapHeap(t, "#dom"), Store(d, m, Store(Sel(d, m), k, TFalse)))
		mt := t.Underlying().(*types.Map)
		x.logStore(st, "M:"+typeKey(mt.Key())+":"+typeKey(mt.Elem()), m)
		return nil
	}
	panic(unsup("builtin %s", name))
}

func (x *Exec) appendCall(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []Val) Val {
	s := args[0].(Slice)
	t, ok := args[1].(Slice)
	if !ok {
		panic(unsup("append of %T", args[1]))
	}
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	n := x.define("applen", Add(s.Len, t.Len))
	fits := x.define("fits", Le(n, s.Cap))
	r := x.newRef(st, "app")
	newcap := x.fresh("cap", SInt)
	x.assumeTop(Le(n, newcap))
	base := x.define("appb", Ite(fits, s.Base, r))
	off := x.define("appo", Ite(fits, s.Off, TI(0)))
	cp := x.define("appc", Ite(fits, s.Cap, newcap))
	single := t.Len.S == "1"
	for _, l := range leavesOf(elem) {
		nm := "E:" + typeKey(elem) + l.Path
		h := x.heap(st, nm, arr(SInt, arr(SInt, l.Sort)))
		srcT := Sel(h, t.Base)
		// in place
		var rowFit Term
		if single {
			rowFit = Store(Sel(h, s.Base), Add(s.Off, s.Len), Sel(srcT, t.Off))
		} else {
			rowFit = x.fresh("row", arr(SInt, l.Sort))
			x.rowSpec(st, rowFit, []rowPiece{{Add(s.Off, s.Len), Add(s.Off, n), srcT, Sub(t.Off, Add(s.Off, s.Len))}}, Sel(h, s.Base))
		}
		rowNew := x.fresh("row", arr(SInt, l.Sort))
		x.rowSpec(st, rowNew, []rowPiece{{TI(0), s.Len, Sel(h, s.Base), s.Off}, {s.Len, n, srcT, Sub(t.Off, s.Len)}}, Term{})
		x.setHeap(st, nm, Store(h, base, x.define("row", Ite(fits, rowFit, rowNew))))
	}
	x.logStore(st, heapGroup("E:"+typeKey(elem)), s.Base)
	x.logAccess(st, true, typeKey(elem), base, Add(off, s.Len), Add(off, n))
	return Slice{base, off, n, cp}
}

type rowPiece struct {
	lo, hi Term // absolute indexes in the new row
	src    Term
	shift  Term // source index = index + shift
}

// rowSpec constrains a new row piecewise; outside the pieces it equals rest when given.
func (x *Exec) rowSpec(st *State, row Term, ps []rowPiece, rest Term) {
	x.nbound++
	b := Term{fmt.Sprintf("i!b%d", x.nbound), SInt}
	var outside []Term
	for _, p := range ps {
		in := And(Le(p.lo, b), Lt(b, p.hi))
		outside = append(outside, Not(in))
		body := Imp(in, Eq(Sel(row, b), Sel(p.src, Add(b, p.shift))))
		if p.shift.S == "0" {
			body = Imp(in, Eq(Sel(row, b), Sel(p.src, b)))
			x.assume(st, Term{fmt.Sprintf("(forall ((%s Int)) (! %s :pattern ((select %s %s)) :pattern ((select %s %s))))", b.S, body.S, row.S, b.S, p.src.S, b.S), SBool})
			continue
		}
		x.assume(st, Term{fmt.Sprintf("(forall ((%s Int)) (! %s :pattern ((select %s %s))))", b.S, body.S, row.S, b.S), SBool})
		// the same fact triggered from the source side
		in2 := And(Le(p.lo, Sub(b, p.shift)), Lt(Sub(b, p.shift), p.hi))
		body2 := Imp(in2, Eq(Sel(row, Sub(b, p.shift)), Sel(p.src, b)))
		x.assume(st, Term{fmt.Sprintf("(forall ((%s Int)) (! %s :pattern ((select %s %s))))", b.S, body2.S, p.src.S, b.S), SBool})
	}
	if rest.S != "" {
		body := Imp(And(outside...), Eq(Sel(row, b), Sel(rest, b)))
		x.assume(st, Term{fmt.Sprintf("(forall ((%s Int)) (! %s :pattern ((select %s %s)) :pattern ((select %s %s))))", b.S, body.S, row.S, b.S, rest.S, b.S), SBool})
	}
}

func (x *Exec) copyCall(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []Val) Val {
	d := args[0].(Slice)
	s, ok := args[1].(Slice)
	if !ok {
		panic(unsup("copy from %T", args[1]))
	}
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	n := x.define("cpn", Ite(Le(d.Len, s.Len), d.Len, s.Len))
	for _, l := range leavesOf(elem) {
		nm := "E:" + typeKey(elem) + l.Path
		h := x.heap(st, nm, arr(SInt, arr(SInt, l.Sort)))
		row := x.fresh("row", arr(SInt, l.Sort))
		x.rowSpec(st, row, []rowPiece{{d.Off, x.define("e", Add(d.Off, n)), Sel(h, s.Base), x.define("sh", Sub(s.Off, d.Off))}}, Sel(h, d.Base))
		x.setHeap(st, nm, Store(h, d.Base, row))
	}
	x.logStore(st, heapGroup("E:"+typeKey(elem)), d.Base)
	x.logAccess(st, false, typeKey(elem), s.Base, s.Off, Add(s.Off, n))
	x.logAccess(st, true, typeKey(elem), d.Base, d.Off, Add(d.Off, n))
	return Scalar{n}
}

// intrinsics are functions modelled directly by the engine.
var intrinsics = map[string]func(x *Exec, fr *Frame, st *State, in ssa.Instruction, args []Val, rt types.Type) Val{}

func init() {
	intrinsics["math.Inf"] = func(x *Exec, fr *Frame, st *State, in ssa.Instruction, args []Val, rt types.Type) Val {
		x.declareInf()
		s := x.term(args[0])
		return Scalar{Ite(Le(TI(0), s), Term{"INF", SReal}, Term{"(- INF)", SReal})}
	}
	newErr := func(x *Exec, fr *Frame, st *State, in ssa.Instruction, args []Val, rt types.Type) Val {
		r := x.newRef(st, "err")
		x.declareFun("errkind", []string{SInt}, SInt)
		x.assume(st, And(Eq(x.tagOf(r), x.typeId(x.eng.tError)), Eq(app(SInt, "errkind", r), TI(2))))
		if len(args) > 0 {
			if t, ok := args[0].(Scalar); ok {
				x.declareFun("errmsg", []string{SInt}, SInt)
				x.assume(st, Eq(app(SInt, "errmsg", r), t.T))
			}
		}
		return Scalar{r}
	}
	intrinsics["errors.New"] = newErr
	intrinsics["fmt.Errorf"] = newErr
}

// closureBinding is the value captured for a free variable.
func closureBinding(v *ssa.FreeVar) ssa.Value {
	fn := v.Parent()
	k := -1
	for i, f := range fn.FreeVars {
		if f == v {
			k = i
		}
	}
	if fn.Parent() == nil || k < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
				return m.Bindings[k]
			}
		}
	}
	return nil
}

func withPc(st *State, pc Term) *State {
	s := st.clone()
	s.pc = pc
	return s
}

// panicsFlag: the states in which a function may panic; outside the properties of the flag
// panics-in they are not looked at.
func (e *Engine) panicsFlag(c *Contract) string {
	if ps := c.Flags["panics-in"]; ps != "" && !e.inPropStrict(strings.Fields(ps)) {
		return "true"
	}
	return c.Flags["panics"]
}

// modifies are the locations of the modifies clauses that exist in the property.
func (e *Engine) modifies(c *Contract) []string {
	var out []string
	for _, m := range c.Modifies {
		if strings.HasPrefix(m, "[") {
			j := strings.Index(m, "]")
			if !e.inPropStrict(strings.Fields(m[1:j])) {
				continue
			}
			m = m[j+2:]
		}
		out = append(out, m)
	}
	return out
}
