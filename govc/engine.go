package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the loaded program and specifications.
type Engine struct {
	deadline     time.Time
	prog         *ssa.Program
	pkgByName    map[string]*ssa.Package
	typePkgs     map[string]*types.Package
	fnByKey      map[string]*ssa.Function
	sp           *Specs
	strIds       map[string]int64
	typeIds      map[string]int64
	tVec         types.Type
	tSeries      types.Type
	tError       types.Type
	constGlobals map[string]bool
	recursive    map[string]bool
	prop         string
	renamed      []string // private names read under their recorded name
	mu           sync.Mutex
}

func loadEngine(repo, specDir string) (*Engine, error) {
	e := &Engine{pkgByName: map[string]*ssa.Package{}, typePkgs: map[string]*types.Package{}, fnByKey: map[string]*ssa.Function{},
		strIds: map[string]int64{}, typeIds: map[string]int64{}, constGlobals: map[string]bool{}}
	pk, renamed, err := loadRepo(repo, specDir)
	if err != nil {
		return nil, err
	}
	e.renamed = renamed
	prog, pkgs := ssautil.Packages(pk, ssa.SanityCheckFunctions*0)
	prog.Build()
	e.prog = prog
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil {
			return
		}
		e.fnByKey[fnKey(f)] = f
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		e.pkgByName[p.Pkg.Name()] = p
		e.typePkgs[p.Pkg.Name()] = p.Pkg
		for _, im := range p.Pkg.Imports() {
			if e.typePkgs[im.Name()] == nil || strings.Contains(im.Path(), "x/exp/rand") {
				e.typePkgs[im.Name()] = im
			}
		}
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		e.typePkgs[p.Pkg.Name()] = p.Pkg
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				addFn(m)
			case *ssa.Type:
				t := m.Type()
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							addFn(f)
						}
					}
				}
			}
		}
	}
	e.findConstGlobals(pkgs)
	fl := types.Typ[types.Float64]
	e.tVec = types.NewSlice(fl)
	e.tSeries = types.NewSlice(e.tVec)
	e.tError = types.NewPointer(types.NewStruct(nil, nil))
	// type identifiers are assigned in a stable order
	for _, n := range []string{"[]float64", "[][]float64"} {
		e.typeIdOf(e.typeByName(n))
	}
	e.sp = loadSpecs(specDir)
	return e, nil
}

func (e *Engine) findConstGlobals(pkgs []*ssa.Package) {
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if ok {
				e.constGlobals[p.Pkg.Name()+"."+g.Name()] = true
			}
		}
	}
	for fn := range ssautil.AllFunctions(e.prog) {
		isInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					_ = u
					continue
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && st.Addr == g && isInit {
						continue
					}
					delete(e.constGlobals, g.Pkg.Pkg.Name()+"."+g.Name())
				}
			}
		}
	}
}

func (e *Engine) typeIdOf(t types.Type) int64 {
	k := types.TypeString(t, nil)
	id, ok := e.typeIds[k]
	if !ok {
		id = int64(len(e.typeIds) + 1)
		e.typeIds[k] = id
	}
	return id
}

func (e *Engine) typeByName(n string) types.Type {
	switch {
	case strings.HasPrefix(n, "[]"):
		return types.NewSlice(e.typeByName(n[2:]))
	case strings.HasPrefix(n, "*"):
		return types.NewPointer(e.typeByName(n[1:]))
	}
	if o := types.Universe.Lookup(n); o != nil {
		return o.Type()
	}
	if i := strings.Index(n, "."); i > 0 {
		if p := e.typePkgs[n[:i]]; p != nil {
			if o := p.Scope().Lookup(n[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	panic(serr("unknown type %s", n))
}

func (e *Engine) methodOf(t types.Type, m *types.Func) *ssa.Function {
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

// ---- verification of one contract ----

type Result struct {
	OutOfTime bool
	Key       string
	Obls      []*Obligation
	Exec      *Exec
	Missing   string
	Inlined   []string
	Used      []string
	Assumed   []string
	Cands     int
	LoopsN    int
	Passes    int
	CodeInfo  string
}

func (x *Exec) runTop() (err interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsupported:
				x.unsups = append(x.unsups, u.msg)
				st := &State{pc: TTrue}
				x.reportUnsup(st, u.msg)
				return
			case specErr:
				st := &State{pc: TTrue}
				x.reportUnsup(st, "specification: "+u.msg)
				return
			}
			panic(r)
		}
	}()
	fn, c := x.topFn, x.top
	st := &State{pc: TTrue, heaps: map[string]Term{}}
	x.emit("(declare-const alloc0 Int)")
	x.emit("(assert (<= 0 alloc0))")
	st.alloc = Term{"alloc0", SInt}
	x.alloc0 = st.alloc
	x.entry = &State{pc: TTrue, heaps: st.heaps, alloc: st.alloc}
	var args []Val
	vars := map[string]SV{}
	for i, p := range fn.Params {
		v := x.freshVal(st, "p."+p.Name(), p.Type())
		args = append(args, v)
		if i < len(c.Params) {
			vars[c.Params[i]] = SV{V: v, T: p.Type()}
		}
	}
	var fvals []Val
	for _, p := range fn.FreeVars {
		v := x.freshVal(st, "fv."+p.Name(), p.Type())
		if q, ok := v.(Ptr); ok {
			x.assume(st, Not(Eq(q.Ref, TI(0))))
		}
		fvals = append(fvals, v)
		vars[p.Name()] = SV{V: v, T: p.Type()}
	}
	x.topEnv = vars
	// the entry state shares heap0, so entry heaps are whatever heap0 holds
	x.entry.heaps = map[string]Term{}
	for _, u := range c.Uses {
		x.useLemma(u)
	}
	env := &SEnv{x: x, vars: vars, st: x.entry, old: x.entry, pol: -1}
	for _, r := range c.Requires {
		if x.eng.inProp(r.Props) {
			x.assumeTop(env.boolean(r.E))
		}
	}
	x.initLocks(st)
	if c.Flags["noframe"] == "" {
		x.modEx, x.modPre, _ = x.modExempts(c, vars)
	}
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, path: fn.Name()}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		nf.env[p] = fvals[i]
	}
	nf.contractVars = vars
	out, v := x.runBody(nf, st)
	if out == nil {
		if c.Flags["noreturn"] == "" {
			x.oblige(&State{pc: TTrue}, "cover", c.Key+"/returns", "some execution returns", TFalse)
		}
		return nil
	}
	var rt types.Type = fn.Signature.Results()
	if fn.Signature.Results().Len() == 1 {
		rt = fn.Signature.Results().At(0).Type()
	}
	evars := map[string]SV{}
	for k, v := range vars {
		evars[k] = v
	}
	x.bindResults(c, evars, v, rt)
	o := x.oblige(out, "cover", c.Key+"/cover", "the contract is not vacuous: an execution satisfying the preconditions returns", TFalse)
	o.Cover = true
	x.finalFacts(out)
	for k, h := range c.Hints {
		env := &SEnv{x: x, vars: evars, st: out, old: x.entry, pol: 1}
		n := h.Name
		if n == "" {
			n = fmt.Sprintf("hint%d", k+1)
		}
		g := env.boolean(h.E)
		o := x.oblige(out, "hint", c.Key+"/"+n, h.Src, g)
		o.Props = h.Props
		// assumed with the polarity of an assumption
		env2 := &SEnv{x: x, vars: evars, st: out, old: x.entry, pol: -1}
		x.assume(out, env2.boolean(h.E))
	}
	for k, en := range c.Ensures {
		env := &SEnv{x: x, vars: evars, st: out, old: x.entry, pol: 1}
		n := en.Name
		if n == "" {
			n = fmt.Sprintf("ensures%d", k+1)
		}
		var g Term
		if len(en.Holes) > 0 {
			alts := x.witnessed(env, en, nf)
			o := x.oblige(out, "ensures", c.Key+"/"+n, en.Src, Or(alts...))
			o.Props = en.Props
			o.Alts = alts
			continue
		} else {
			g = env.boolean(en.E)
			if strings.Contains(en.Src, "acq(") {
				// the state at the deciding acquisition: the last one, or the first one
				e1 := *env
				e1.first = true
				if g1 := e1.boolean(en.E); g1.S != g.S {
					g = Or(g, g1)
				}
			}
		}
		for j, part := range splitConj(g) {
			nm := c.Key + "/" + n
			if j > 0 {
				nm += fmt.Sprintf(".%d", j)
			}
			o := x.oblige(out, "ensures", nm, en.Src, part)
			o.Props = en.Props
		}
	}
	x.frameObligations(out, c, vars)
	return nil
}

func splitConj(t Term) []Term {
	if strings.HasPrefix(t.S, "(and ") {
		var out []Term
		for _, a := range splitArgs(t.S)[1:] {
			out = append(out, splitConj(Term{a, SBool})...)
		}
		return out
	}
	return []Term{t}
}

type exempt struct {
	all    bool
	ref    Term
	lo, hi Term // row range when set
}

func anyAll(es []exempt) bool {
	for _, e := range es {
		if e.all {
			return true
		}
	}
	return false
}

func exemptsOf(h string, ex, prefix map[string][]exempt) []exempt {
	es := append([]exempt{}, ex[h]...)
	for p, l := range prefix {
		if strings.HasPrefix(h, p) {
			es = append(es, l...)
		}
	}
	return es
}

// modExempts: the locations named by the modifies clauses, in the entry state
func (x *Exec) modExempts(c *Contract, vars map[string]SV) (map[string][]exempt, map[string][]exempt, map[string]bool) {
	env := &SEnv{x: x, vars: vars, st: x.entry, old: x.entry}
	ex := map[string][]exempt{} // heap (exact) -> exemptions
	prefix := map[string][]exempt{}
	ghost := map[string]bool{}
	addObj := func(p Ptr) {}
	addObj = func(p Ptr) {
		if p.K == PObj && isOpaqueStruct(p.To) {
			ex["O:"+typeKey(p.To)] = append(ex["O:"+typeKey(p.To)], exempt{ref: p.Ref})
			return
		}
		switch p.K {
		case PObj:
			u := p.To.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				addObj(x.fieldPtr(p.To, i, p.Ref))
			}
		case PField:
			for _, l := range leavesOf(p.To) {
				n := fieldHeap(p.St, "."+p.Path+l.Path)
				ex[n] = append(ex[n], exempt{ref: p.Ref})
			}
		case PCell:
			for _, l := range leavesOf(p.To) {
				n := "C:" + typeKey(p.To) + l.Path
				ex[n] = append(ex[n], exempt{ref: p.Ref})
			}
		case PElem:
			for _, l := range leavesOf(p.To) {
				n := "E:" + typeKey(p.Elem) + p.Path + l.Path
				ex[n] = append(ex[n], exempt{false, p.Ref, p.Idx, Add(p.Idx, TI(1))})
			}
		}
	}
	for _, m := range x.eng.modifies(c) {
		switch {
		case strings.HasPrefix(m, "g."):
			ghost["g:"+m[2:]] = true
		case strings.HasPrefix(m, "elems("):
			v := env.eval(parseExpr(m[6 : len(m)-1]))
			s := v.V.(Slice)
			elem := v.T.Underlying().(*types.Slice).Elem()
			for _, l := range leavesOf(elem) {
				n := "E:" + typeKey(elem) + l.Path
				ex[n] = append(ex[n], exempt{false, s.Base, s.Off, Add(s.Off, s.Cap)})
			}
		case strings.HasPrefix(m, "array("), strings.HasPrefix(m, "array0("):
			m = strings.Replace(m, "array0(", "array(", 1)
			v := env.eval(parseExpr(m[6 : len(m)-1]))
			elem := v.T.Underlying().(*types.Slice).Elem()
			for _, l := range leavesOf(elem) {
				n := "E:" + typeKey(elem) + l.Path
				ex[n] = append(ex[n], exempt{ref: v.V.(Slice).Base})
			}
		case strings.HasPrefix(m, "guarded("):
			g, info := x.guardedBy(env, m[8:len(m)-1])
			if g == nil {
				continue
			}
			t := x.guardType(g)
			u := t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if !g.has(u.Field(i).Name()) {
					continue
				}
				addObj(x.fieldPtr(t, i, info.ref))
				if mt, ok := u.Field(i).Type().Underlying().(*types.Map); ok {
					p := "M:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem())
					prefix[p] = append(prefix[p], exempt{all: true})
				}
			}
		case strings.HasPrefix(m, "mapof("):
			v := env.eval(parseExpr(m[6 : len(m)-1]))
			mt := v.T.Underlying().(*types.Map)
			p := "M:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem())
			prefix[p] = append(prefix[p], exempt{ref: x.term(v.V)})
		case strings.HasPrefix(m, "chanof("):
			v := env.eval(parseExpr(m[7 : len(m)-1]))
			prefix["Q:"] = append(prefix["Q:"], exempt{ref: x.term(v.V)})
		case strings.HasPrefix(m, "fields("):
			addObj(env.eval(parseExpr(m[7 : len(m)-1])).V.(Ptr))
		default:
			e := parseExpr(m)
			switch e.Op {
			case "field":
				addObj(x.fieldPtrByName(env.eval(e.Args[0]).V.(Ptr), e.Name))
			case "deref":
				addObj(env.eval(e.Args[0]).V.(Ptr))
			default:
				panic(serr("modifies clause %s", m))
			}
		}
	}
	return ex, prefix, ghost
}

// frameObligations: locations that existed at entry and are not named by a modifies
// clause keep their values.
func (x *Exec) frameObligations(out *State, c *Contract, vars map[string]SV) {
	if _, ok := c.Flags["noframe"]; ok {
		return
	}
	ex, prefix, ghost := x.modExempts(c, vars)
	for _, g := range c.Sets {
		if x.eng.inPropStrict(g.Props) {
			ghost["g:"+strings.TrimSpace(g.Ghost)[2:]] = true // assigned by the callers, after the call
		}
	}
	var names []string
	for h := range out.heaps {
		names = append(names, h)
	}
	sort.Strings(names)
	for _, h := range names {
		h0, h1 := x.heap0[h], out.heaps[h]
		if h0.S == h1.S || ghost[h] {
			continue
		}
		if strings.HasPrefix(h, "I:") || h == "g:pb" || h == spreadHeap || h == lockHeap || h == panicHeap || strings.HasPrefix(h, "A:") || strings.HasPrefix(h, "B:") || strings.HasPrefix(h, "B1:") {
			continue
		}
		if strings.HasPrefix(h, "g:") {
			x.oblige(out, "frame", c.Key+"/frame:"+h, "ghost "+h[2:]+" is not changed", Eq(h0, h1))
			continue
		}
		es := exemptsOf(h, ex, prefix)
		if anyAll(es) {
			continue
		}
		x.nbound++
		r := x.fresh("fr", SInt)
		_ = r
		conds := []Term{Le(x.frameRef(h, r), x.alloc0), Not(Eq(r, TI(0)))}
		var goals []Term
		for _, e := range es {
			conds = append(conds, Not(Eq(r, e.ref)))
		}
		goals = append(goals, Imp(And(conds...), Eq(Sel(h1, r), Sel(h0, r))))
		for _, e := range es {
			if e.lo.S != "" && strings.HasPrefix(h, "E:") {
				i := x.fresh("fi", SInt)
				var outside []Term
				outside = append(outside, Le(e.ref, x.alloc0))
				for _, f := range es {
					if f.lo.S == "" {
						outside = append(outside, Not(Eq(f.ref, e.ref)))
					} else {
						outside = append(outside, Or(Not(Eq(f.ref, e.ref)), Or(Lt(i, f.lo), Le(f.hi, i))))
					}
				}
				goals = append(goals, Imp(And(outside...), Eq(Sel(Sel(h1, e.ref), i), Sel(Sel(h0, e.ref), i))))
			}
		}
		x.oblige(out, "frame", c.Key+"/frame:"+h, "only the locations of the modifies clause change ("+h+")", And(goals...))
	}
}

// ---- lemmas ----

// lemmaFormula is the universally quantified statement of a lemma.
func (x *Exec) lemmaFormula(l *Lemma, fixed map[string]SV, extra []Term) Term {
	var vs []string
	vars := map[string]SV{}
	var names []string
	for _, p := range l.Params {
		if v, ok := fixed[p.Name]; ok {
			vars[p.Name] = v
			continue
		}
		var ts []Term
		for k, s := range specSort(p.Type) {
			x.nbound++
			n := fmt.Sprintf("%s.%d!b%d", p.Name, k, x.nbound)
			vs = append(vs, "("+n+" "+s+")")
			names = append(names, n)
			ts = append(ts, Term{n, s})
		}
		v, _ := argFromFlat(p.Type, ts)
		vars[p.Name] = v
	}
	st := x.lemmaState()
	env := &SEnv{x: x, vars: vars, st: st, old: st, pol: -1, bound: names}
	var req []Term
	req = append(req, extra...)
	for _, p := range l.Params {
		if strings.HasPrefix(p.Type, "seq[") {
			req = append(req, Le(TI(0), vars[p.Name].V.(Seq).Len))
		}
	}
	for _, r := range l.Requires {
		req = append(req, env.flip().boolean(r))
	}
	body := Imp(And(req...), env.boolean(l.Ensures))
	if len(vs) == 0 {
		return body
	}
	pat := ""
	for _, tr := range l.Trig {
		pat += " :pattern ("
		for i, t := range tr {
			if i > 0 {
				pat += " "
			}
			pat += x.term(env.neutral().eval(t).V).S
		}
		pat += ")"
	}
	b := body.S
	if pat != "" {
		b = "(! " + b + pat + ")"
	}
	return Term{"(forall (" + strings.Join(vs, " ") + ") " + b + ")", SBool}
}

func (x *Exec) lemmaState() *State {
	if x.entry != nil {
		return x.entry
	}
	x.entry = &State{pc: TTrue, heaps: map[string]Term{}, alloc: TI(0)}
	return x.entry
}

func (x *Exec) useLemma(n string) {
	l := x.eng.sp.Lemmas[n]
	if l == nil {
		panic(serr("unknown lemma %s", n))
	}
	x.usedC["lemma "+n] = true
	x.assumeTop(x.lemmaFormula(l, nil, nil))
}

func (e *Engine) lemmaExec(l *Lemma) *Exec {
	e.mu.Lock()
	defer e.mu.Unlock()
	x := e.newExec(nil, nil, newLoopInfo())
	x.top = &Contract{Key: "lemma " + l.Name, Flags: map[string]string{}}
	x.maxUnfold = 2
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsupported:
				x.reportUnsup(&State{pc: TTrue}, u.msg)
				return
			case specErr:
				x.reportUnsup(&State{pc: TTrue}, "specification: "+u.msg)
				return
			}
			panic(r)
		}
	}()
	st := x.lemmaState()
	for _, u := range l.Uses {
		x.useLemma(u)
	}
	vars := map[string]SV{}
	for _, p := range l.Params {
		var ts []Term
		for k, s := range specSort(p.Type) {
			ts = append(ts, x.fresh(fmt.Sprintf("%s.%d", p.Name, k), s))
		}
		v, _ := argFromFlat(p.Type, ts)
		vars[p.Name] = v
		if strings.HasPrefix(p.Type, "seq[") {
			x.assumeTop(Le(TI(0), v.V.(Seq).Len))
		}
	}
	env := &SEnv{x: x, vars: vars, st: st, old: st, pol: -1}
	for _, r := range l.Requires {
		x.assumeTop(env.boolean(r))
	}
	if l.On != "" {
		n := x.term(vars[l.On].V)
		m := Sub(n, TI(1))
		ih := x.lemmaFormula(l, map[string]SV{l.On: svT(m)}, []Term{Le(TI(0), m)})
		if len(l.Trig) > 0 {
			x.assumeTop(ih)
		}
		same := map[string]SV{}
		for k, v := range vars {
			same[k] = v
		}
		same[l.On] = svT(m)
		x.assumeTop(x.lemmaFormula(l, same, []Term{Le(TI(0), m)}))
	}
	o := x.oblige(st, "cover", "lemma "+l.Name+"/cover", "the hypotheses are satisfiable", TFalse)
	o.Cover = true
	genv := &SEnv{x: x, vars: vars, st: st, old: st, pol: 1}
	g := genv.boolean(l.Ensures)
	for j, part := range splitConj(g) {
		nm := "lemma " + l.Name
		if j > 0 {
			nm += fmt.Sprintf("#%d", j)
		}
		x.oblige(st, "lemma", nm, l.Src, part)
	}
	return x
}

// witnessed: some values of the function's variables at its end satisfy the clause. Any
// term is a legitimate witness of an existential statement.
func (x *Exec) witnessed(env *SEnv, en Clause, nf *Frame) []Term {
	var names []ssa.Value
	for v := range nf.env {
		names = append(names, v)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	var opts [][]SV
	for _, h := range en.Holes {
		pat := h.Type
		phi := strings.HasPrefix(pat, "phi ")
		if phi {
			pat = strings.TrimSpace(pat[4:])
		}
		var cs []SV
		seen := map[string]bool{}
		for _, v := range names {
			_, isPhi := v.(*ssa.Phi)
			if phi && !isPhi || !matchType(pat, v.Type()) {
				continue
			}
			val := nf.env[v]
			k := func() (k string) {
				defer func() { recover() }()
				for _, t := range x.flatten(val) {
					k += t.S + ","
				}
				return
			}()
			if k == "" || seen[k] {
				continue
			}
			seen[k] = true
			cs = append(cs, SV{V: val, T: v.Type()})
			if isPhi && pat == "int" {
				cs = append(cs, SV{V: Scalar{Sub(x.term(val), TI(1))}, T: v.Type()})
			}
		}
		opts = append(opts, cs)
	}
	var alts []Term
	idx := make([]int, len(opts))
	for n := 0; n < 64; n++ {
		env.holes = map[string]SV{}
		for k, h := range en.Holes {
			if len(opts[k]) == 0 {
				return []Term{TFalse}
			}
			env.holes[h.Name] = opts[k][idx[k]]
		}
		alts = append(alts, env.boolean(en.E))
		k := len(idx) - 1
		for ; k >= 0; k-- {
			if idx[k]++; idx[k] < len(opts[k]) {
				break
			}
			idx[k] = 0
		}
		if k < 0 {
			break
		}
	}
	return alts
}
