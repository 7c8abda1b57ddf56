package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type hintFile map[string][]string // contract key -> surviving candidates

func loadHints(dir string) hintFile {
	h := hintFile{}
	b, err := os.ReadFile(filepath.Join(dir, "hints.json"))
	if err == nil {
		json.Unmarshal(b, &h)
	}
	return h
}

// stabilise reruns the symbolic execution until the loop modification sets are stable.
func (e *Engine) stabilise(c *Contract, lp *LoopInfo) *Exec {
	e.mu.Lock()
	defer e.mu.Unlock()
	fn := e.fnByKey[c.Key]
	for pass := 0; ; pass++ {
		x := e.newExec(c, fn, lp)
		x.runTop()
		if !x.restart || pass > 12 {
			return x
		}
	}
}

func candObls(x *Exec) []*Obligation {
	var out []*Obligation
	for _, o := range x.obls {
		if o.Cand != "" {
			out = append(out, o)
		}
	}
	return out
}

// verify runs the whole verification of one contract.
//
// mode 0: loop invariants are the candidates recorded in hints, nothing is searched;
// mode 1: the search starts from the candidates of the same shape as a recorded one;
// mode 2: the search starts from all candidates.
func (e *Engine) verify(c *Contract, hints []string, mode int, budget time.Duration, props string) *Result {
	useHints := mode == 0
	res := &Result{Key: c.Key}
	fn := e.fnByKey[c.Key]
	if fn == nil {
		res.Missing = "no function " + c.Key
		return res
	}
	if len(fn.Params) != len(c.Params) || len(c.Results) != 0 && len(c.Results) != fn.Signature.Results().Len() {
		res.Missing = "signature of " + c.Key + " differs from the contract"
		return res
	}
	lp := newLoopInfo()
	if useHints {
		lp.only = map[string]bool{}
		for _, h := range hints {
			lp.only[h] = true
		}
	} else if mode == 1 {
		lp.shapes = map[string]bool{}
		for _, h := range hints {
			lp.shapes[candShape(h)] = true
		}
	}
	var x *Exec
	var failed int32
	final := func() {
		var wg sync.WaitGroup
		for _, o := range x.obls {
			if o.Cand != "" {
				continue
			}
			if !e.relevant(c, o, props) {
				o.Status = "skipped"
				continue
			}
			o := o
			wg.Add(1)
			go func() {
				defer wg.Done()
				if useHints && atomic.LoadInt32(&failed) > 8 {
					o.Status, o.Output = "unknown", "not attempted: other obligations failed"
					return
				}
				x.prove(o, e.limit(budget))
				if o.Status != "proved" {
					atomic.AddInt32(&failed, 1)
				}
			}()
		}
		wg.Wait()
	}
	if useHints {
		x = e.stabilise(c, lp)
		cs := candObls(x)
		var wg sync.WaitGroup
		for _, o := range cs {
			o := o
			wg.Add(1)
			go func() {
				defer wg.Done()
				if atomic.LoadInt32(&failed) > 8 {
					o.Status, o.Output = "unknown", "not attempted: other obligations failed"
					return
				}
				x.prove(o, budget)
				if o.Status != "proved" {
					atomic.AddInt32(&failed, 1)
				}
			}()
		}
		final()
		wg.Wait()
	} else {
		per := 500 * time.Millisecond
		for round := 0; ; round++ {
			x = e.stabilise(c, lp)
			cs := candObls(x)
			if os.Getenv("GOVC_V") != "" {
				fmt.Fprintf(os.Stderr, "  %s round %d: %d candidate obligations, %d lines\n", c.Key, round, len(cs), len(x.lines))
			}
			x.candBatch(cs, per)
			x.candAlone(cs, 2*per)
			drop := false
			// candidates refuted at once go first: those the solver ran out of time on may only
			// have been drowned by them
			definite := false
			var late []*Obligation
			for _, o := range cs {
				if o.Status != "proved" && o.Status != "timeout" {
					definite = true
				}
				if o.Status == "timeout" {
					late = append(late, o)
				}
			}
			if os.Getenv("GOVC_V") != "" && len(late) > 0 {
				fmt.Fprintf(os.Stderr, "    %d timeouts, definite %v\n", len(late), definite)
			}
			if !definite && len(late) > 0 {
				// templates are written in order of dependency: give up those of the lowest
				// number first, and look again at the others without them
				byT := map[int][]*Obligation{}
				var ts []int
				for _, o := range late {
					t := templateOf(o.Cand)
					if byT[t] == nil {
						ts = append(ts, t)
					}
					byT[t] = append(byT[t], o)
				}
				sort.Ints(ts)
				for _, t := range ts {
					for _, hot := range []bool{true, false} {
						var g []*Obligation
						for _, o := range byT[t] {
							if lp.hot[o.Cand] == hot {
								g = append(g, o)
							}
						}
						x.candAlone(g, 4*time.Second)
						for _, o := range g {
							if o.Status == "proved" {
								lp.hot[o.Cand] = true
							} else {
								definite = true
								o.Status = "unknown"
							}
						}
						if definite {
							break
						}
					}
					if definite {
						break
					}
				}
			}
			for _, o := range cs {
				if o.Status != "proved" && !(definite && o.Status == "timeout") {
					// retry hard ones alone once the easy ones have settled
					if !lp.dead[o.Cand] {
						lp.dead[o.Cand] = true
						drop = true
						if os.Getenv("GOVC_V") == "2" {
							o2 := *o
							o2.Name = fmt.Sprintf("drop-%d-%s-%s", round, o.Kind, o.Cand)
							x.dump(&o2, x.query(&o2))
							fmt.Fprintf(os.Stderr, "    drop %s %s (%s) %s\n", o.Kind, o.Cand, o.Status, o.Output)
						}
					}
				}
			}
			res.Passes = round + 1
			if drop && e.late() {
				// out of time: keep only the candidates proved in this round; what depends on
				// the dropped ones counts as failed
				res.OutOfTime = true
				for _, o := range cs {
					if o.Status != "proved" {
						lp.dead[o.Cand] = true
					}
				}
				x = e.stabilise(c, lp)
				for _, o := range candObls(x) {
					o.Status, o.Output = "unknown", "search for loop invariants stopped at the time limit"
				}
				break
			}
			if !drop {
				break
			}
		}
		final()
	}
	res.Exec = x
	res.Obls = x.obls
	for k := range x.inlined {
		res.Inlined = append(res.Inlined, k)
	}
	for k := range x.usedC {
		res.Used = append(res.Used, k)
	}
	for k := range x.assumed {
		res.Assumed = append(res.Assumed, k)
	}
	sort.Strings(res.Inlined)
	sort.Strings(res.Used)
	sort.Strings(res.Assumed)
	res.LoopsN = len(x.loops)
	return res
}

// candShape abstracts a candidate from the loop and the registers it is about.
func candShape(key string) string {
	if i := strings.LastIndex(key, "|"); i >= 0 {
		key = key[i+1:]
	}
	if strings.HasPrefix(key, "frame-") {
		return key
	}
	if !strings.HasPrefix(key, "T") {
		return "bound"
	}
	ps := strings.Split(key, ",")
	for i, p := range ps[1:] {
		n := "x"
		if strings.HasPrefix(p, "phi.") {
			n = "phi"
		}
		if strings.HasSuffix(p, "+1") {
			n += "+1"
		}
		ps[i+1] = n
	}
	return strings.Join(ps, ",")
}

func (lp *LoopInfo) allowed(key string) bool {
	if lp.only != nil {
		return lp.only[key]
	}
	if lp.shapes != nil {
		s := candShape(key)
		return s == "bound" || strings.HasPrefix(s, "frame-") || lp.shapes[s]
	}
	return true
}

// late reports whether the time of the whole check is used up.
func (e *Engine) late() bool { return !e.deadline.IsZero() && time.Now().After(e.deadline) }

func (e *Engine) limit(b time.Duration) time.Duration {
	if e.late() && b > 3*time.Second {
		return 3 * time.Second
	}
	return b
}

// templateOf: the number of the invariant template a candidate comes from, -1 for others.
func templateOf(cand string) int {
	i := strings.LastIndex(cand, "|T")
	if i < 0 {
		return -1
	}
	n, ok := 0, false
	for _, c := range cand[i+2:] {
		if c < '0' || c > '9' {
			break
		}
		n, ok = n*10+int(c-'0'), true
	}
	if !ok {
		return -1
	}
	return n
}

// relevant reports whether an obligation counts for a property.
func (e *Engine) relevant(c *Contract, o *Obligation, prop string) bool {
	if prop == "" || len(o.Props) == 0 {
		return true
	}
	for _, p := range o.Props {
		if p == prop {
			return true
		}
	}
	return false
}

func (r *Result) failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.Obls {
		if o.Status != "proved" && o.Status != "skipped" {
			out = append(out, o)
		}
	}
	return out
}

// hintsFor are the recorded invariants of a function, for a property if it has its own.
func hintsFor(h map[string][]string, k, prop string) ([]string, bool) {
	if r, ok := h[k+" @"+prop]; ok {
		return r, true
	}
	r, ok := h[k]
	return r, ok
}

func surviving(x *Exec) []string {
	seen := map[string]bool{}
	var out []string
	for _, o := range x.obls {
		if o.Cand != "" && !seen[o.Cand] {
			seen[o.Cand] = true
			out = append(out, o.Cand)
		}
	}
	sort.Strings(out)
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check|verify|dump ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	specs := fs.String("specs", "/verif/specs", "specification directory")
	prop := fs.String("prop", "", "property")
	shapes := fs.Bool("shapes", false, "with -nohints: search among candidates of the recorded shapes")
	budget := fs.Int("budget", 20, "solver budget in seconds per obligation")
	nohints := fs.Bool("nohints", false, "ignore recorded invariants")
	save := fs.Bool("save", false, "record surviving invariants")
	verbose := fs.Bool("v", false, "list every obligation")
	tier := fs.String("tier", "quick", "tier")
	fs.Parse(os.Args[2:])
	if cmd == "replay" {
		found, out := replay(filepath.Dir(*specs), *repo, *prop, *tier)
		if !*verbose && len(out) > 1500 {
			out = out[:1500]
		}
		fmt.Println(found, out)
		return
	}
	e, err := loadEngine(*repo, *specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	e.prop = *prop
	for _, n := range e.renamed {
		fmt.Println("note:", n)
	}
	switch cmd {
	case "ssa":
		for _, k := range fs.Args() {
			if f := e.fnByKey[k]; f != nil {
				f.WriteTo(os.Stdout)
			} else {
				fmt.Println("no function", k)
			}
		}
	case "names":
		pk, _, err := loadRepo(*repo, "")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		t, _ := namesOf(pk)
		b, _ := json.MarshalIndent(t, "", " ")
		os.WriteFile(namesFile(*specs), append(b, '\n'), 0o644)
	case "keys":
		var ks []string
		for k := range e.fnByKey {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
	case "verify":
		hints := loadHints(*specs)
		for _, k := range fs.Args() {
			t0 := time.Now()
			if strings.HasPrefix(k, "lemma:") {
				l := e.sp.Lemmas[k[6:]]
				x := e.lemmaExec(l)
				for _, o := range x.obls {
					x.prove(o, time.Duration(*budget)*time.Second)
					fmt.Printf("  %-9s %s %.2fs %s %s\n", o.Status, o.Name, o.Time, o.Solver, o.Output)
				}
				continue
			}
			c := e.sp.Contracts[k]
			if c == nil {
				fmt.Println("no contract", k)
				continue
			}
			h, ok := hintsFor(hints, k, *prop)
			mode := 2
			if ok && !*nohints {
				mode = 0
			} else if ok && *shapes {
				mode = 1
			}
			r := e.verify(c, h, mode, time.Duration(*budget)*time.Second, *prop)
			if r.Missing != "" {
				fmt.Println("MISSING", r.Missing)
				continue
			}
			np := 0
			for _, o := range r.Obls {
				if o.Status == "proved" {
					np++
				}
				if *verbose || o.Status != "proved" {
					fmt.Printf("  %-9s %-12s %s  [%s] %.2fs %s\n      %s\n", o.Status, o.Kind, o.Name, o.Solver, o.Time, o.Output, o.Desc)
				}
			}
			fmt.Printf("%s: %d/%d obligations proved, %d loops, %d passes, %.1fs; inlined %v; used %v\n", k, np, len(r.Obls), r.LoopsN, r.Passes, time.Since(t0).Seconds(), r.Inlined, r.Used)
			if *save {
				sv := surviving(r.Exec)
				if _, ok := hints[k]; ok && *prop != "" {
					if o, _ := hintsFor(hints, k, ""); strings.Join(o, "\n") != strings.Join(sv, "\n") {
						hints[k+" @"+*prop] = sv
					}
				} else {
					hints[k] = sv
				}
				b, _ := json.MarshalIndent(hints, "", " ")
				os.WriteFile(filepath.Join(*specs, "hints.json"), b, 0o644)
			}
		}
	case "check":
		os.Exit(runCheck(e, *prop, *tier, *specs, *repo, time.Duration(*budget)*time.Second))
	}
}
