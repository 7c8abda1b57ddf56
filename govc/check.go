package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// checkRun is one run of the check of one property.
type checkRun struct {
	e       *Engine
	prop    string
	tier    string
	budget  time.Duration
	results map[string]*Result
	lemmas  map[string]*Exec
	notes   []string
	mu      sync.Mutex
	start   time.Time
}

func exportedKey(k string) bool {
	n := shortKey(k)
	if !token.IsExported(n) {
		return false
	}
	if i := strings.Index(k, "(*"); i >= 0 {
		r := k[i+2:]
		return token.IsExported(r[:strings.Index(r, ")")])
	}
	p := strings.Split(k, ".")
	return len(p) != 3 || token.IsExported(p[1])
}

// closure verifies the listed functions and, transitively, every contract they rely on.
// stage 0: with the recorded invariants; stage 1: search, for what stage 0 left failed;
// stage 2: search from nothing.
func (c *checkRun) closure(hints hintFile, stage int) {
	pd := c.e.sp.Props[c.prop]
	seen := map[string]bool{}
	if stage == 1 {
		for k, r := range c.results {
			if r.Missing != "" || len(r.failed()) == 0 {
				seen[k] = true
			}
		}
		for k, x := range c.lemmas {
			ok := true
			for _, o := range x.obls {
				ok = ok && o.Status == "proved"
			}
			if ok {
				seen[k] = true
			}
		}
	}
	var wg sync.WaitGroup
	var add func(k string)
	run := func(k string) {
		defer wg.Done()
		if strings.HasPrefix(k, "lemma ") {
			l := c.e.sp.Lemmas[k[6:]]
			if l == nil || l.Axiom {
				return
			}
			x := c.e.lemmaExec(l)
			var w2 sync.WaitGroup
			for _, o := range x.obls {
				o := o
				w2.Add(1)
				go func() { defer w2.Done(); x.prove(o, c.budget) }()
			}
			w2.Wait()
			c.mu.Lock()
			c.lemmas[k] = x
			c.mu.Unlock()
			for _, u := range l.Uses {
				add("lemma " + u)
			}
			return
		}
		ct := c.e.sp.Contracts[k]
		if ct == nil || ct.Kind != "func" {
			return
		}
		h, ok := hintsFor(hints, k, c.prop)
		var r *Result
		switch {
		case !ok:
			r = c.e.verify(ct, nil, 2, c.budget, c.prop)
		case stage == 0:
			b := c.budget
			if b > 8*time.Second {
				b = 8 * time.Second
			}
			r = c.e.verify(ct, h, 0, b, c.prop)
		case stage == 1:
			r = c.e.verify(ct, h, 1, c.budget, c.prop)
			if r.Missing == "" && len(r.failed()) > 0 && !c.e.late() {
				r2 := c.e.verify(ct, nil, 2, c.budget, c.prop)
				if len(r2.failed()) <= len(r.failed()) {
					r = r2
				}
			}
		default:
			r = c.e.verify(ct, nil, 2, c.budget, c.prop)
		}
		c.mu.Lock()
		c.results[k] = r
		c.mu.Unlock()
		for _, u := range r.Used {
			add(u)
		}
	}
	add = func(k string) {
		c.mu.Lock()
		defer c.mu.Unlock()
		if seen[k] {
			return
		}
		seen[k] = true
		wg.Add(1)
		go run(k)
	}
	if stage == 1 {
		var again []string
		for k := range c.results {
			again = append(again, k)
		}
		for _, k := range again {
			add(k)
		}
	}
	for _, k := range pd.Verify {
		add(k)
	}
	for _, l := range pd.Lemmas {
		add("lemma " + l)
	}
	wg.Wait()
}

func (c *checkRun) failures() []*Obligation {
	var out []*Obligation
	listed := map[string]bool{}
	for _, k := range c.e.sp.Props[c.prop].Verify {
		listed[k] = true
	}
	var ks []string
	for k := range c.results {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := c.results[k]
		if r.Missing != "" {
			if listed[k] && exportedKey(k) {
				out = append(out, &Obligation{Name: k + "/exists", Kind: "missing", Desc: r.Missing, Status: "unknown"})
			} else {
				c.notes = append(c.notes, r.Missing+" (its callers are verified with its body inlined)")
			}
			continue
		}
		out = append(out, r.failed()...)
	}
	ks = nil
	for k := range c.lemmas {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, o := range c.lemmas[k].obls {
			if o.Status != "proved" {
				out = append(out, o)
			}
		}
	}
	return out
}

func runCheck(e *Engine, prop, tier, specs, repo string, budget time.Duration) int {
	c := &checkRun{e: e, prop: prop, tier: tier, budget: budget, results: map[string]*Result{}, lemmas: map[string]*Exec{}, start: time.Now()}
	pd := e.sp.Props[prop]
	if pd == nil {
		fmt.Fprintln(os.Stderr, "no property", prop)
		return 2
	}
	root := filepath.Dir(specs)
	hints := loadHints(specs)
	replayed, found, out := false, false, ""
	if tier == "thorough" {
		c.closure(hints, 2)
	} else {
		c.closure(hints, 0)
	}
	fails := c.failures()
	if len(fails) > 0 {
		// the failed obligations replayed on the real code; a failing input settles it
		found, out = replay(root, repo, prop, tier)
		replayed = true
		if !found && tier != "thorough" {
			e.deadline = c.start.Add(560 * time.Second)
			c.notes = nil
			c.closure(hints, 1)
			fails = c.failures()
		}
	}
	bounded := ""
	code := 0
	if len(fails) > 0 {
		for _, o := range fails {
			fmt.Printf("obligation %s: %s (%s)\n    %s\n", o.Name, o.Status, o.Kind, o.Desc)
		}
		if !replayed {
			found, out = replay(root, repo, prop, tier)
		}
		path := writeReplay(root, prop, fails, found, out)
		if found {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
		code = 1
	} else if tier == "thorough" {
		// validation of the trusted contracts against the running code (bounded)
		found, out := replay(root, repo, prop, tier)
		bounded = out
		if found {
			path := writeReplay(root, prop, nil, true, out)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			code = 1
		}
	}
	c.writeEvidence(root, code, len(fails), bounded)
	if code == 0 {
		printKnown(root, prop)
		n := 0
		for _, r := range c.results {
			n += len(r.Obls)
		}
		fmt.Printf("property %s: all obligations discharged (%d functions, %d lemmas, %.0fs)\n", prop, len(c.results), len(c.lemmas), time.Since(c.start).Seconds())
	}
	return code
}

func printKnown(root, prop string) {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "property="+prop+" ") {
			fmt.Println("KNOWN-FINDING: " + l)
		}
	}
}

func writeReplay(root, prop string, fails []*Obligation, found bool, out string) string {
	dir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, prop+".txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\nfailed obligations:\n", prop)
	for _, o := range fails {
		fmt.Fprintf(&b, "- %s [%s] %s\n    %s\n    verifier: %s %s\n", o.Name, o.Kind, o.Status, o.Desc, o.Solver, strings.ReplaceAll(o.Output, "\n", " "))
	}
	if found {
		fmt.Fprintf(&b, "\nreplayed on the real code, failing input:\n")
	} else {
		fmt.Fprintf(&b, "\nno failing input found by the replay of the executable contract on the real code:\n")
	}
	b.WriteString(out)
	fmt.Fprintf(&b, "\nreproduce: /verif/check.sh %s quick   (harness: /verif/replay/%s_test.go)\n", prop, prop)
	os.WriteFile(p, []byte(b.String()), 0o644)
	return p
}

// replay runs the executable contract of the property on the real code.
func replay(root, repo, prop, tier string) (bool, string) {
	src := filepath.Join(root, "replay", prop+"_test.go")
	text, err := os.ReadFile(src)
	if err != nil {
		return false, "no replay harness for this property\n"
	}
	pkg := ""
	for _, l := range strings.Split(string(text), "\n") {
		if strings.HasPrefix(l, "//verif:pkg ") {
			pkg = strings.TrimSpace(l[len("//verif:pkg "):])
		}
	}
	tmp, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(tmp)
	ov := map[string]map[string]string{"Replace": {}}
	ov["Replace"][filepath.Join(repo, pkg, "zz_verif_"+prop+"_test.go")] = src
	// hide the package's own tests: only the harness is compiled
	if ms, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go")); len(ms) > 0 {
		for _, m := range ms {
			ov["Replace"][m] = ""
		}
	}
	lib := filepath.Join(root, "replay", "lib.go.txt")
	if b, err := os.ReadFile(lib); err == nil {
		name := "package main"
		for _, l := range strings.Split(string(text), "\n") {
			if strings.HasPrefix(l, "package ") {
				name = strings.TrimSpace(l)
			}
		}
		lp := filepath.Join(tmp, "lib_test.go")
		os.WriteFile(lp, []byte(strings.Replace(string(b), "package PKG", name, 1)), 0o644)
		ov["Replace"][filepath.Join(repo, pkg, "zz_verif_lib_test.go")] = lp
	}
	ob, _ := json.Marshal(ov)
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	cf := filepath.Join(tmp, "case.txt")
	limit := "150s"
	if tier == "thorough" {
		limit = "300s"
	}
	race := "-race=false"
	if strings.Contains(string(text), "//verif:race") {
		race = "-race"
	}
	cmd := exec.Command("timeout", "-k", "5", "400", "go", "test", "-vet=off", race, "-count=1", "-timeout", limit, "-overlay", of, "-run", "TestVerif"+prop+"$", "./"+pkg)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "VERIF_CASE="+cf, "VERIF_TIER="+tier)
	if os.Getenv("VERIF_SEED") == "" {
		cmd.Env = append(cmd.Env, "VERIF_SEED=1")
	}
	out, err := cmd.CombinedOutput()
	s := string(out)
	if len(s) > 20000 {
		s = s[:20000]
	}
	if strings.Contains(s, "FAILING-INPUT") {
		return true, s
	}
	if race == "-race" && strings.Contains(s, "WARNING: DATA RACE") {
		return true, "FAILING-INPUT (schedule of the data race below)\n" + s
	}
	if err != nil {
		if cs, e2 := os.ReadFile(cf); e2 == nil && len(cs) > 0 && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:")) && !strings.Contains(s, "test timed out") {
			return true, "FAILING-INPUT (the program crashes): " + string(cs) + "\n" + s
		}
	}
	return false, s
}

func (c *checkRun) writeEvidence(root string, code, nfail int, bounded string) {
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	total, done := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	var fns []map[string]interface{}
	trusted := map[string]bool{}
	assumed := map[string]bool{}
	var samples []string
	count := func(o *Obligation) {
		if o.Status == "skipped" {
			return
		}
		total++
		kinds[o.Kind]++
		if o.Status == "proved" {
			done++
			by[o.Solver]++
		}
	}
	var ks []string
	for k := range c.results {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := c.results[k]
		if r.Missing != "" {
			continue
		}
		n, d := 0, 0
		for _, o := range r.Obls {
			count(o)
			if o.Status == "skipped" {
				continue
			}
			n++
			if o.Status == "proved" {
				d++
			}
			if len(samples) < 12 && o.Kind == "ensures" {
				samples = append(samples, o.Name+": "+o.Desc+" — "+o.Status+" by "+o.Solver)
			}
		}
		fns = append(fns, map[string]interface{}{"function": k, "obligations": n, "discharged": d, "loops": r.LoopsN, "inlined": r.Inlined, "contracts_used": r.Used})
		for _, u := range r.Used {
			if ct := c.e.sp.Contracts[u]; ct != nil && ct.Kind != "func" {
				trusted[ct.Kind+" "+u] = true
			}
			if strings.HasPrefix(u, "lemma ") {
				if l := c.e.sp.Lemmas[u[6:]]; l != nil && l.Axiom {
					trusted["axiom "+l.Name] = true
				}
			}
			if ct := c.e.sp.Funcs[u]; ct != nil {
				trusted["function value "+u] = true
			}
			if ct := c.e.sp.Chans[u]; ct != nil {
				trusted["channel "+u] = true
			}
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
	}
	var ls []string
	for k, x := range c.lemmas {
		ls = append(ls, k)
		for _, o := range x.obls {
			count(o)
		}
	}
	sort.Strings(ls)
	var tb []string
	for k := range trusted {
		tb = append(tb, "assumed contract: "+k)
	}
	sort.Strings(tb)
	tb = append([]string{
		"govc (the verification-condition generator in /verif/govc): translation of Go SSA (golang.org/x/tools/go/ssa) to SMT-LIB",
		"solvers z3 (two releases) and cvc5",
		"Go memory model: goroutines that own disjoint locations do not interfere; mutexes exclude",
	}, tb...)
	as := []string{
		"float64 arithmetic is treated as real arithmetic; math functions are uninterpreted unless specified",
		"int arithmetic is mathematical (no overflow)",
		"partial correctness: termination is not proved",
	}
	for k := range assumed {
		as = append(as, k)
	}
	if pd := c.e.sp.Props[c.prop]; pd != nil {
		as = append(as, pd.Assume...)
	}
	as = append(as, c.notes...)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	solverStats.Lock()
	st := map[string]interface{}{}
	for k, v := range solverStats.time {
		st[k] = map[string]interface{}{"seconds": float64(int(v*100)) / 100, "queries": solverStats.count[k]}
	}
	solverStats.Unlock()
	viol := 0
	if code != 0 {
		viol = 1
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": done,
		"checker_cmd":  fmt.Sprintf("/verif/check.sh %s %s", c.prop, c.tier),
		"trusted_base": tb, "functions": fns, "lemmas": ls, "obligation_kinds": kinds,
		"discharged_by": by, "solver_time": st, "samples": samples, "failed": nfail,
	}
	if bounded != "" {
		cov["bounded_validation_of_trusted_contracts"] = bounded
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": as, "wall_s": time.Since(c.start).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", c.prop+".json"), b, 0o644)
}
