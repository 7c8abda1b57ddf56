package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

type solverCfg struct {
	name string
	args []string
	pre  string
}

var solverCfgs = map[string]solverCfg{
	"z3e":   {"z3-new(ematch)", []string{"z3-new", "-in", "-nw", "smt.auto_config=false", "smt.mbqi=false"}, ""},
	"z3a":   {"z3-new(ematch,arith2)", []string{"z3-new", "-in", "-nw", "smt.mbqi=false", "smt.arith.solver=2"}, ""},
	"z3a3":  {"z3-new(ematch,arith2,seed3)", []string{"z3-new", "-in", "-nw", "smt.mbqi=false", "smt.arith.solver=2", "smt.random_seed=3"}, ""},
	"z3a7":  {"z3-new(ematch,arith2,seed7)", []string{"z3-new", "-in", "-nw", "smt.mbqi=false", "smt.arith.solver=2", "smt.random_seed=7"}, ""},
	"z3a12": {"z3-new(ematch,arith2,seed12)", []string{"z3-new", "-in", "-nw", "smt.mbqi=false", "smt.arith.solver=2", "smt.random_seed=12"}, ""},
	"z3e5":  {"z3-new(ematch,seed5)", []string{"z3-new", "-in", "-nw", "smt.auto_config=false", "smt.mbqi=false", "smt.random_seed=5"}, ""},
	"z3d":   {"z3-new", []string{"z3-new", "-in", "-nw"}, ""},
	"z3o":   {"z3-4.8", []string{"z3", "-in", "-nw"}, ""},
	"cvc5":  {"cvc5", []string{"cvc5", "--lang=smt2", "--nl-ext-tplanes"}, "(set-logic ALL)\n"},
	"cvc5e": {"cvc5(enum)", []string{"cvc5", "--lang=smt2", "--enum-inst"}, "(set-logic ALL)\n"},
}

var slots = make(chan struct{}, 8)

var solverStats = struct {
	sync.Mutex
	time  map[string]float64
	count map[string]int
}{time: map[string]float64{}, count: map[string]int{}}

// runSolver returns unsat, sat, unknown or timeout for one query.
func runSolver(ctx context.Context, cfg string, text string, timeout time.Duration) (string, float64, string) {
	select {
	case slots <- struct{}{}:
	case <-ctx.Done():
		return "cancelled", 0, ""
	}
	defer func() { <-slots }()
	if ctx.Err() != nil {
		return "cancelled", 0, ""
	}
	c := solverCfgs[cfg]
	args := append([]string{}, c.args[1:]...)
	if strings.HasPrefix(cfg, "cvc5") {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	} else {
		args = append(args, fmt.Sprintf("-T:%d", int(timeout.Seconds()+0.999)))
	}
	cctx, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, c.args[0], args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(c.pre + text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	dt := time.Since(t0).Seconds()
	solverStats.Lock()
	solverStats.time[c.name] += dt
	solverStats.count[c.name]++
	solverStats.Unlock()
	if ctx.Err() != nil {
		return "cancelled", dt, ""
	}
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			return l, dt, out.String()
		}
		if strings.Contains(l, "error") {
			return "error", dt, out.String()
		}
	}
	return "timeout", dt, out.String()
}

func (x *Exec) query(o *Obligation) string {
	var b strings.Builder
	for _, l := range x.lines[:o.Prefix] {
		b.WriteString(l)
		b.WriteByte('\n')
	}
	if o.PC.S != "true" {
		b.WriteString("(assert " + o.PC.S + ")\n")
	}
	b.WriteString("(assert " + Not(o.Goal).S + ")\n(check-sat)\n")
	return b.String()
}

var dumpDir = os.Getenv("GOVC_DUMP")

func (x *Exec) dump(o *Obligation, text string) {
	if dumpDir == "" {
		return
	}
	os.MkdirAll(dumpDir, 0o755)
	os.WriteFile(dumpDir+"/"+mangle(strings.ReplaceAll(o.Name, "/", "_"))+".smt2", []byte("; "+o.Desc+"\n"+text), 0o644)
}

// prove tries the solver portfolio on one obligation.
func (x *Exec) prove(o *Obligation, budget time.Duration) {
	if o.Goal.S == "true" || o.PC.S == "false" {
		o.Status, o.Solver = "proved", "trivial"
		return
	}
	if len(o.Alts) > 1 {
		oks := make(chan string, 2*len(o.Alts))
		actx, acancel := context.WithCancel(context.Background())
		n := 0
		for _, cfg := range []string{"z3e", "z3a"} {
			for _, g := range o.Alts {
				o2 := *o
				o2.Goal = g
				t := x.query(&o2)
				n++
				go func(cfg string) {
					r, _, _ := runSolver(actx, cfg, t, budget)
					if r == "unsat" {
						oks <- solverCfgs[cfg].name
					} else {
						oks <- ""
					}
				}(cfg)
			}
		}
		for ; n > 0; n-- {
			if a := <-oks; a != "" {
				o.Status, o.Solver = "proved", a
				acancel()
				return
			}
		}
		acancel()
	}
	text := x.query(o)
	x.dump(o, text)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if o.Cover {
		r, dt, out := runSolver(ctx, "z3d", text, 1500*time.Millisecond)
		o.Time = dt
		o.Solver = "z3-new"
		if r == "unsat" {
			o.Status, o.Output = "vacuous", out
		} else if r == "error" {
			o.Status, o.Output = "error", out
		} else {
			o.Status = "proved"
		}
		return
	}
	type ans struct {
		cfg, r, out string
		dt          float64
	}
	first := 3 * time.Second
	if budget < first {
		first = budget
	}
	r, dt, out := runSolver(ctx, "z3e", text, first)
	o.Time += dt
	if r == "unsat" {
		o.Status, o.Solver = "proved", "z3-new(ematch)"
		return
	}
	if r == "error" {
		o.Status, o.Output = "error", out
		return
	}
	ch := make(chan ans, 16)
	cfgs := []string{"z3a7", "z3a", "z3d", "cvc5", "z3o", "cvc5e", "z3a3", "z3a12", "z3e5"}
	if r == "timeout" {
		cfgs = append(cfgs, "z3e")
	}
	for _, c := range cfgs {
		c := c
		go func() {
			b := budget
			if len(c) > 3 && c[:2] == "z3" && b > 8*time.Second {
				b = 8 * time.Second // the same solver with another seed
			}
			r, dt, out := runSolver(ctx, c, text, b)
			ch <- ans{c, r, out, dt}
		}()
	}
	var outs []string
	for range cfgs {
		a := <-ch
		o.Time += a.dt
		if a.r == "unsat" {
			o.Status, o.Solver = "proved", solverCfgs[a.cfg].name
			return
		}
		if a.r == "sat" {
			o.Status = "refuted"
			o.Solver = solverCfgs[a.cfg].name
			outs = append(outs, a.cfg+": sat")
			// a model of the negated obligation: no other solver can prove it
			break
		}
		if len(a.out) > 300 {
			a.out = a.out[:300]
		}
		outs = append(outs, a.cfg+": "+a.r+" "+strings.TrimSpace(a.out))
	}
	if o.Status == "" {
		o.Status = "unknown"
	}
	o.Output = strings.Join(outs, "; ")
}

// candBatch decides many obligations with short budgets, several per solver process.
func (x *Exec) candBatch(obls []*Obligation, perQuery time.Duration) {
	// group consecutive obligations with the same prefix
	var groups [][]*Obligation
	const maxG = 10
	for _, o := range obls {
		n := len(groups)
		if n > 0 && len(groups[n-1]) < maxG && groups[n-1][0].Prefix == o.Prefix && groups[n-1][0].PC.S == o.PC.S {
			groups[n-1] = append(groups[n-1], o)
		} else {
			groups = append(groups, []*Obligation{o})
		}
	}
	var wg sync.WaitGroup
	for _, g := range groups {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.candGroup(g, perQuery)
		}()
	}
	wg.Wait()
}

// candAlone asks again, each in its own query (the solver preprocesses those better), for the
// candidates that a batch did not settle.
func (x *Exec) candAlone(obls []*Obligation, per time.Duration) {
	var wg sync.WaitGroup
	for _, o := range obls {
		if o.Status == "proved" || o.Status == "sat" {
			continue
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, dt, _ := runSolver(context.Background(), "z3e", x.query(o), per)
			o.Time += dt
			name := "z3e"
			if r == "timeout" || r == "cancelled" {
				r, dt, _ = runSolver(context.Background(), "z3a", x.query(o), per)
				o.Time += dt
				name = "z3a"
			} else if r == "unknown" {
				lim := 1500 * time.Millisecond
				if per < lim {
					lim = per
				}
				if r2, dt, _ := runSolver(context.Background(), "z3a", x.query(o), lim); r2 == "unsat" {
					r, name = r2, "z3a"
					o.Time += dt
				}
			}
			switch r {
			case "unsat":
				o.Status, o.Solver = "proved", solverCfgs[name].name
			case "timeout", "cancelled":
				o.Status = "timeout"
			default:
				o.Status = "unknown"
			}
		}()
	}
	wg.Wait()
}

func (x *Exec) candGroup(g []*Obligation, per time.Duration) {
	var b strings.Builder
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", per.Milliseconds())
	for _, l := range x.lines[:g[0].Prefix] {
		b.WriteString(l)
		b.WriteByte('\n')
	}
	if g[0].PC.S != "true" {
		b.WriteString("(assert " + g[0].PC.S + ")\n")
	}
	for _, o := range g {
		b.WriteString("(push)\n(assert " + Not(o.Goal).S + ")\n(check-sat)\n(get-info :reason-unknown)\n(pop)\n")
	}
	slots <- struct{}{}
	defer func() { <-slots }()
	total := per*time.Duration(len(g)) + 5*time.Second
	ctx, cancel := context.WithTimeout(context.Background(), total)
	defer cancel()
	c := solverCfgs["z3e"]
	cmd := exec.CommandContext(ctx, c.args[0], c.args[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(b.String())
	t0 := time.Now()
	out, _ := cmd.Output()
	dt := time.Since(t0).Seconds()
	solverStats.Lock()
	solverStats.time[c.name] += dt
	solverStats.count[c.name] += len(g)
	solverStats.Unlock()
	k := 0
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			if k < len(g) {
				g[k].Status = l
				if l == "unsat" {
					g[k].Status, g[k].Solver = "proved", c.name
				}
				g[k].Time = dt / float64(len(g))
			}
			k++
		} else if strings.HasPrefix(l, "(:reason-unknown") {
			if k > 0 && k <= len(g) && g[k-1].Status == "unknown" && (strings.Contains(l, "timeout") || strings.Contains(l, "canceled") || strings.Contains(l, "resource")) {
				g[k-1].Status = "timeout"
			}
		} else if strings.Contains(l, "error") {
			for ; k < len(g); k++ {
				g[k].Status, g[k].Output = "error", l
			}
			return
		}
	}
}
