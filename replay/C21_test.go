//verif:pkg core
package core_test

import (
	"errors"
	"fmt"
	"math/rand"
	"testing"

	"github.com/wearelumenai/distclus/core"
)

type userFin struct{ on map[string]bool }

func (u userFin) IsFinished(m core.OCModel) bool { return u.on[string(m.Status().Value)] }

func TestVerifC21(t *testing.T) {
	r := vRand()
	sts := []core.ClustStatus{core.Created, core.Initializing, core.Ready, core.Running, core.Idle, core.Finished}
	type node struct {
		f    core.Finishing
		eval func(iter, pushed int, st core.OCStatus) bool
		desc string
	}
	var gen func(r *rand.Rand, depth int) node
	gen = func(r *rand.Rand, depth int) node {
		k := r.Intn(7)
		if depth == 0 && k >= 4 {
			k = r.Intn(4)
		}
		switch k {
		case 0:
			return node{nil, func(int, int, core.OCStatus) bool { return false }, "nil"}
		case 1:
			a, b := r.Intn(8)-2, r.Intn(6)-2
			if r.Intn(3) == 0 {
				a = 0
			}
			if r.Intn(3) == 0 {
				b = 0
			}
			return node{core.NewIterFinishing(a, b), func(i, p int, _ core.OCStatus) bool {
				return (a > 0 || b > 0) && i >= a+p*b
			}, fmt.Sprintf("iter(%d,%d)", a, b)}
		case 2:
			e := r.Intn(2) == 0
			var l []core.ClustStatus
			for n := r.Intn(4); n > 0; n-- {
				l = append(l, sts[r.Intn(len(sts))])
			}
			return node{core.NewStatusFinishing(e, l...), func(_, _ int, st core.OCStatus) bool {
				for _, s := range l {
					if s == st.Value {
						return true
					}
				}
				return e && st.Error != nil
			}, fmt.Sprintf("status(%v,%v)", e, l)}
		case 3:
			on := map[string]bool{string(sts[r.Intn(len(sts))]): true}
			return node{userFin{on}, func(_, _ int, st core.OCStatus) bool { return on[string(st.Value)] }, fmt.Sprint("user", on)}
		}
		var ks []node
		var fs []core.Finishing
		d := ""
		for n := r.Intn(4); n > 0; n-- {
			c := gen(r, depth-1)
			ks = append(ks, c)
			fs = append(fs, c.f)
			d += c.desc + " "
		}
		if k%2 == 0 {
			return node{core.NewAndFinishing(fs...), func(i, p int, st core.OCStatus) bool {
				for _, c := range ks {
					if !c.eval(i, p, st) {
						return false
					}
				}
				return len(ks) > 0
			}, "and[" + d + "]"}
		}
		return node{core.NewOrFinishing(fs...), func(i, p int, st core.OCStatus) bool {
			for _, c := range ks {
				if c.eval(i, p, st) {
					return true
				}
			}
			return false
		}, "or[" + d + "]"}
	}
	for k := 0; k < vRounds(20000); k++ {
		n := gen(r, 3)
		for q := 0; q < 4; q++ {
			i, p := r.Intn(15), r.Intn(5)
			rf := core.RuntimeFigures{core.Iterations: float64(i), core.PushedData: float64(p)}
			if r.Intn(10) == 0 {
				rf, i, p = core.RuntimeFigures{}, 0, 0
			}
			st := core.OCStatus{Value: sts[r.Intn(len(sts))]}
			if r.Intn(3) == 0 {
				st.Error = errors.New("failed")
			}
			m := core.NewSimpleOCModel(nil, nil, st, rf, nil)
			desc := func() string { return fmt.Sprintf("%s with %d iterations, %d pushed, status %v", n.desc, i, p, st) }
			vGuard(desc, func() {
				if got, want := core.IsFinished(n.f, m), n.eval(i, p, st); got != want {
					vFail("%s: finished is %v, want %v", desc(), got, want)
				}
			})
		}
	}
	// nothing set: never finished by iterations, whatever the counters
	for _, i := range []float64{0, 1, 1e9} {
		m := core.NewSimpleOCModel(nil, nil, core.OCStatus{Value: core.Running}, core.RuntimeFigures{core.Iterations: i}, nil)
		if core.IsFinished(core.NewIterFinishing(0, 0), m) {
			vFail("iteration condition with no limit holds at %v iterations", i)
		}
	}
}
