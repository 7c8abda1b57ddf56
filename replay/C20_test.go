//verif:pkg streaming
package streaming_test

import (
	"fmt"
	"reflect"
	"runtime"
	"testing"
	"time"

	"golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// configurations against the documented defaults and limits
func TestVerifC20(t *testing.T) {
	r := vRand()
	ints := func() int { return []int{0, 0, 1, 2, 3, 7, 16, 17, -1, -2, -9}[r.Intn(11)] }
	reals := func() float64 { return []float64{0, 0, 1, 0.5, 2, 3.5, 1e-9, 1e9}[r.Intn(8)] }
	neg := func(p int) bool { return r.Intn(p) == 0 }
	ctrl := func() (c core.CtrlConf, ok bool) {
		pos := func() int { return []int{0, 0, 1, 2, 100}[r.Intn(5)] }
		c.Iter, c.IterFreq, c.Timeout, c.DataPerIter, c.IterPerData = pos(), reals(), time.Duration(pos()), pos(), pos()
		if neg(9) {
			c.Iter = -1 - r.Intn(3)
		}
		if neg(9) {
			c.IterFreq = -0.25
		}
		if neg(9) {
			c.Timeout = -1
		}
		if neg(9) {
			c.DataPerIter = -1 - r.Intn(3)
		}
		if neg(9) {
			c.IterPerData = -1 - r.Intn(3)
		}
		if r.Intn(2) == 0 {
			c.Finishing = core.NewIterFinishing(3, 0)
		}
		return c, c.Iter >= 0 && c.IterFreq >= 0 && c.Timeout >= 0 && c.DataPerIter >= 0 && c.IterPerData >= 0
	}
	rgen := func() *rand.Rand {
		if r.Intn(2) == 0 {
			return nil
		}
		return rand.New(rand.NewSource(1))
	}
	dfl := func(v, z, d interface{}) interface{} {
		if reflect.DeepEqual(v, z) {
			return d
		}
		return v
	}
	// check prepares a configuration; want gives the expected values of its fields
	check := func(conf core.Conf, ok bool, want map[string]interface{}, desc string) {
		vGuard(func() string { return desc }, func() {
			before := map[string]interface{}{}
			v := reflect.ValueOf(conf).Elem()
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).CanInterface() {
					before[v.Type().Field(i).Name] = v.Field(i).Interface()
				}
			}
			err := core.PrepareConf(conf)
			if (err == nil) != ok {
				vFail("preparing gives error %v, valid: %v: %s", err, ok, desc)
			}
			for n, b := range before {
				got := v.FieldByName(n).Interface()
				if w, special := want[n]; special {
					b = w
				}
				if n == "RGen" {
					if g := got.(*rand.Rand); g == nil || before[n].(*rand.Rand) != nil && g != before[n].(*rand.Rand) {
						vFail("generator not kept or not created: %s", desc)
					}
					continue
				}
				if !reflect.DeepEqual(got, b) {
					vFail("%s is %v, want %v: %s", n, got, b, desc)
				}
			}
		})
	}
	build := func(ok bool, desc string, f func() *core.Algo) {
		if bad, _ := vPanics(func() { f() }); bad == ok {
			vFail("building panics: %v, valid: %v: %s", bad, ok, desc)
		}
	}
	sp := euclid.NewSpace()
	for n := 0; n < vRounds(4000); n++ {
		data := make([]core.Elemt, r.Intn(5))
		if r.Intn(20) == 0 {
			data = make([]core.Elemt, 99+r.Intn(4))
		}
		for i := range data {
			data[i] = []float64{float64(i)}
		}
		c, cok := ctrl()
		km := kmeans.Conf{CtrlConf: c, K: ints(), FrameSize: ints(), RGen: rgen(), NumCPU: []int{0, 1, 3}[r.Intn(3)], Par: r.Intn(2) == 0}
		desc := fmt.Sprintf("kmeans %+v, %d elements", km, len(data))
		ok := cok && km.K >= 1
		km2 := km
		build(ok, desc, func() *core.Algo { return kmeans.NewAlgo(km, sp, data, kmeans.GivenInitializer) })
		check(&km2, ok, map[string]interface{}{"NumCPU": dfl(km.NumCPU, 0, runtime.NumCPU())}, desc)

		mc := mcmc.Conf{CtrlConf: c, InitK: ints(), MaxK: ints(), FrameSize: ints(), RGen: rgen(), B: reals(), Amp: reals(), R: reals(), Norm: reals(), NumCPU: []int{0, 1, 3}[r.Intn(3)], Par: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			mc.ProbaK = []float64{1, 2, 3}
		}
		max := dfl(mc.MaxK, 0, 16).(int)
		desc = fmt.Sprintf("mcmc %+v, %d elements", mc, len(data))
		ok = cok && mc.InitK >= 1 && mc.InitK <= max
		pk := mc.ProbaK
		if len(pk) == 0 {
			pk = []float64{1, 8, 1}
		}
		mc2 := mc
		build(ok, desc, func() *core.Algo { return mcmc.NewAlgo(mc, sp, data, kmeans.GivenInitializer, nil) })
		check(&mc2, ok, map[string]interface{}{"NumCPU": dfl(mc.NumCPU, 0, runtime.NumCPU()), "MaxK": max, "ProbaK": pk,
			"Norm": dfl(mc.Norm, 0., 2.), "B": dfl(mc.B, 0., 1.)}, desc)

		st := streaming.Conf{CtrlConf: c, BufferSize: ints(), Mu: reals(), Sigma: reals(), OutRatio: reals(), OutAfter: ints(), RGen: rgen()}
		desc = fmt.Sprintf("streaming %+v, %d elements", st, len(data))
		after, size := dfl(st.OutAfter, 0, 5).(int), dfl(st.BufferSize, 0, 100).(int)
		ok = cok && after >= 2
		st2 := st
		build(ok && len(data) <= size, desc, func() *core.Algo { return streaming.NewAlgo(st, sp, data) })
		check(&st2, ok, map[string]interface{}{"BufferSize": size, "OutAfter": after, "Mu": dfl(st.Mu, 0., .5),
			"OutRatio": dfl(st.OutRatio, 0., 2.), "Sigma": dfl(st.Sigma, 0., .1)}, desc)

		cc := c
		check(&cc, cok, nil, fmt.Sprintf("control %+v", c))
	}
}
