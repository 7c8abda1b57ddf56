//verif:pkg mcmc
package mcmc_test

import (
	"fmt"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/mcmc"
)

// histories of a center store against a list of what was stored
func TestVerifC17(t *testing.T) {
	r := vRand()
	space := euclid.NewSpace()
	one := func(n, spread, ops int) {
		data := make([]core.Elemt, n)
		for i := range data {
			data[i] = []float64{float64(r.Intn(spread)), float64(r.Intn(2))}
		}
		seed := uint64(r.Int63())
		log := ""
		desc := func() string { return fmt.Sprintf("seed %d, data %v, operations:%s", seed, data, log) }
		val := func(e core.Elemt) []float64 { return e.([]float64) }
		str := func(c core.Clust) string { return fmt.Sprint([]core.Elemt(c)) }
		vGuard(desc, func() {
			store := mcmc.NewCenterStore(vSrc(seed))
			stored := map[int]core.Clust{}
			kept := map[int]string{}
			backup := fmt.Sprint(data)
			list := func(k int) core.Clust {
				c := make(core.Clust, k)
				for i := range c {
					c[i] = []float64{float64(r.Intn(spread)), float64(r.Intn(2))}
				}
				return c
			}
			for op := 0; op < ops; op++ {
				if r.Intn(3) == 0 {
					c := list(1 + r.Intn(5))
					log += fmt.Sprintf(" store %v;", []core.Elemt(c))
					store.SetCenters(c)
					stored[len(c)], kept[len(c)] = c, str(c)
				} else {
					prev := list(1 + r.Intn(5))
					k := len(prev) - 1 + r.Intn(3)
					if k < 1 {
						k = 1
					}
					log += fmt.Sprintf(" get %d from %v;", k, []core.Elemt(prev))
					vCase("%s", desc())
					prevBackup := str(prev)
					got, err := store.GetCenters(data, space, k, prev)
					if str(prev) != prevBackup {
						vFail("the previous list is now %v: %s", str(prev), desc())
					}
					far := func(e core.Elemt) bool {
						for _, p := range prev {
							if space.Dist(e, p) == 0 {
								return false
							}
						}
						return true
					}
					if s, ok := stored[k]; ok {
						if err != nil || str(got) != str(s) {
							vFail("GetCenters(%d) gives %v, %v instead of the stored %v: %s", k, str(got), err, str(s), desc())
						}
						continue
					}
					possible := false
					for _, e := range data {
						possible = possible || far(e)
					}
					if wantErr := k == len(prev)+1 && !possible; wantErr != (err != nil) {
						vFail("GetCenters(%d) gives error %v, want an error: %v: %s", k, err, wantErr, desc())
					}
					if err != nil {
						continue
					}
					if len(got) != k {
						vFail("GetCenters(%d) gives %d centers: %s", k, len(got), desc())
					}
					switch {
					case k == len(prev):
						if str(got) != prevBackup {
							vFail("GetCenters(%d) gives %v instead of the previous list: %s", k, str(got), desc())
						}
					case k > len(prev):
						if str(got[:len(prev)]) != prevBackup {
							vFail("GetCenters(%d) gives %v, which does not start with the previous list: %s", k, str(got), desc())
						}
						in := false
						for _, e := range data {
							in = in || vVecEq(val(e), val(got[k-1]))
						}
						if !in || !far(got[k-1]) {
							vFail("GetCenters(%d) adds %v (in the data: %v, apart from the previous centers: %v): %s", k, got[k-1], in, far(got[k-1]), desc())
						}
					default:
						ok := false
						for x := range prev {
							c := append(append(core.Clust{}, prev[:x]...), prev[x+1:]...)
							ok = ok || str(c) == str(got)
						}
						if !ok {
							vFail("GetCenters(%d) gives %v, not the previous list without one center: %s", k, str(got), desc())
						}
					}
					if k != len(prev) { // copies: changing them changes nothing else
						for _, e := range got {
							val(e)[0] += 1000
						}
						if str(prev) != prevBackup || fmt.Sprint(data) != backup {
							vFail("GetCenters(%d) shares centers with the previous list or the data: %s", k, desc())
						}
					}
				}
				for k, c := range stored {
					if str(c) != kept[k] {
						vFail("the stored list of %d centers is now %v, was %v: %s", k, str(c), kept[k], desc())
					}
					if g, err := store.GetCenters(data, space, k, c); err != nil || str(g) != kept[k] {
						vFail("GetCenters(%d) gives %v, %v instead of the stored %v: %s", k, str(g), err, kept[k], desc())
					}
				}
				if fmt.Sprint(data) != backup {
					vFail("the data is now %v: %s", data, desc())
				}
			}
		})
	}
	for n := 0; n < vRounds(600); n++ {
		one(1+r.Intn(12), 1+r.Intn(6), 1+r.Intn(12))
	}
}
