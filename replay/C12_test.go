//verif:pkg kmeans
package kmeans_test

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestVerifC12(t *testing.T) {
	r := vRand()
	space := euclid.NewSpace()
	one := func(n, spread, k int, name string, seed uint64) {
		els := make([]core.Elemt, n)
		keep := make([][]float64, n)
		distinct := map[string]int{}
		for i := range els {
			v := []float64{float64(r.Intn(spread)), 0.5}
			els[i], keep[i] = v, append([]float64{}, v...)
			distinct[fmt.Sprint(v)]++
		}
		desc := func() string { return fmt.Sprintf("initializer %s, k=%d, data %v, seed %d", name, k, keep, seed) }
		vCase("%s", desc())
		vWithin(20*time.Second, desc(), func() {
			vGuard(desc, func() {
				init := kmeans.CreateInitializer(name)
				if init == nil {
					vFail("no initializer: %s", desc())
				}
				c, err := init(k, els, space, vSrc(seed))
				low := name[0] | 32
				bad := k < 1 || n < k || low == 'p' && len(distinct) < k
				if bad != (err != nil) {
					vFail("error %v: %s", err, desc())
				}
				for i := range els {
					if !reflect.DeepEqual(els[i], keep[i]) {
						vFail("element %d was changed into %v: %s", i, els[i], desc())
					}
				}
				if bad {
					if c != nil {
						vFail("centroids %v with an error: %s", c, desc())
					}
					return
				}
				if len(c) != k {
					vFail("centroids %v: %s", c, desc())
				}
				count := map[string]int{}
				for i, e := range c {
					v, ok := e.([]float64)
					if !ok || len(v) != 2 {
						vFail("centroid %d is %v: %s", i, e, desc())
					}
					s := fmt.Sprint(v)
					count[s]++
					if distinct[s] == 0 {
						vFail("centroid %d is %v, not an element: %s", i, e, desc())
					}
					switch {
					case low == 'g' && !reflect.DeepEqual(v, keep[i]):
						vFail("centroid %d is %v: %s", i, e, desc())
					case low == 'p' && count[s] > 1:
						vFail("centroids %v are not apart: %s", c, desc())
					case low == 'r' && count[s] > distinct[s]:
						vFail("centroids %v are not at different positions: %s", c, desc())
					}
				}
				// the list returned is a new one
				for i := range c {
					c[i] = nil
				}
				for i := range els {
					if !reflect.DeepEqual(els[i], keep[i]) {
						vFail("element %d is overwritten through the centroids: %s", i, desc())
					}
				}
			})
		})
	}
	names := []string{"given", "pp", "rand", "GIVEN", "Pp", "Rand"}
	for n := 0; n <= 6; n++ {
		for k := -2; k <= n+2; k++ {
			for _, name := range names {
				for i := 0; i < vRounds(8); i++ {
					one(n, 1+r.Intn(8), k, name, uint64(r.Int63()))
				}
			}
		}
	}
	for i := 0; i < vRounds(6); i++ {
		for _, n := range []int{120, 400} {
			one(n, 1000000, n, "rand", uint64(r.Int63()))
			one(n, 1000000, n, "given", uint64(r.Int63()))
		}
		one(40, 1000000, 40, "pp", uint64(r.Int63()))
	}
	for i := 0; i < vRounds(150); i++ {
		n := 5 + r.Intn(30)
		one(n, 1+r.Intn(2*n), r.Intn(n+3), names[r.Intn(6)], uint64(r.Int63()))
	}
}
