//verif:pkg kmeans
package kmeans_test

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	xrand "golang.org/x/exp/rand"
)

// iterations against the definition: means of the elements nearest to each centroid
func TestVerifC14(t *testing.T) {
	r := vRand()
	space := euclid.NewSpace()
	_ = rand.Int
	one := func(k, n, dim, frame, degree, staged, iters int) {
		pt := func(wide float64) []float64 {
			v := make([]float64, dim)
			for i := range v {
				v[i] = float64(r.Intn(9)-4) * wide
			}
			return v
		}
		var data, all []core.Elemt
		for i := 0; i < n; i++ {
			e := pt(1)
			if i > 0 && r.Intn(4) == 0 {
				e = data[r.Intn(i)].([]float64)
			}
			data = append(data, e)
		}
		var cents core.Clust
		for i := 0; i < k; i++ {
			c := pt(1)
			if r.Intn(4) == 0 {
				c = pt(1000)
			}
			if i > 0 && r.Intn(6) == 0 {
				c = cents[r.Intn(i)].([]float64)
			}
			cents = append(cents, c)
		}
		log := ""
		desc := func() string {
			return fmt.Sprintf("frame size %d, degree %d (0: sequential), data %v, centroids %v%s", frame, degree, data, cents, log)
		}
		vCase("%s", desc())
		vGuard(desc, func() {
			conf := kmeans.Conf{K: k, FrameSize: frame, NumCPU: degree, Par: degree > 0, RGen: xrand.New(xrand.NewSource(1))}
			var init core.Initializer = func(int, []core.Elemt, core.Space, *xrand.Rand) (core.Clust, error) { return cents, nil }
			var impl kmeans.Impl
			if degree > 0 {
				impl = kmeans.NewParImpl(conf, init, data)
			} else {
				impl = kmeans.NewSeqImpl(conf, init, data)
			}
			all = append(all, data...)
			cur := append(core.Clust{}, cents...)
			run := core.NewOCStatus(core.Running)
			for it := 0; it < iters; it++ {
				stored := all
				if frame > 0 && len(stored) > frame {
					stored = stored[len(stored)-frame:]
				}
				for s := 0; s < staged; s++ {
					e := pt(1)
					log += fmt.Sprintf(", iteration %d: staged %v", it, e)
					if err := impl.Push(e, core.NewSimpleOCModel(&conf, space, run, nil, cur)); err != nil {
						vFail("push fails: %v: %s", err, desc())
					}
					all = append(all, e)
				}
				given := append(core.Clust{}, cur...)
				backup := vCopyAll(given)
				dataBackup := vCopyAll(stored)
				got, _, err := impl.Iterate(core.NewSimpleOCModel(&conf, space, run, nil, given))
				if err != nil {
					vFail("iteration fails: %v: %s", err, desc())
				}
				if len(got) != k {
					vFail("iteration %d returns %d centroids, want %d: %s", it, len(got), k, desc())
				}
				sums := make([][]float64, k)
				cards := make([]int, k)
				for _, e := range stored {
					b := 0
					for c := range cur {
						if space.Dist(e, cur[c]) < space.Dist(e, cur[b]) {
							b = c
						}
					}
					if sums[b] == nil {
						sums[b] = make([]float64, dim)
					}
					cards[b]++
					for d := range sums[b] {
						sums[b][d] += e.([]float64)[d]
					}
				}
				for c := range got {
					if got[c] == nil {
						vFail("iteration %d: centroid %d is nil: %s", it, c, desc())
					}
					want := cur[c].([]float64)
					if cards[c] > 0 {
						want = make([]float64, dim)
						for d := range want {
							want[d] = sums[c][d] / float64(cards[c])
						}
					}
					if !vVecClose(got[c].([]float64), want) {
						vFail("iteration %d: centroid %d is %v, want %v (%d elements): %s", it, c, got[c], want, cards[c], desc())
					}
				}
				for i := range given {
					if !vVecEq(given[i].([]float64), backup[i]) {
						vFail("iteration %d changes the given centroid %d: %s", it, i, desc())
					}
				}
				for i := range stored {
					if !vVecEq(stored[i].([]float64), dataBackup[i]) {
						vFail("iteration %d changes data element %d: %s", it, i, desc())
					}
				}
				cur = got
			}
		})
	}
	for n := 0; n < vRounds(900); n++ {
		frame := 0
		if r.Intn(2) == 0 {
			frame = 1 + r.Intn(14)
		}
		one(1+r.Intn(6), r.Intn(20), 1+r.Intn(3), frame, r.Intn(6), r.Intn(4), 1+r.Intn(4))
	}
	for n := 0; n < vRounds(10); n++ {
		one(1+r.Intn(4), 300+r.Intn(300), 2, 0, r.Intn(9), r.Intn(3), 2)
	}
}

func vCopyAll(l []core.Elemt) (out [][]float64) {
	for _, e := range l {
		out = append(out, append([]float64{}, e.([]float64)...))
	}
	return
}
