//verif:pkg kmeans
package kmeans_test

import (
	"fmt"
	"testing"

	"github.com/wearelumenai/distclus/kmeans"
	xrand "golang.org/x/exp/rand"
)

// script returns the given 64 bit values, then the last one for ever
type script struct {
	v []uint64
	i int
}

func (s *script) Seed(uint64) {}
func (s *script) Uint64() uint64 {
	v := s.v[s.i]
	if s.i+1 < len(s.v) {
		s.i++
	}
	return v
}

func TestVerifC13(t *testing.T) {
	r := vRand()
	// draws: smallest, largest that are not redrawn, middle values, then random ones
	draws := []uint64{0, 1, 1 << 11, 1 << 30, 1 << 61, 1 << 62, (1 << 62) + (1 << 61), (1 << 63) - (1 << 12), (1<<63 - 1) &^ (1<<11 - 1), 1 << 63, 1<<64 - 1}
	one := func(w []float64, d uint64) {
		// a draw that would round to 1 is redrawn for ever: use a second value
		src := xrand.New(&script{v: []uint64{d, d / 2}})
		desc := func() string { return fmt.Sprintf("WeightedChoice(%v) with first 64 bit draw %d", w, d) }
		sum := 0.
		for _, x := range w {
			sum += x
		}
		ww := append([]float64{}, w...)
		vGuard(desc, func() {
			i, err := kmeans.WeightedChoice(w, src)
			if sum == 0 {
				if err == nil {
					vFail("%s gives index %d and no error", desc(), i)
				}
				return
			}
			if err != nil {
				vFail("%s gives error %v", desc(), err)
			}
			if i < 0 || i >= len(w) || !(w[i] > 0) {
				vFail("%s gives index %d", desc(), i)
			}
			if !vVecEq(w, ww) {
				vFail("%s modifies the weights", desc())
			}
		})
	}
	fixed := [][]float64{{}, {0}, {0, 0}, {1}, {0, 1}, {1, 0}, {0, 1, 0}, {0, 0, 3, 0, 0}, {1, 1}, {0, 1, 1, 0}, {1e-300, 0, 1e-300},
		{0.1, 0.2, 0.3, 0.4, 0}, {1e16, 1, 0}, {1, 1e16, 0, 1, 0}, {0, 1e-17, 1, 0}, {1e300, 1e-300, 0}, {0, 0.1, 0, 0.1, 0, 0.1, 0}, {5, 0, 0, 0, 0}}
	for _, w := range fixed {
		for _, d := range draws {
			one(w, d)
		}
		for k := 0; k < 50; k++ {
			one(w, r.Uint64())
		}
	}
	for k := 0; k < vRounds(3000); k++ {
		w := make([]float64, r.Intn(12))
		for i := range w {
			switch r.Intn(4) {
			case 0:
				w[i] = r.Float64()
			case 1:
				w[i] = float64(r.Intn(4))
			case 2:
				w[i] = r.Float64() * 1e-10
			}
		}
		one(w, r.Uint64())
		one(w, draws[r.Intn(len(draws))])
	}
	// every index of positive weight must be reachable
	for _, w := range fixed {
		seen := map[int]bool{}
		for k := 0; k <= 4000; k++ {
			src := xrand.New(&script{v: []uint64{uint64(k) * ((1 << 63) / 4001), 0}})
			if i, err := kmeans.WeightedChoice(w, src); err == nil {
				seen[i] = true
			}
		}
		sum := 0.
		for _, x := range w {
			sum += x
		}
		for i, x := range w {
			if x > sum/100 && !seen[i] {
				vFail("WeightedChoice(%v) never returns index %d over 4001 regularly spaced draws", w, i)
			}
		}
	}
}
