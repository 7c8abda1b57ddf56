//verif:pkg core
package core_test

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
)

// elements are ints, the distance is a table
type tableSpace struct{ d map[[2]int]float64 }

func (s tableSpace) Dist(a, b core.Elemt) float64 { return s.d[[2]int{a.(int), b.(int)}] }
func (s tableSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt { return a }
func (s tableSpace) Copy(a core.Elemt) core.Elemt                                  { return a }
func (s tableSpace) Dim([]core.Elemt) int                                          { return 1 }

type fixedImpl struct{ c core.Clust }

func (i fixedImpl) Init(core.OCModel) (core.Clust, error) { return i.c, nil }
func (i fixedImpl) Iterate(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	return nil, nil, nil
}
func (i fixedImpl) Push(core.Elemt, core.OCModel) error          { return nil }
func (i fixedImpl) Copy(core.OCModel) (core.Impl, error)         { return i, nil }

func TestVerifC01(t *testing.T) {
	r := vRand()
	vals := []float64{0, 1, 1, 2, 0.5, -1e-16, -1, 3, 1e300, 1e-300}
	one := func(n, m int, r *rand.Rand, nearTie bool) {
		s := tableSpace{map[[2]int]float64{}}
		c := make(core.Clust, n)
		for i := range c {
			c[i] = 1000 + i
		}
		els := make([]core.Elemt, m)
		for j := range els {
			els[j] = j
			for i := range c {
				v := vals[r.Intn(len(vals))]
				if nearTie {
					v = r.Float64()
				}
				s.d[[2]int{j, 1000 + i}] = v
				s.d[[2]int{1000 + i, j}] = v
			}
		}
		desc := func() string { return fmt.Sprintf("%d centroids %v, elements %v, distances %v", n, c, els, s.d) }
		cc := append(core.Clust{}, c...)
		vGuard(desc, func() {
			labels, dists := c.MapLabel(els, s)
			if len(labels) != m || len(dists) != m {
				vFail("MapLabel: %d labels, %d distances: %s", len(labels), len(dists), desc())
			}
			var algo *core.Algo
			algo = core.NewAlgo(&kmeans.Conf{K: 1}, fixedImpl{c}, s)
			if err := algo.Init(); err != nil {
				vFail("Init: %v", err)
			}
			for j := range els {
				best, bd := -1, -1.0
				for i := range c {
					d := s.d[[2]int{j, 1000 + i}]
					if best < 0 || d < bd {
						best, bd = i, d
					}
				}
				chk := func(what string, el core.Elemt, l int, d float64) {
					if l != best || d != bd || (best >= 0 && el != cc[best]) || (best < 0 && el != nil) {
						vFail("%s of %v gives (%v,%d,%v), want (label %d, distance %v): %s", what, els[j], el, l, d, best, bd, desc())
					}
				}
				e1, l1, d1 := c.Assign(els[j], s)
				chk("Assign", e1, l1, d1)
				e2, l2, d2 := algo.Predict(els[j])
				chk("Predict", e2, l2, d2)
				if labels[j] != best || dists[j] != bd {
					vFail("MapLabel of element %d gives (%d,%v), want (%d,%v): %s", j, labels[j], dists[j], best, bd, desc())
				}
			}
		})
	}
	for n := 0; n < 6; n++ {
		for m := 0; m < 4; m++ {
			for k := 0; k < vRounds(30); k++ {
				one(n, m, r, k%3 == 2)
			}
		}
	}
	for _, n := range []int{17, 64, 129, 300} {
		for k := 0; k < 5; k++ {
			one(n, 3, r, k%2 == 0)
			one(3, n, r, k%2 == 0)
		}
	}
}
