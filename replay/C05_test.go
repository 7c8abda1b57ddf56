//verif:pkg core
package core_test

import (
	"fmt"
	"math"
	"math/rand"
	"testing"

	"github.com/wearelumenai/distclus/core"
)

type lossSpace struct{ d map[[2]int]float64 }

func (s lossSpace) Dist(a, b core.Elemt) float64 { return s.d[[2]int{a.(int), b.(int)}] }
func (s lossSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt { return a }
func (s lossSpace) Copy(a core.Elemt) core.Elemt                                  { return a }
func (s lossSpace) Dim([]core.Elemt) int                                          { return 1 }

func TestVerifC05(t *testing.T) {
	r := vRand()
	vals := []float64{0, 1, 1, 2, 3, 0.5, 7}
	one := func(n, m int, norm float64, r *rand.Rand) {
		s := lossSpace{map[[2]int]float64{}}
		c := make(core.Clust, n)
		for i := range c {
			c[i] = 1000000 + i
		}
		els := make([]core.Elemt, m)
		near, labels := make([]int, m), make([]int, m)
		for j := range els {
			els[j] = j
			for i := range c {
				s.d[[2]int{j, 1000000 + i}] = vals[r.Intn(len(vals))]
				s.d[[2]int{1000000 + i, j}] = 1e6
				if s.d[[2]int{j, 1000000 + i}] < s.d[[2]int{j, 1000000 + near[j]}] {
					near[j] = i
				}
			}
			labels[j] = r.Intn(n)
			if r.Intn(3) == 0 {
				labels[j] = n - 1
			}
		}
		desc := func() string { return fmt.Sprintf("%d centroids, %d elements, norm %v, distances %v, labels %v", n, m, norm, s.d, labels) }
		chk := func(what string, losses []float64, cards []int, lab []int) float64 {
			if len(losses) != n || len(cards) != n {
				vFail("%s: %d losses, %d cards: %s", what, len(losses), len(cards), desc())
			}
			total := 0.
			for k := 0; k < n; k++ {
				cnt, loss := 0, 0.
				for j := range els {
					if lab[j] == k {
						cnt++
						loss += math.Pow(s.d[[2]int{j, 1000000 + k}], norm)
					}
				}
				total += loss
				if cards[k] != cnt || !vClose(losses[k], loss) {
					vFail("%s: cluster %d has (loss %v, cardinality %d), want (%v, %d): %.2000s", what, k, losses[k], cards[k], loss, cnt, desc())
				}
			}
			return total
		}
		vGuard(desc, func() {
			losses, cards := c.ReduceLoss(els, s, norm)
			total := chk("ReduceLoss", losses, cards, near)
			l2, c2 := c.ReduceLossForLabels(els, labels, s, norm)
			chk("ReduceLossForLabels", l2, c2, labels)
			if v := c.TotalLoss(els, s, norm); !vClose(v, total) {
				vFail("TotalLoss gives %v, want %v: %s", v, total, desc())
			}
		})
	}
	for n := 1; n < 6; n++ {
		for m := 0; m < 12; m++ {
			for _, norm := range []float64{2, 1, 3, 0.5, 4, 2.5, 1.25, 0.3 + 3*r.Float64(), 5 + 4*r.Float64(), 0, -1.5} {
				for k := 0; k < vRounds(8); k++ {
					one(n, m, norm, r)
				}
			}
		}
	}
	for _, m := range []int{33, 100, 257, 3000} {
		one(1, m, 2, r)
		one(3, m, 2, r)
		one(70, m, 1, r)
	}
}
