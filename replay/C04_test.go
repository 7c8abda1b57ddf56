//verif:pkg core
package core_test

import (
	"math"
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

// bag: an exact weighted combination of numbered elements
type bag struct {
	id   int
	coef map[int]*big.Rat
}

func newBag(id int) bag { return bag{id, map[int]*big.Rat{id: big.NewRat(1, 1)}} }

type bagSpace struct{ d map[[2]int]float64 }

func (s bagSpace) Dist(a, b core.Elemt) float64 { return s.d[[2]int{a.(bag).id, b.(bag).id}] }
func (s bagSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	r := bag{-1, map[int]*big.Rat{}}
	add := func(x bag, w int) {
		for i, c := range x.coef {
			v := new(big.Rat).Mul(c, big.NewRat(int64(w), int64(wa+wb)))
			if o := r.coef[i]; o != nil {
				v.Add(v, o)
			}
			r.coef[i] = v
		}
	}
	add(a.(bag), wa)
	add(b.(bag), wb)
	return r
}
func (s bagSpace) Copy(a core.Elemt) core.Elemt { return a }
func (s bagSpace) Dim([]core.Elemt) int         { return 1 }

// bagMean: whether b is exactly the mean of the elements of the given ids and weights
func bagMean(b core.Elemt, w map[int]int) bool {
	x, ok := b.(bag)
	if !ok {
		return false
	}
	sum := 0
	for _, n := range w {
		sum += n
	}
	for i, n := range w {
		c := x.coef[i]
		if c == nil {
			c = new(big.Rat)
		}
		if c.Cmp(big.NewRat(int64(n), int64(sum))) != 0 {
			return false
		}
	}
	for i, c := range x.coef {
		if w[i] == 0 && c.Sign() != 0 {
			return false
		}
	}
	return true
}

func bagStr(b core.Elemt) string {
	if x, ok := b.(bag); ok {
		return fmt.Sprint(x.coef)
	}
	return fmt.Sprint(b)
}

func TestVerifC04(t *testing.T) {
	r := vRand()
	vals := []float64{0, 1, 1, 2, 3}
	one := func(n, m int, r *rand.Rand) {
		s := bagSpace{map[[2]int]float64{}}
		c := make(core.Clust, n)
		for i := range c {
			c[i] = newBag(1000 + i)
		}
		els := make([]core.Elemt, m)
		near, labels, weights := make([]int, m), make([]int, m), make([]int, m)
		for j := range els {
			els[j] = newBag(j)
			if j > 0 && r.Intn(6) == 0 {
				els[j] = els[r.Intn(j)] // duplicate
			}
			id := els[j].(bag).id
			for i := range c {
				if id == j {
					s.d[[2]int{id, 1000 + i}] = vals[r.Intn(len(vals))]
				}
				if s.d[[2]int{id, 1000 + i}] < s.d[[2]int{id, 1000 + near[j]}] {
					near[j] = i
				}
			}
			labels[j] = r.Intn(n)
			if r.Intn(3) > 0 {
				labels[j] = 0
			}
			weights[j] = 1 + r.Intn(4)
		}
		desc := func() string { return fmt.Sprintf("%d centroids, %d elements, distances %v, labels %v, weights %v", n, m, s.d, labels, weights) }
		chk := func(what string, means []core.Elemt, cards []int, lab []int, keep bool) {
			if len(means) != n || len(cards) != n {
				vFail("%s: %d means, %d cards: %s", what, len(means), len(cards), desc())
			}
			sum := 0
			for k := 0; k < n; k++ {
				cnt := 0
				w := map[int]int{}
				for j := range els {
					if lab[j] == k {
						w[els[j].(bag).id]++
						cnt++
					}
				}
				sum += cards[k]
				if cards[k] != cnt {
					vFail("%s: cluster %d has cardinality %d, want %d: %s", what, k, cards[k], cnt, desc())
				}
				if cnt > 0 && !bagMean(means[k], w) {
					vFail("%s: cluster %d has mean %s, want the mean of %v: %s", what, k, bagStr(means[k]), w, desc())
				}
				if cnt == 0 && means[k] != nil {
					vFail("%s: empty cluster %d has mean %s: %s", what, k, bagStr(means[k]), desc())
				}
			}
		}
		vGuard(desc, func() {
			means, cards := c.ReduceDBA(els, s)
			chk("ReduceDBA", means, cards, near, false)
			m2, c2 := c.ReduceDBAForLabels(els, labels, s)
			chk("ReduceDBAForLabels", m2, c2, labels, false)
			w1, w2 := map[int]int{}, map[int]int{}
			for j := range els {
				w1[els[j].(bag).id]++
				w2[els[j].(bag).id] += weights[j]
			}
			d, err := core.DBA(els, s)
			if (err == nil) != (m > 0) || (m > 0 && !bagMean(d, w1)) || (m == 0 && d != nil) {
				vFail("DBA gives (%s,%v): %s", bagStr(d), err, desc())
			}
			d, err = core.WeightedDBA(els, weights, s)
			if (err == nil) != (m > 0) || (m > 0 && !bagMean(d, w2)) || (m == 0 && d != nil) {
				vFail("WeightedDBA gives (%s,%v): %s", bagStr(d), err, desc())
			}
		})
	}
	for n := 1; n < 6; n++ {
		for m := 0; m < 12; m++ {
			for k := 0; k < vRounds(20); k++ {
				one(n, m, r)
			}
		}
	}
	for _, m := range []int{1500, 5000, 70000} {
		els, w, sum, wsum, tot := make([]core.Elemt, m), make([]int, m), 0., 0., 0
		for j := range els {
			x := float64(j%1013) + float64(j)/float64(m)
			els[j], w[j] = []float64{x}, 1+(j*j)%300
			sum, wsum, tot = sum+x, wsum+x*float64(w[j]), tot+w[j]
		}
		desc := func() string { return fmt.Sprintf("%d elements j%%1013+j/%d with weights 1+j*j%%300", m, m) }
		vGuard(desc, func() {
			sp := euclid.NewSpace()
			d, _ := core.DBA(els, sp)
			e, _ := core.WeightedDBA(els, w, sp)
			c := core.Clust{[]float64{500}, []float64{1e9}}
			f, cards := c.ReduceDBA(els, sp)
			g, cards2 := c.ReduceDBAForLabels(els, make([]int, m), sp)
			for k, v := range []core.Elemt{d, e, f[0], g[0]} {
				want := sum / float64(m)
				if k == 1 {
					want = wsum / float64(tot)
				}
				if got := v.([]float64)[0]; math.Abs(got-want) > 1e-6*(1+want) {
					vFail("%s gives %v, want %v: %s", []string{"DBA", "WeightedDBA", "ReduceDBA", "ReduceDBAForLabels"}[k], got, want, desc())
				}
			}
			if cards[0] != m || cards2[0] != m {
				vFail("cardinalities %v, %v: %s", cards, cards2, desc())
			}
		})
	}
	for _, m := range []int{33, 100, 257} {
		one(1, m, r)
		one(3, m, r)
		one(70, m, r)
	}
}
