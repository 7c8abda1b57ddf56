//verif:pkg core
//verif:race
package core_test

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"testing"

	"github.com/wearelumenai/distclus/core"
)

// bag: an exact weighted combination of numbered elements
type bag struct {
	id   int
	coef map[int]*big.Rat
}

func newBag(id int) bag { return bag{id, map[int]*big.Rat{id: big.NewRat(1, 1)}} }

// bagSpace: arbitrary (integral) distances of elements 0.. to centroids 1000..
type bagSpace struct{ d map[[2]int]float64 }

func (s bagSpace) Dist(a, b core.Elemt) float64 { return s.d[[2]int{a.(bag).id, b.(bag).id}] }
func (s bagSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	r := bag{-1, map[int]*big.Rat{}}
	add := func(x bag, w int) {
		for i, c := range x.coef {
			v := new(big.Rat).Mul(c, big.NewRat(int64(w), int64(wa+wb)))
			if o := r.coef[i]; o != nil {
				v.Add(v, o)
			}
			r.coef[i] = v
		}
	}
	add(a.(bag), wa)
	add(b.(bag), wb)
	return r
}
func (s bagSpace) Copy(a core.Elemt) core.Elemt { return a }
func (s bagSpace) Dim([]core.Elemt) int         { return 1 }

func bagEq(a, b core.Elemt) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := a.(bag), b.(bag)
	if len(x.coef) != len(y.coef) {
		return false
	}
	for i, c := range x.coef {
		if y.coef[i] == nil || c.Cmp(y.coef[i]) != 0 {
			return false
		}
	}
	return true
}

func bagStr(b core.Elemt) string {
	if x, ok := b.(bag); ok {
		return fmt.Sprint(x.coef)
	}
	return fmt.Sprint(b)
}

func TestVerifC03(t *testing.T) {
	r := vRand()
	one := func(n, m, degree, extra int, r *rand.Rand) {
		s := bagSpace{map[[2]int]float64{}}
		c := make(core.Clust, n)
		for i := range c {
			c[i] = newBag(1000 + i)
		}
		els := make([]core.Elemt, m, m+extra)
		labels := make([]int, m)
		spread := 1 + r.Intn(n)
		for j := range els {
			els[j] = newBag(j)
			for i := range c {
				s.d[[2]int{j, 1000 + i}] = float64(1 + r.Intn(4))
				if i >= spread {
					s.d[[2]int{j, 1000 + i}] = 9
				}
			}
			labels[j] = r.Intn(spread)
		}
		norm := []float64{1, 2, 3, 0}[r.Intn(4)]
		desc := func() string {
			return fmt.Sprintf("%d centroids, %d elements, degree %d, norm %v, distances %v, labels %v", n, m, degree, norm, s.d, labels)
		}
		vCase("%s", desc())
		ints := func(what string, a, b []int) {
			if len(a) != len(b) {
				vFail("%s: %v in parallel, %v sequentially: %s", what, a, b, desc())
			}
			for i := range a {
				if a[i] != b[i] {
					vFail("%s: %v in parallel, %v sequentially: %s", what, a, b, desc())
				}
			}
		}
		reals := func(what string, a, b []float64, exact bool) {
			ok := len(a) == len(b)
			for i := 0; ok && i < len(a); i++ {
				ok = a[i] == b[i] || !exact && math.Abs(a[i]-b[i]) <= 1e-9*(1+math.Abs(b[i]))
			}
			if !ok {
				vFail("%s: %v in parallel, %v sequentially: %s", what, a, b, desc())
			}
		}
		means := func(what string, a, b []core.Elemt, cards []int, keep bool) {
			if len(a) != n || len(b) != n {
				vFail("%s: %d means in parallel, %d sequentially: %s", what, len(a), len(b), desc())
			}
			for k := range a {
				if cards[k] == 0 && keep {
					if !bagEq(a[k], c[k]) {
						vFail("%s: the mean of empty cluster %d is %s, not the given centroid: %s", what, k, bagStr(a[k]), desc())
					}
				} else if !bagEq(a[k], b[k]) {
					vFail("%s: mean %d is %s in parallel, %s sequentially: %s", what, k, bagStr(a[k]), bagStr(b[k]), desc())
				}
			}
		}
		keep := append([]core.Elemt{}, els...)
		vGuard(desc, func() {
			l1, d1 := c.MapLabel(els, s)
			l2, d2 := c.ParMapLabel(els, s, degree)
			ints("ParMapLabel", l2, l1)
			reals("ParMapLabel", d2, d1, true)
			f1, n1 := c.ReduceLoss(els, s, norm)
			f2, n2 := c.ParReduceLoss(els, s, norm, degree)
			ints("ParReduceLoss", n2, n1)
			reals("ParReduceLoss", f2, f1, false)
			t1, t2 := c.TotalLoss(els, s, norm), c.ParTotalLoss(els, s, norm, degree)
			reals("ParTotalLoss", []float64{t2}, []float64{t1}, false)
			f1, n1 = c.ReduceLossForLabels(els, labels, s, norm)
			f2, n2 = c.ParReduceLossForLabels(els, labels, s, norm, degree)
			ints("ParReduceLossForLabels", n2, n1)
			reals("ParReduceLossForLabels", f2, f1, false)
			m1, c1 := c.ReduceDBA(els, s)
			m2, c2 := c.ParReduceDBA(els, s, degree)
			ints("ParReduceDBA", c2, c1)
			means("ParReduceDBA", m2, m1, c1, true)
			g1, e1 := c.ReduceDBAForLabels(els, labels, s)
			g2, e2 := c.ParReduceDBAForLabels(els, labels, s, degree)
			ints("ParReduceDBAForLabels", e2, e1)
			means("ParReduceDBAForLabels", g2, g1, e1, false)
		})
		for j := range els {
			if !bagEq(els[j], keep[j]) {
				vFail("element %d was changed: %s", j, desc())
			}
		}
		for k := range c {
			if !bagEq(c[k], newBag(1000+k)) {
				vFail("centroid %d was changed: %s", k, desc())
			}
		}
	}
	for m := 0; m <= 9; m++ {
		for degree := 1; degree <= 11; degree++ {
			for n := 1; n <= 3; n++ {
				one(n, m, degree, r.Intn(3), r)
			}
		}
	}
	for i := 0; i < vRounds(400); i++ {
		one(1+r.Intn(6), r.Intn(60), 1+r.Intn(20), r.Intn(9), r)
	}
}
