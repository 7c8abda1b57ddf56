//verif:pkg euclid
package euclid_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

func TestVerifC07(t *testing.T) {
	r := vRand()
	s := euclid.NewSpace()
	one := func(n, mode int) {
		full1, full2 := vVec(r, n+r.Intn(3), mode), vVec(r, n+r.Intn(3), mode)
		if r.Intn(4) == 0 {
			copy(full2, full1)
		}
		if r.Intn(4) == 0 && n > 0 {
			copy(full2[:n], full1[:n])
			full2[r.Intn(n)] += 0.5
		}
		a, b := full1[:n], full2[:n]

		w1, w2 := r.Intn(9)-1, r.Intn(9)-1
		if r.Intn(5) == 0 {
			w1 = 1000 + r.Intn(1000000)
		}
		if w1+w2 == 0 {
			w2 = 3
		}
		k1, k2 := append([]float64{}, full1...), append([]float64{}, full2...)
		desc := func() string { return fmt.Sprintf("%v (weight %d), %v (weight %d)", k1[:n], w1, k2[:n], w2) }
		vGuard(desc, func() {
			var e1, e2 core.Elemt = a, b
			want := ref(a, b)
			for _, d := range []float64{s.Dist(e1, e2), s.Dist(e2, e1), s.PointDist(a, b), s.PointDist(b, a)} {
				if !(math.Abs(d-want) <= 1e-9*(1+want)) || d < 0 {
					vFail("distance %v, want %v: %s", d, want, desc())
				}
			}
			if d1, d2 := s.Dist(e1, e2), s.Dist(e2, e1); math.Abs(d1-d2) > 1e-12*(1+d1) {
				vFail("distances %v and %v in the two directions: %s", d1, d2, desc())
			}
			if d := s.Dist(e1, append([]float64{}, a...)); !(math.Abs(d) <= 0) {
				vFail("distance %v to an equal vector: %s", d, desc())
			}
			if eq := vVecEq(a, b); (s.Dist(e1, e2) == 0) != eq {
				vFail("distance %v: %s", s.Dist(e1, e2), desc())
			}
			chk := func(what string, v []float64) {
				if len(v) != n {
					vFail("%s gives %v: %s", what, v, desc())
				}
				for i := range v {
					m := (a[i]*float64(w1) + b[i]*float64(w2)) / float64(w1+w2)
					if !(math.Abs(v[i]-m) <= 1e-9*(1+math.Abs(a[i])+math.Abs(b[i]))) {
						vFail("%s gives %v, coordinate %d should be %v: %s", what, v, i, m, desc())
					}
				}
			}
			own := func(what string, v []float64) {
				v = v[:cap(v)]
				for i := range v {
					v[i] = 1234567
				}
				if !vVecEq(full1, k1) || !vVecEq(full2, k2) {
					vFail("the result of %s shares the storage of its arguments: %s", what, desc())
				}
			}
			c1 := s.Combine(e1, w1, e2, w2).([]float64)
			c2 := s.PointCombine(a, w1, b, w2)
			p1 := s.Copy(e1).([]float64)
			p2 := s.PointCopy(a)
			if !vVecEq(full1, k1) || !vVecEq(full2, k2) {
				vFail("an operation changed its arguments into %v, %v: %s", full1, full2, desc())
			}
			chk("Combine", c1)
			chk("PointCombine", c2)
			if !vVecEq(p1, a) || !vVecEq(p2, a) {
				vFail("copies %v and %v: %s", p1, p2, desc())
			}
			own("Combine", c1)
			own("PointCombine", c2)
			own("Copy", p1)
			own("PointCopy", p2)
			if s.Dim([]core.Elemt{e1}) != n || s.Dim([]core.Elemt{e1, e2}) != n || s.Dim(nil) != 0 || s.Dim([]core.Elemt{}) != 0 {
				vFail("Dim gives %d, %d, %d: %s", s.Dim([]core.Elemt{e1}), s.Dim([]core.Elemt{e1, e2}), s.Dim(nil), desc())
			}
		})
	}
	for n := 0; n < 12; n++ {
		for mode := 0; mode < 3; mode++ {
			for i := 0; i < vRounds(150); i++ {
				one(n, mode)
			}
		}
	}
	for _, n := range []int{16, 17, 31, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025} {
		for i := 0; i < vRounds(3); i++ {
			one(n, i)
		}
	}
}

func ref(a, b []float64) float64 {
	sum := 0.
	for i := range a {
		sum += math.Pow(a[i]-b[i], 2)
	}
	return math.Sqrt(sum)
}
