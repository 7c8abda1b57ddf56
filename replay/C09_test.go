//verif:pkg dtw
package dtw_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func TestVerifC09(t *testing.T) {
	r := vRand()
	inner := euclid.NewSpace()
	series := func(n, dim, mode int) [][]float64 {
		s := make([][]float64, n)
		for i := range s {
			s[i] = vVec(r, dim, mode)
			if mode == 0 {
				for d := range s[i] {
					s[i][d] = float64(r.Intn(4))
				}
			}
		}
		return s
	}
	outside := func(w, i, j int) bool { return w > 0 && (i-j > w || j-i > w) }
	one := func(n, m, w, mode int) {
		a, b := series(n, 1+r.Intn(2), mode), [][]float64(nil)
		b = series(m, len(a[0]), mode)
		desc := func() string { return fmt.Sprintf("series %v and %v, window %d", a, b, w) }
		vGuard(desc, func() {
			ref := make([][]float64, n)
			for i := range ref {
				ref[i] = make([]float64, m)
				for j := range ref[i] {
					if outside(w, i, j) {
						ref[i][j] = math.Inf(1)
						continue
					}
					best := math.Inf(1)
					if i == 0 && j == 0 {
						best = 0
					}
					if i > 0 {
						best = math.Min(best, ref[i-1][j])
					}
					if j > 0 {
						best = math.Min(best, ref[i][j-1])
					}
					if i > 0 && j > 0 {
						best = math.Min(best, ref[i-1][j-1])
					}
					ref[i][j] = best + inner.PointDist(a[i], b[j])
				}
			}
			same := func(x, y float64) bool { return x == y || math.Abs(x-y) <= 1e-9*(1+math.Abs(y)) }
			cost := dtw.NewCumCostMatrix(a, b, inner, w)
			for i := range ref {
				for j := range ref[i] {
					if got := cost.Get(i, j); !same(got, ref[i][j]) {
						vFail("%s: accumulated cost at (%d,%d) is %v instead of %v", desc(), i, j, got, ref[i][j])
					}
				}
			}
			want := ref[n-1][m-1]
			if got := dtw.NewDTWWindow(a, b, inner, w).Dist(); !same(got, want) {
				vFail("%s: distance %v instead of %v", desc(), got, want)
			}
			if w == 0 {
				if got := dtw.NewDTW(a, b, inner).Dist(); !same(got, want) {
					vFail("%s: distance %v instead of %v", desc(), got, want)
				}
			}
			var e1, e2 core.Elemt = a, b
			if got := dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: w}).Dist(e1, e2); !same(got, want) {
				vFail("%s: distance of the space %v instead of %v", desc(), got, want)
			}
		})
	}
	for k := 0; k < vRounds(1500); k++ {
		n, m := 1+r.Intn(9), 1+r.Intn(9)
		if k%50 == 49 {
			n, m = 1+r.Intn(120), 1+r.Intn(120)
		}
		d := n - m
		if d < 0 {
			d = -d
		}
		w := 0
		if r.Intn(3) > 0 {
			if w = d + r.Intn(4); w == 0 {
				w = 1
			}
		}
		one(n, m, w, r.Intn(3))
	}
}
