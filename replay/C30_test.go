//verif:pkg mcmc
package mcmc_test

import (
	"fmt"
	"math"
	"testing"

	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/stat/distmv"
	"gonum.org/v1/gonum/stat/distuv"

	"github.com/wearelumenai/distclus/mcmc"
)

// multivariate T: samples against the same draws taken directly, densities against the formula
func TestVerifC30(t *testing.T) {
	r := vRand()
	for n := 0; n < vRounds(1500); n++ {
		dim := []int{0, 1, 1, 2, 3, 5, 8}[r.Intn(7)]
		nu := []float64{0, 1, 2, 3, 4.5, 10, 0.5}[r.Intn(7)]
		time := []int{1, 1, 2, 3, 8, 100, 12345}[r.Intn(7)]
		seed := uint64(r.Int63())
		scale := []float64{3, 3, 1e-3, 1e3, 1e7, 1e9}[r.Intn(6)]
		mu, x := make([]float64, dim), make([]float64, dim)
		for i := range mu {
			mu[i], x[i] = r.NormFloat64()*scale, r.NormFloat64()*scale
			if r.Intn(8) == 0 {
				x[i] = mu[i]
			}
		}
		if dim == 0 {
			continue // no normal vector of dimension 0
		}
		mu0, x0 := append([]float64{}, mu...), append([]float64{}, x...)
		desc := func() string {
			return fmt.Sprintf("dim %d, nu %v, time %d, mu %v, x %v, seed %d", dim, nu, time, mu0, x0, seed)
		}
		vGuard(desc, func() {
			m := mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: vSrc(seed)})
			k := nu
			if nu == 0 {
				k = 3
			}
			if m.Nu != k || m.Dim != dim || m.RGen == nil {
				vFail("parameters (%v,%v): %s", m.Nu, m.Dim, desc())
			}
			got := m.Sample(mu, time).([]float64)
			ref := func(chiFirst bool) []float64 {
				src := rand.New(rand.NewSource(seed))
				ones := make([]float64, dim)
				for i := range ones {
					ones[i] = 1
				}
				normal, _ := distmv.NewNormal(make([]float64, dim), mat.NewDiagDense(dim, ones), src)
				chi := distuv.ChiSquared{K: k, Src: src}
				var c float64
				if chiFirst {
					c = chi.Rand()
				}
				s := normal.Rand(nil)
				if !chiFirst {
					c = chi.Rand()
				}
				for i := range s {
					s[i] = mu0[i] + s[i]*math.Sqrt(k/c)/math.Sqrt(20*float64(time))
				}
				return s
			}
			if !vVecClose(got, ref(true)) && !vVecClose(got, ref(false)) {
				vFail("sample %v, want %v: %s", got, ref(true), desc())
			}
			sh := 0.
			for i := range mu {
				sh += (mu[i] - x[i]) * (mu[i] - x[i])
			}
			p := (float64(dim) + k) / 2
			sc := k / math.Sqrt(20*float64(time))
			want := math.Log(math.Gamma(p)/math.Gamma(k/2)) - math.Log(math.Pi*sc)*float64(dim)/2 - p*math.Log(1+sh/sc)
			if v := m.Pdf(mu, x, time); !vClose(v, want) {
				vFail("density %v, want %v: %s", v, want, desc())
			}
			if v := m.Pdf(x, mu, time); !vClose(v, want) {
				vFail("density %v is not symmetric, want %v: %s", v, want, desc())
			}
			if !vVecEq(mu, mu0) || !vVecEq(x, x0) {
				vFail("arguments changed into %v, %v: %s", mu, x, desc())
			}
			got[0] += 42
			if !vVecEq(mu, mu0) {
				vFail("the sample shares its storage with the mean: %s", desc())
			}
			if s2 := m.Sample(mu, time).([]float64); len(s2) != dim {
				vFail("second sample %v: %s", s2, desc())
			} else if got[0] -= 42; &s2[0] == &got[0] || !vVecClose(got, ref(true)) && !vVecClose(got, ref(false)) {
				vFail("a second sample changed the first: %s", desc())
			}
			d := mcmc.NewDirac()
			if v, ok := d.Sample(mu, time).([]float64); !ok || &v[0] != &mu[0] {
				vFail("the Dirac distribution gives %v: %s", v, desc())
			}
			if d.Pdf(x, mu, time) != d.Pdf(mu, mu, 1) {
				vFail("the Dirac density is not constant: %s", desc())
			}
		})
	}
}
