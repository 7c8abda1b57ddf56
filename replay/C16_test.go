//verif:pkg mcmc
package mcmc_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	xrand "golang.org/x/exp/rand"
	"gonum.org/v1/gonum/stat/distuv"
)

// c16src records the draws of a source
type c16src struct {
	src   xrand.Source
	drawn []uint64
}

func (s *c16src) Uint64() uint64 {
	u := s.src.Uint64()
	s.drawn = append(s.drawn, u)
	return u
}
func (s *c16src) Seed(n uint64) { s.src.Seed(n) }

type c16play struct{ u uint64 }

func (s *c16play) Uint64() uint64 { return s.u }
func (s *c16play) Seed(n uint64)  {}

// c16dist is a distribution that records what it is asked
type c16dist struct {
	sampled, dens core.Clust
	shift, amp    float64
}

func (d *c16dist) Sample(mu core.Elemt, time int) core.Elemt {
	d.sampled = append(d.sampled, mu)
	m := mu.([]float64)
	v := make([]float64, len(m))
	for i := range m {
		v[i] = m[i] + d.shift*float64(len(d.sampled)%3-1)
	}
	return v
}
func (d *c16dist) pdf(x, mu core.Elemt, time int) float64 {
	return d.amp * (math.Sin(x.([]float64)[0]) + 0.1*mu.([]float64)[0] + float64(time)/100)
}
func (d *c16dist) Pdf(x, mu core.Elemt, time int) float64 {
	d.dens = append(d.dens, mu)
	return d.pdf(x, mu, time)
}

// iterations of the acceptance rule against its formula
func TestVerifC16(t *testing.T) {
	r := vRand()
	space := euclid.NewSpace()
	str := func(c core.Clust) string { return fmt.Sprint([]core.Elemt(c)) }
	one := func(k, maxK, n, spread, dim, frame int, par bool, amp, b, norm, shift, pamp float64, iters int) {
		var data []core.Elemt
		for i := 0; i < n; i++ {
			v := make([]float64, dim)
			for j := range v {
				v[j] = float64(r.Intn(spread))
			}
			data = append(data, v)
		}
		seed := uint64(r.Int63())
		src := &c16src{src: xrand.NewSource(seed)}
		desc := func() string {
			return fmt.Sprintf("seed %d, data %v, InitK %d, MaxK %d, frame size %d, par %v, amp %v, B %v, norm %v, shift %v, density scale %v", seed, data, k, maxK, frame, par, amp, b, norm, shift, pamp)
		}
		vGuard(desc, func() {
			conf := mcmc.Conf{InitK: k, MaxK: maxK, Amp: amp, B: b, Norm: norm, FrameSize: frame, RGen: xrand.New(src), NumCPU: 1 + r.Intn(3), Par: par}
			if conf.Verify() != nil {
				return
			}
			b = conf.B
			dist := &c16dist{shift: shift, amp: pamp}
			mk := mcmc.NewSeqImpl
			if par {
				mk = mcmc.NewParImpl
			}
			impl := mk(conf, kmeans.PPInitializer, data, dist)
			model := func(c core.Clust) core.OCModel {
				return core.NewSimpleOCModel(&conf, space, core.NewOCStatus(core.Ready), nil, c)
			}
			cents, err := impl.Init(model(nil))
			if err != nil {
				return
			}
			if len(cents) != k {
				vFail("%d initial centroids for %d: %s", len(cents), k, desc())
			}
			if frame > 0 && len(data) > frame {
				data = data[len(data)-frame:]
			}
			density := func(c core.Clust) (p float64) {
				for _, e := range c {
					p += dist.pdf(e, e, len(data))
				}
				return
			}
			cur := cents
			loss, pdf := cents.TotalLoss(data, space, norm0(conf.Norm)), density(cents)
			acc := 0
			stored := map[int]string{}
			log := ""
			for it := 0; it < iters; it++ {
				dist.sampled, dist.dens, src.drawn = nil, nil, nil
				vCase("%s%s", desc(), log)
				clust, figs, err := impl.Iterate(model(cur))
				if err != nil {
					vFail("iteration %d fails: %v: %s", it, err, desc())
				}
				if want, ok := stored[len(dist.sampled)]; ok && want != str(dist.sampled) {
					vFail("iteration %d proposes %d centers from %v, stored %v: %s", it, len(dist.sampled), str(dist.sampled), want, desc())
				}
				prop := dist.dens
				u := distuv.Uniform{Min: 0, Max: 1, Src: &c16play{src.drawn[len(src.drawn)-1]}}.Rand()
				ploss, ppdf := prop.TotalLoss(data, space, conf.Norm), density(prop)
				lambda := conf.Amp * math.Sqrt(float64(dim+3)/float64(len(data)))
				gibbs := lambda * (loss - ploss)
				rho := math.Exp(gibbs + math.Log(2*b)*float64(dim*(len(cur)-len(prop))) + pdf - ppdf)
				log += fmt.Sprintf("; iteration %d: %v -> %v draw %v rho %v", it, str(cur), str(prop), u, rho)
				if !vClose(figs["lambda"], lambda) || !vClose(figs["rGibbs"], gibbs) || !c16same(figs["rho"], rho) || figs["time"] != float64(len(data)) {
					vFail("iteration %d: figures %v, expected lambda %v, rGibbs %v, rho %v, time %d: %s%s", it, figs, lambda, gibbs, rho, len(data), desc(), log)
				}
				if math.Abs(u-rho) < 1e-6*(1+rho) {
					return
				}
				if u < rho {
					acc++
					cur, loss, pdf = prop, ploss, ppdf
					stored[len(prop)] = str(prop)
				}
				if figs["acceptations"] != float64(acc) {
					vFail("iteration %d: %v acceptations, expected %d: %s%s", it, figs["acceptations"], acc, desc(), log)
				}
				if str(clust) != str(cur) {
					vFail("iteration %d publishes %v, expected %v: %s%s", it, str(clust), str(cur), desc(), log)
				}
				cur = clust
				if frame == 0 && r.Intn(4) == 0 {
					// new data for the next iteration
					for i := 1 + r.Intn(4); i > 0; i-- {
						v := make([]float64, dim)
						for j := range v {
							v[j] = float64(r.Intn(spread))
						}
						if err := impl.Push(v, core.NewSimpleOCModel(&conf, space, core.NewOCStatus(core.Created), nil, cur)); err != nil {
							vFail("push fails: %v: %s", err, desc())
						}
						data = append(data[:len(data):len(data)], v)
						log += fmt.Sprintf("; push %v", v)
					}
				}
			}
		})
	}
	for i := 0; i < vRounds(250); i++ {
		n := 2 + r.Intn(12)
		k := 1 + r.Intn(3)
		frame := 0
		if r.Intn(4) == 0 {
			frame = 4 + r.Intn(8)
		}
		norm := float64(r.Intn(3))
		amp := []float64{0.01, 0.1, 1, 10}[r.Intn(4)]
		b := []float64{0, 0.3, 1, 2}[r.Intn(4)]
		one(k, k+r.Intn(4), n, 2+r.Intn(12), 1+r.Intn(3), frame, r.Intn(2) == 0, amp, b, norm, []float64{0, 0.5}[r.Intn(2)], []float64{0, 0.3, 2}[r.Intn(3)], 12)
	}
}

func norm0(n float64) float64 {
	if n == 0 {
		return 2
	}
	return n
}

func c16same(a, b float64) bool {
	return vClose(a, b) || vClose(math.Log(a), math.Log(b)) || math.IsInf(a, 1) && math.IsInf(b, 1)
}
