//verif:pkg mcmc
package mcmc_test

import (
	"fmt"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
)

// c15dist counts the centers of a proposal
type c15dist struct {
	sampled, dens int
	back          bool
}

func (d *c15dist) Sample(mu core.Elemt, time int) core.Elemt {
	d.sampled++
	return mu
}
func (d *c15dist) Pdf(x, mu core.Elemt, time int) float64 {
	d.dens++
	return 0
}

// histories of the number of clusters
func TestVerifC15(t *testing.T) {
	r := vRand()
	space := euclid.NewSpace()
	one := func(k, maxK, n, spread, frame, push int, par bool, probaK []float64, amp, b float64, iters int) {
		var data []core.Elemt
		for i := 0; i < n; i++ {
			data = append(data, []float64{float64(r.Intn(spread)), float64(r.Intn(2))})
		}
		seed := uint64(r.Int63())
		desc := func() string {
			return fmt.Sprintf("seed %d, data %v, InitK %d, MaxK %d, frame size %d, par %v, probabilities %v, amp %v, B %v, %d elements pushed", seed, data, k, maxK, frame, par, probaK, amp, b, push)
		}
		vGuard(desc, func() {
			conf := mcmc.Conf{InitK: k, MaxK: maxK, Amp: amp, B: b, FrameSize: frame, RGen: vSrc(seed), NumCPU: 1 + r.Intn(3), Par: par, ProbaK: probaK}
			if conf.Verify() != nil {
				return
			}
			dist := &c15dist{}
			mk := mcmc.NewSeqImpl
			if par {
				mk = mcmc.NewParImpl
			}
			impl := mk(conf, kmeans.PPInitializer, data, dist)
			model := func(c core.Clust) core.OCModel {
				return core.NewSimpleOCModel(&conf, space, core.NewOCStatus(core.Ready), nil, c)
			}
			vCase("%s", desc())
			cents, err := impl.Init(model(nil))
			if err != nil {
				return
			}
			count := n
			if frame > 0 && count > frame {
				count = frame
			}
			log := fmt.Sprint(len(cents))
			for it := 0; it < iters; it++ {
				*dist = c15dist{}
				staged := 0
				if push > 0 && r.Intn(3) == 0 {
					push--
					staged = 1
					impl.Push([]float64{float64(r.Intn(spread)), 0}, model(cents))
				}
				vCase("%s: numbers of clusters %s", desc(), log)
				clust, _, err := impl.Iterate(model(cents))
				if err != nil {
					vFail("iteration %d fails: %v: %s", it, err, desc())
				}
				log += fmt.Sprintf(" (%d) %d", dist.sampled, len(clust))
				p := dist.sampled
				if dist.dens != p {
					vFail("iteration %d: a proposal of %d centers from %d: %s: %s", it, dist.dens, p, desc(), log)
				}
				if p < 1 || p > maxK || p > count || p < len(cents)-1 || p > len(cents)+1 {
					vFail("iteration %d proposes %d clusters from %d with a maximum of %d and %d data: %s: %s", it, p, len(cents), maxK, count, desc(), log)
				}
				if len(clust) != p && len(clust) != len(cents) {
					vFail("iteration %d publishes %d centroids after %d with a proposal of %d: %s: %s", it, len(clust), len(cents), p, desc(), log)
				}
				cents = clust
				if count += staged; frame > 0 && count > frame {
					count = frame
				}
			}
		})
	}
	for i := 0; i < vRounds(400); i++ {
		n := 1 + r.Intn(8)
		k := 1 + r.Intn(4)
		frame := 0
		if r.Intn(4) == 0 {
			frame = 2 + r.Intn(6)
		}
		probaK := [][]float64{nil, {1, 1, 1}, {0, 0, 1}, {1, 0, 0}, {1, 0, 3}, {0, 1, 1}}[r.Intn(6)]
		one(k, k+r.Intn(4), n, 1+r.Intn(8), frame, r.Intn(4), r.Intn(3) == 0, probaK, []float64{0.001, 0.1, 1}[r.Intn(3)], []float64{0, 0.01, 0.4, 1}[r.Intn(4)], 25)
	}
}
