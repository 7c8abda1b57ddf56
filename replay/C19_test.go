//verif:pkg streaming
package streaming_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/streaming"
	xrand "golang.org/x/exp/rand"
)

type vModel struct{ space core.Space }

func (m vModel) Centroids() core.Clust             { return nil }
func (m vModel) Conf() core.Conf                   { return nil }
func (m vModel) Impl() core.Impl                   { return nil }
func (m vModel) Space() core.Space                 { return m.space }
func (m vModel) Status() core.OCStatus             { return core.OCStatus{} }
func (m vModel) RuntimeFigures() core.RuntimeFigures { return nil }

// vStream runs one history and checks it against both properties
func vStream(t *testing.T, prop string) {
	r := vRand()
	one := func(ops int) {
		dim := 1 + r.Intn(2)
		spread := []int{1, 2, 6, 40}[r.Intn(4)]
		conf := streaming.Conf{
			BufferSize: 1 + r.Intn(8),
			Mu:         []float64{0, .5, -1, 2}[r.Intn(4)],
			Sigma:      []float64{0, .1, 1}[r.Intn(3)],
			OutRatio:   []float64{.5, 1, 1.5, 2}[r.Intn(4)],
			OutAfter:   2 + r.Intn(6),
		}
		seed := uint64(r.Int63())
		conf.RGen = xrand.New(xrand.NewSource(seed))
		space := euclid.NewSpace()
		model := vModel{space}
		pt := func() []float64 {
			v := make([]float64, dim)
			for i := range v {
				v[i] = float64(r.Intn(spread))
			}
			if r.Intn(12) == 0 {
				v[0] += 500
			}
			return v
		}
		log := ""
		desc := func() string {
			return fmt.Sprintf("buffer %d, mu %v, sigma %v, outratio %v, outafter %d, seed %d:%s", conf.BufferSize, conf.Mu, conf.Sigma, conf.OutRatio, conf.OutAfter, seed, log)
		}
		fail := func(p, f string, a ...interface{}) {
			if p == prop {
				vFail("%s: %s", fmt.Sprintf(f, a...), desc())
			}
		}
		vGuard(desc, func() {
			var init []core.Elemt
			for n := r.Intn(conf.BufferSize + 1); len(init) < n; {
				init = append(init, pt())
			}
			log += fmt.Sprintf(" initial data %v;", init)
			impl := streaming.NewImpl(conf, init)
			queue := append([]core.Elemt{}, init...)
			push := func() {
				e := pt()
				log += fmt.Sprintf(" push %v;", e)
				err := impl.Push(e, model)
				if (err != nil) != (len(queue) == conf.BufferSize) {
					fail("C18", "Push gives %v with %d elements queued in a buffer of size %d", err, len(queue), conf.BufferSize)
				}
				if err == nil {
					queue = append(queue, e)
				}
			}
			for r.Intn(3) == 0 {
				push()
			}
			var clust [][]float64
			var cards []int
			max := 0.0
			log += " init;"
			vCase("%s", desc())
			c, err := impl.Init(model)
			if (err != nil) != (len(queue) == 0) {
				fail("C18", "Init gives %v with %d elements queued", err, len(queue))
				return
			}
			if err != nil {
				return
			}
			if len(c) != 1 || !vVecEq(c[0].([]float64), queue[0].([]float64)) {
				fail("C18", "Init gives the centroids %v, not the first element", c)
				return
			}
			clust, cards, queue = append(clust, queue[0].([]float64)), append(cards, 1), queue[1:]
			count := 0
			for op := 0; op < ops; op++ {
				if len(log) > 3000 {
					log = log[:1000] + " ...(pushes of random elements and iterations) ..." + log[len(log)-500:]
				}
				if r.Intn(3) == 0 {
					push()
					continue
				}
				log += " iterate;"
				vCase("%s", desc())
				c, figures, err := impl.Iterate(model)
				if err != nil {
					fail("C18", "Iterate gives the error %v", err)
					return
				}
				if len(queue) == 0 {
					if len(c) != 0 {
						fail("C18", "Iterate publishes %v with nothing to consume", c)
					}
				} else {
					e := queue[0].([]float64)
					queue = queue[1:]
					near, dist := 0, math.Inf(1)
					for i := range clust {
						if d := space.Dist(e, clust[i]); d < dist {
							near, dist = i, d
						}
					}
					ref := max
					if ref == 0 {
						ref = dist
					}
					rel := dist / ref
					outlier := count >= conf.OutAfter && rel > conf.OutRatio
					opens := outlier
					if !outlier {
						opens = conf.Mu < rel // false on 0/0
						if conf.Sigma > 0 && math.Abs(rel-conf.Mu) < 10*conf.Sigma { // up to the draw
							opens = len(impl.GetClusters()) == len(clust)+1
						}
						max = math.Max(ref, dist)
					} else {
						max = ref
					}
					count++
					if got := len(impl.GetClusters()) == len(clust)+1; got != opens {
						fail("C19", "element %v at relative distance %v of %v (maximal distance %v, outlier: %v): opens a center: %v, want %v", e, rel, clust[near], ref, outlier, got, opens)
						if prop == "C18" {
							if got {
								max = math.Max(ref, dist)
							}
							opens = got
						}
					}
					if opens {
						clust, cards = append(clust, e), append(cards, 1)
					} else {
						v := make([]float64, dim)
						for i := range v {
							v[i] = (clust[near][i]*float64(cards[near]) + e[i]) / float64(cards[near]+1)
						}
						clust[near] = v
						cards[near]++
					}
					now := impl.GetClusters()
					if len(now) != len(clust) {
						fail("C18", "%d centers after element %v, want %d", len(now), e, len(clust))
						return
					}
					for i := range now {
						if !vVecClose(now[i].([]float64), clust[i]) {
							fail("C18", "center %d is %v after element %v, want %v (weight %d)", i, now[i], e, clust[i], cards[i])
							return
						}
						if len(c) != len(now) || !vVecClose(c[i].([]float64), clust[i]) {
							fail("C18", "Iterate publishes %v, want %v", c, clust)
							return
						}
					}
				}
				if g := impl.GetMaxDistance(); !vClose(g, max) {
					fail("C19", "the maximal distance is %v, want %v", g, max)
					if prop != "C19" {
						max = g
					}
				}
				if g := figures["maxDistance"]; !vClose(g, impl.GetMaxDistance()) {
					fail("C19", "the maximal distance figure is %v, want %v", g, impl.GetMaxDistance())
				}
			}
		})
	}
	for n := 0; n < vRounds(2000); n++ {
		if n%400 == 399 {
			one(4000)
		} else {
			one(4 + r.Intn(16))
		}
	}
}

func TestVerifC19(t *testing.T) { vStream(t, "C19") }
