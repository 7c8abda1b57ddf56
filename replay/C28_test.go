//verif:pkg mcmc
//verif:race
package mcmc_test

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"
)

// lateRec is a distribution that says which one it is and what it was given
type lateRec struct {
	id    int32
	ready int32
}

func (l *lateRec) Sample(mu core.Elemt, time int) core.Elemt {
	return fmt.Sprint(atomic.LoadInt32(&l.id), atomic.LoadInt32(&l.ready), mu, time)
}

func (l *lateRec) Pdf(x, mu core.Elemt, time int) float64 {
	return float64(atomic.LoadInt32(&l.id))*1e6 + float64(atomic.LoadInt32(&l.ready))*1e5 + float64(x.(int)*1000+mu.(int)*10+time)
}

func TestVerifC28(t *testing.T) {
	r := vRand()
	one := func(threads, calls int, slow bool, first int) {
		desc := func() string {
			return fmt.Sprintf("%d threads of %d calls each, slow builder: %v, first call: %d", threads, calls, slow, first)
		}
		vCase("%s", desc())
		vGuard(desc, func() {
			var builds int32
			var on atomic.Value
			d := mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
				l := &lateRec{id: atomic.AddInt32(&builds, 1)}
				on.Store(e)
				if slow {
					time.Sleep(2 * time.Millisecond)
				} else {
					runtime.Gosched()
				}
				atomic.StoreInt32(&l.ready, 1)
				return l
			})
			call := func(k int) {
				mu, tm := k%7, 1+k%5
				if k%2 == 0 {
					if got := d.Sample(mu, tm); got != fmt.Sprint(1, 1, mu, tm) {
						vFail("Sample(%d, %d) gives %q, not the sample of the one distribution built (1 1 %d %d): %s", mu, tm, got, mu, tm, desc())
					}
				} else {
					x := k % 11
					if got := d.Pdf(x, mu, tm); got != 1e6+1e5+float64(x*1000+mu*10+tm) {
						vFail("Pdf(%d, %d, %d) gives %v, not the density of the one distribution built: %s", x, mu, tm, got, desc())
					}
				}
			}
			if first >= 0 {
				call(first)
				if on.Load() != first%7 {
					vFail("built on %v, not on the element %d of the first call: %s", on.Load(), first%7, desc())
				}
			}
			vWithin(20*time.Second, desc(), func() {
				var wg sync.WaitGroup
				for i := 0; i < threads; i++ {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						for k := 0; k < calls; k++ {
							call(i*3 + k)
						}
					}(i)
				}
				wg.Wait()
			})
			if b := atomic.LoadInt32(&builds); b != 1 {
				vFail("the builder was called %d times: %s", b, desc())
			}
		})
	}
	for n := 0; n < vRounds(150); n++ {
		one(1+r.Intn(8), 1+r.Intn(6), n%3 == 0, r.Intn(40)-20)
	}
}
