//verif:pkg core
package core_test

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

type vFin func(m core.OCModel) bool

func (f vFin) IsFinished(m core.OCModel) bool { return f(m) }

func TestVerifC25(t *testing.T) {
	r := vRand()
	var wg sync.WaitGroup
	for round := 0; round < vRounds(24); round++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			vHistory25(rr)
		}()
	}
	wg.Wait()
}

func vHistory25(r *rand.Rand) {
	c := &core.CtrlConf{}
	if r.Intn(3) > 0 {
		c.Iter = r.Intn(6)
	}
	pushed := r.Intn(3)
	if r.Intn(3) == 0 {
		c.IterPerData = 1 + r.Intn(3)
	}
	userAt := -1
	var mu sync.Mutex
	asked, published := 0, 0
	finished := false
	if r.Intn(2) == 0 || c.Iter == 0 && c.IterPerData == 0 {
		userAt = r.Intn(5)
		c.Finishing = vFin(func(m core.OCModel) bool {
			mu.Lock()
			defer mu.Unlock()
			finished = published >= userAt
			return finished
		})
	}
	desc := fmt.Sprintf("iterations %d, per data %d, %d pushed, user condition after %d", c.Iter, c.IterPerData, pushed, userAt)
	var last core.Clust = core.Clust{-1.0}
	budget := func() bool {
		return (c.Iter > 0 || c.IterPerData > 0) && published >= c.Iter+pushed*c.IterPerData
	}
	im := &vImpl{init: func(core.OCModel) (core.Clust, error) { return core.Clust{-1.0}, nil }}
	im.iterate = func(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
		mu.Lock()
		defer mu.Unlock()
		asked++
		if s := m.Status(); s.Value != core.Running || s.Error != nil {
			vFail("%s: iteration %d asked with status %v", desc, asked, s)
		}
		if budget() {
			vFail("%s: iteration asked after %d were published", desc, published)
		}
		if finished {
			vFail("%s: iteration asked after the condition was met", desc)
		}
		if cc := m.Centroids(); len(cc) != 1 || cc[0] != last[0] {
			vFail("%s: iteration %d sees the centroids %v, expected %v", desc, asked, cc, last)
		}
		if r.Intn(4) == 0 {
			return nil, nil, nil
		}
		published++
		last = core.Clust{float64(published)}
		return last, nil, nil
	}
	a := core.NewAlgo(c, im, nil)
	for k := 0; k < pushed; k++ {
		a.Push(1.0)
	}
	vWithin(10*time.Second, desc, func() {
		if err := a.Play(); err != nil {
			vFail("%s: Play returned %v", desc, err)
		}
		if !vUntil(8*time.Second, func() bool { return a.Status().Value == core.Ready }) {
			vFail("%s: not ready after the end, but %v", desc, a.Status())
		}
	})
	mu.Lock()
	defer mu.Unlock()
	if !budget() && !(userAt >= 0 && published >= userAt) {
		vFail("%s: ready after %d iterations", desc, published)
	}
	if cc := a.Centroids(); cc[0] != last[0] {
		vFail("%s: centroids %v at the end, expected %v", desc, cc, last)
	}
	// paused: nothing is asked
	var n int64
	b := core.NewAlgo(&core.CtrlConf{}, &vImpl{iterate: func(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
		atomic.AddInt64(&n, 1)
		time.Sleep(time.Millisecond)
		return core.Clust{1.0}, nil, nil
	}}, nil)
	b.Play()
	time.Sleep(10 * time.Millisecond)
	b.Pause()
	n0 := atomic.LoadInt64(&n)
	time.Sleep(30 * time.Millisecond)
	if n1 := atomic.LoadInt64(&n); n1 != n0 {
		vFail("paused: %d iterations were asked", n1-n0)
	}
	b.Play()
	if !vUntil(5*time.Second, func() bool { return atomic.LoadInt64(&n) > n0 }) {
		vFail("played after a pause: no iteration is asked")
	}
	b.Stop()
	n2 := atomic.LoadInt64(&n)
	time.Sleep(30 * time.Millisecond)
	if n3 := atomic.LoadInt64(&n); n3 != n2 {
		vFail("stopped: %d iterations were asked", n3-n2)
	}
}

// vImpl is an implementation whose answers are given by functions.
type vImpl struct {
	init    func(m core.OCModel) (core.Clust, error)
	iterate func(m core.OCModel) (core.Clust, core.RuntimeFigures, error)
	push    func(e core.Elemt, m core.OCModel) error
}

func (i *vImpl) Init(m core.OCModel) (core.Clust, error) {
	if i.init == nil {
		return core.Clust{0.0}, nil
	}
	return i.init(m)
}
func (i *vImpl) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	if i.iterate == nil {
		time.Sleep(time.Millisecond)
		return core.Clust{1.0}, nil, nil
	}
	return i.iterate(m)
}
func (i *vImpl) Push(e core.Elemt, m core.OCModel) error {
	if i.push == nil {
		return nil
	}
	return i.push(e, m)
}
func (i *vImpl) Copy(m core.OCModel) (core.Impl, error) { return i, nil }

// vUntil waits for a condition, at most d.
func vUntil(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
