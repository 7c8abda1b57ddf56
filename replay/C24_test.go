//verif:pkg core
package core_test

import (
	"errors"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

func TestVerifC24(t *testing.T) {
	boom := errors.New("boom")
	r := vRand()
	var wg sync.WaitGroup
	for round := 0; round < vRounds(16); round++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			vHistory24(rr, boom)
		}()
	}
	wg.Wait()
}

func vHistory24(r *rand.Rand, boom error) {
	reject := false
	var mu sync.Mutex
	plan := []int{}
	iters, pushes := 0, 0
	var last, lastHi int64
	im := &vImpl{}
	im.push = func(core.Elemt, core.OCModel) error {
		if reject {
			return boom
		}
		return nil
	}
	im.iterate = func(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
		mu.Lock()
		defer mu.Unlock()
		if len(plan) == 0 {
			time.Sleep(time.Millisecond)
			return nil, core.RuntimeFigures{core.Iterations: 99, core.PushedData: 99}, nil
		}
		p := plan[0]
		plan = plan[1:]
		switch p {
		case 0:
			iters++
			return core.Clust{1.0}, nil, nil
		case 1:
			iters++
			return core.Clust{1.0}, core.RuntimeFigures{core.Iterations: 77, core.PushedData: 77, core.LastDataTime: 1, "own": 2}, nil
		default:
			return nil, core.RuntimeFigures{core.Iterations: 55}, nil
		}
	}
	a := core.NewAlgo(&core.CtrlConf{}, im, nil)
	hist := "new"
	check := func() {
		f := a.RuntimeFigures()
		lt := int64(f[core.LastDataTime])
		if int(f[core.Iterations]) != iters || int(f[core.PushedData]) != pushes || lt < last || lt > lastHi {
			vFail("history %s: figures %v, expected %d iterations, %d pushes, last data in [%d,%d]", hist, f, iters, pushes, last, lastHi)
		}
	}
	state := 0 // 0 new, 1 ready, 2 running, 3 idle, 4 finished
	for k := 0; k < 12; k++ {
		op := r.Intn(7)
		hist += " " + []string{"Push", "Push", "Push(rejected)", "Play", "Pause", "Stop", "Init"}[op]
		vWithin(10*time.Second, "history "+hist, func() {
			switch op {
			case 0, 1:
				lo := time.Now().Unix()
				if err := a.Push(1.0); err != nil {
					vFail("history %s: Push returned %v", hist, err)
				}
				pushes++
				last, lastHi = lo, time.Now().Unix()
			case 2:
				reject = true
				if a.Push(1.0) == nil {
					vFail("history %s: the error of a rejected push is lost", hist)
				}
				reject = false
			case 3:
				if state != 2 {
					if state == 4 {
						iters, pushes, last, lastHi = 0, 0, 0, 0
					}
					mu.Lock()
					for n := r.Intn(6); n > 0; n-- {
						plan = append(plan, r.Intn(3))
					}
					mu.Unlock()
					a.Play()
					state = 2
					vUntil(5*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(plan) == 0 })
					time.Sleep(5 * time.Millisecond)
				}
			case 4:
				if state == 2 {
					a.Pause()
					state = 3
				}
			case 5:
				if state == 1 || state == 2 || state == 3 {
					a.Stop()
					time.Sleep(250 * time.Millisecond)
					state = 4
				}
			case 6:
				if state == 0 || state == 4 {
					if state == 4 {
						iters, pushes, last, lastHi = 0, 0, 0, 0
					}
					a.Init()
					state = 1
				}
			}
		})
		mu.Lock()
		check()
		mu.Unlock()
	}
	if state == 2 || state == 3 {
		a.Stop()
	}
	// an iteration that returns an error counts nothing
	n := 0
	b := core.NewAlgo(&core.CtrlConf{}, &vImpl{iterate: func(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
		if n++; n == 3 {
			return core.Clust{2.0}, core.RuntimeFigures{}, boom
		}
		return core.Clust{1.0}, nil, nil
	}}, nil)
	b.Play()
	vUntil(5*time.Second, func() bool { return b.Status().Value == core.Finished })
	time.Sleep(150 * time.Millisecond)
	if f := b.RuntimeFigures(); f[core.Iterations] != 2 {
		vFail("two iterations, then an error: figures %v", f)
	}
	// pushes of several goroutines, while it runs
	c := core.NewAlgo(&core.CtrlConf{}, &vImpl{}, nil)
	c.Play()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				c.Push(1.0)
			}
		}()
	}
	wg.Wait()
	if f := c.RuntimeFigures(); f[core.PushedData] != 200 {
		vFail("200 pushes of 4 goroutines: figures %v", f)
	}
	c.Stop()
}

// vImpl is an implementation whose answers are given by functions.
type vImpl struct {
	init    func(m core.OCModel) (core.Clust, error)
	iterate func(m core.OCModel) (core.Clust, core.RuntimeFigures, error)
	push    func(e core.Elemt, m core.OCModel) error
}

func (i *vImpl) Init(m core.OCModel) (core.Clust, error) {
	if i.init == nil {
		return core.Clust{0.0}, nil
	}
	return i.init(m)
}
func (i *vImpl) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	if i.iterate == nil {
		time.Sleep(time.Millisecond)
		return core.Clust{1.0}, nil, nil
	}
	return i.iterate(m)
}
func (i *vImpl) Push(e core.Elemt, m core.OCModel) error {
	if i.push == nil {
		return nil
	}
	return i.push(e, m)
}
func (i *vImpl) Copy(m core.OCModel) (core.Impl, error) { return i, nil }

// vUntil waits for a condition, at most d.
func vUntil(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
