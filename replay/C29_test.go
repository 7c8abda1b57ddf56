//verif:pkg core
package core_test

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

type vFin func(m core.OCModel) bool

func (f vFin) IsFinished(m core.OCModel) bool { return f(m) }

type vModel struct {
	core.OCModel
	st func() core.OCStatus
}

func (m vModel) Status() core.OCStatus               { return m.st() }
func (m vModel) RuntimeFigures() core.RuntimeFigures { return core.RuntimeFigures{} }

func TestVerifC29(t *testing.T) {
	boom := errors.New("boom")
	var wg sync.WaitGroup
	// the condition holds after d1, the limit is d2
	for _, d1 := range []time.Duration{0, 150, 450} {
		for _, d2 := range []time.Duration{-1000, 0, 250, 700} {
			for e := 0; e < 2; e++ {
				for def := 0; def < 5; def++ {
					d1, d2, e, def := d1*time.Millisecond, d2*time.Millisecond, e, def
					wg.Add(1)
					go func() {
						defer wg.Done()
						start := time.Now()
						on := func() bool { return time.Since(start) >= d1 }
						var err error
						if e == 1 {
							err = boom
						}
						var f core.Finishing
						m := vModel{st: func() core.OCStatus { return core.OCStatus{Value: core.Running, Error: err} }}
						if def == 0 {
							f = vFin(func(core.OCModel) bool { return on() })
						} else {
							m.st = func() core.OCStatus {
								if on() {
									if def == 4 {
										return core.OCStatus{Value: core.Running, Error: boom}
									}
									return core.OCStatus{Value: []core.ClustStatus{core.Ready, core.Idle, core.Finished}[def-1], Error: err}
								}
								return core.OCStatus{Value: core.Running}
							}
							if def == 4 {
								err = boom
							}
						}
						desc := fmt.Sprintf("the condition (%d) holds after %v, time limit %v, error %v", def, d1, d2, err)
						vWithin(5*time.Second, desc, func() {
							got := core.WaitTimeout(f, d2, m)
							el := time.Since(start)
							if d2 > 0 && d2 < d1-100*time.Millisecond {
								if got != core.ErrTimeout || el < d2 {
									vFail("%s: returned %v after %v", desc, got, el)
								}
							} else if d2 <= 0 || d2 > d1+150*time.Millisecond {
								if got != err || el < d1 {
									vFail("%s: returned %v after %v", desc, got, el)
								}
							}
						})
					}()
				}
			}
		}
	}
	// a condition that is met wins over a time limit that has passed
	for k := 0; k < 8; k++ {
		f := vFin(func(core.OCModel) bool { time.Sleep(2 * time.Millisecond); return true })
		for _, err := range []error{nil, boom} {
			err := err
			m := vModel{st: func() core.OCStatus { return core.OCStatus{Value: core.Running, Error: err} }}
			if got := core.WaitTimeout(f, time.Duration(1+k*10), m); got != err {
				vFail("the condition is met, time limit %d ns, status error %v: returned %v", 1+k*10, err, got)
			}
		}
	}
	// refused exactly when nothing could end the wait
	for mask := 0; mask < 64; mask++ {
		c := &core.CtrlConf{}
		var f core.Finishing
		var d time.Duration
		if mask&1 != 0 {
			f = vFin(func(core.OCModel) bool { return true })
		}
		if mask&2 != 0 {
			d = time.Second
		}
		if mask&4 != 0 {
			c.Finishing = vFin(func(core.OCModel) bool { return true })
		}
		if mask&8 != 0 {
			c.Timeout = time.Second
		}
		if mask&16 != 0 {
			c.Iter = 2
		}
		if mask&32 != 0 {
			c.IterPerData = 2
		}
		a := core.NewAlgo(c, &vImpl{}, nil)
		if a.CanNeverFinish(f, d) != (mask == 0) {
			vFail("CanNeverFinish(%v, %v) with %+v: %v", f, d, *c, mask != 0)
		}
		if a.CanNeverFinish(f, -d) != (mask&^2 == 0) {
			vFail("CanNeverFinish(%v, %v) with %+v: %v", f, -d, *c, mask&^2 != 0)
		}
	}
	// a run of the controller
	wg.Add(1)
	go func() {
		defer wg.Done()
		a := core.NewAlgo(&core.CtrlConf{}, &vImpl{}, nil)
		a.Play()
		vWithin(5*time.Second, "Wait without any limit", func() {
			if err := a.Wait(nil, 0); err != core.ErrNeverFinish {
				vFail("Wait(nil, 0) on a run without end returned %v", err)
			}
		})
		vWithin(5*time.Second, "Wait with a limit", func() {
			if err := a.Wait(nil, 150*time.Millisecond); err != core.ErrTimeout {
				vFail("Wait(nil, 150ms) on a run without end returned %v", err)
			}
		})
		if s := a.Status(); s.Value != core.Running {
			vFail("a wait that timed out left the status %v", s)
		}
		a.Pause()
		if err := a.Wait(nil, time.Second); err != core.ErrIdle {
			vFail("Wait on a paused run returned %v", err)
		}
		a.Stop()
		if err := a.Wait(nil, time.Second); err != nil {
			vFail("Wait on a finished algorithm returned %v", err)
		}
	}()
	// interruptions
	for k := 0; k < 3; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			var n int32
			start := time.Now()
			it := core.InterruptionTimeout(120*time.Millisecond, func(err error) error {
				atomic.AddInt32(&n, 1)
				if err != core.ErrTimeout || time.Since(start) < 120*time.Millisecond {
					vFail("interrupted after %v with %v, the limit is 120ms", time.Since(start), err)
				}
				return nil
			})
			if !it.Enabled() {
				vFail("a new interruption is not enabled")
			}
			if k > 0 {
				time.Sleep(time.Duration(k-1) * 50 * time.Millisecond)
				it.Disable()
				if it.Enabled() {
					vFail("a disabled interruption is enabled")
				}
			}
			time.Sleep(400 * time.Millisecond)
			got := atomic.LoadInt32(&n)
			if k == 0 && got != 1 || k > 0 && got != 0 {
				vFail("interruption disabled: %v; it interrupted %d times", k > 0, got)
			}
		}()
	}
	wg.Wait()
}

// vImpl is an implementation whose answers are given by functions.
type vImpl struct {
	init    func(m core.OCModel) (core.Clust, error)
	iterate func(m core.OCModel) (core.Clust, core.RuntimeFigures, error)
	push    func(e core.Elemt, m core.OCModel) error
}

func (i *vImpl) Init(m core.OCModel) (core.Clust, error) {
	if i.init == nil {
		return core.Clust{0.0}, nil
	}
	return i.init(m)
}
func (i *vImpl) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	if i.iterate == nil {
		time.Sleep(time.Millisecond)
		return core.Clust{1.0}, nil, nil
	}
	return i.iterate(m)
}
func (i *vImpl) Push(e core.Elemt, m core.OCModel) error {
	if i.push == nil {
		return nil
	}
	return i.push(e, m)
}
func (i *vImpl) Copy(m core.OCModel) (core.Impl, error) { return i, nil }

// vUntil waits for a condition, at most d.
func vUntil(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
