//verif:pkg core
package core_test

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

func TestVerifC26(t *testing.T) {
	boom := errors.New("boom")
	var wg sync.WaitGroup
	for at := 1; at <= 5; at++ {
		for kind := 0; kind < 4; kind++ {
			at, kind := at, kind
			wg.Add(1)
			go func() {
				defer wg.Done()
				desc := fmt.Sprintf("iteration %d fails (kind %d)", at, kind)
				n := 0
				im := &vImpl{iterate: func(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
					n++
					if n > at {
						vFail("%s: iteration %d is asked", desc, n)
					}
					if n < at {
						return core.Clust{float64(n)}, nil, nil
					}
					switch kind {
					case 0:
						return core.Clust{99.0}, nil, boom
					case 1:
						return nil, nil, boom
					case 2:
						panic(boom)
					}
					panic("boom")
				}}
				c := &core.CtrlConf{}
				if kind == 1 {
					c.Iter = at
				}
				a := core.NewAlgo(c, im, nil)
				vWithin(10*time.Second, desc, func() {
					a.Play()
					if !vUntil(8*time.Second, func() bool { return a.Status().Value == core.Finished }) {
						vFail("%s: status %v", desc, a.Status())
					}
					time.Sleep(200 * time.Millisecond)
					s := a.Status()
					if s.Value != core.Finished || s.Error == nil || s.Error.Error() != "boom" || kind < 2 && s.Error != boom {
						vFail("%s: status %v", desc, s)
					}
					want := 0.0
					if at > 1 {
						want = float64(at - 1)
					}
					if cc := a.Centroids(); len(cc) != 1 || cc[0] != want {
						vFail("%s: centroids %v, expected %v", desc, cc, want)
					}
				})
			}()
		}
	}
	for kind := 0; kind < 3; kind++ {
		for via := 0; via < 2; via++ {
			kind, via := kind, via
			wg.Add(1)
			go func() {
				defer wg.Done()
				desc := fmt.Sprintf("initialization fails (kind %d), through %s", kind, []string{"Init", "Play"}[via])
				im := &vImpl{init: func(core.OCModel) (core.Clust, error) {
					switch kind {
					case 0:
						return core.Clust{5.0}, boom
					case 1:
						return nil, boom
					}
					panic("boom")
				}, iterate: func(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
					vFail("%s: an iteration is asked", desc)
					return nil, nil, nil
				}}
				a := core.NewAlgo(&core.CtrlConf{}, im, nil)
				vWithin(10*time.Second, desc, func() {
					var err error
					if via == 0 {
						err = a.Init()
					} else {
						err = a.Play()
					}
					s := a.Status()
					if err == nil || err.Error() != "boom" || s.Value != core.Finished || s.Error != err || len(a.Centroids()) != 0 {
						vFail("%s: returned %v, status %v, centroids %v", desc, err, s, a.Centroids())
					}
				})
			}()
		}
	}
	wg.Wait()
}

// vImpl is an implementation whose answers are given by functions.
type vImpl struct {
	init    func(m core.OCModel) (core.Clust, error)
	iterate func(m core.OCModel) (core.Clust, core.RuntimeFigures, error)
	push    func(e core.Elemt, m core.OCModel) error
}

func (i *vImpl) Init(m core.OCModel) (core.Clust, error) {
	if i.init == nil {
		return core.Clust{0.0}, nil
	}
	return i.init(m)
}
func (i *vImpl) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	if i.iterate == nil {
		time.Sleep(time.Millisecond)
		return core.Clust{1.0}, nil, nil
	}
	return i.iterate(m)
}
func (i *vImpl) Push(e core.Elemt, m core.OCModel) error {
	if i.push == nil {
		return nil
	}
	return i.push(e, m)
}
func (i *vImpl) Copy(m core.OCModel) (core.Impl, error) { return i, nil }

// vUntil waits for a condition, at most d.
func vUntil(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
