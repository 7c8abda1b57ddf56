//verif:pkg core
//verif:race
package core_test

import (
	"errors"
	"sync"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

func vProbe(a *core.Algo, desc string) {
	vWithin(8*time.Second, desc+": then Status", func() { a.Status() })
	vWithin(8*time.Second, desc+": then Centroids", func() { a.Centroids() })
	vWithin(8*time.Second, desc+": then RuntimeFigures", func() { a.RuntimeFigures() })
	vWithin(8*time.Second, desc+": then Conf, Space, Impl", func() { a.Conf(); a.Space(); a.Impl() })
	vWithin(8*time.Second, desc+": then Push", func() { a.Push(1.0) })
	vWithin(8*time.Second, desc+": then Pause", func() { a.Pause() })
	vWithin(8*time.Second, desc+": then Wait", func() { a.Wait(nil, 10*time.Millisecond) })
	vWithin(8*time.Second, desc+": then Stop", func() { a.Stop() })
	time.Sleep(200 * time.Millisecond)
	vWithin(8*time.Second, desc+": then Init", func() { a.Init() })
	vWithin(8*time.Second, desc+": then Play", func() { a.Play() })
	vWithin(8*time.Second, desc+": then Play, Play", func() { a.Play() })
	vWithin(8*time.Second, desc+": then Play, Init", func() { a.Init() })
	vWithin(8*time.Second, desc+": then Play, Stop", func() { a.Stop() })
	time.Sleep(200 * time.Millisecond)
	vWithin(8*time.Second, desc+": then everything, Centroids", func() { a.Centroids() })
	vWithin(8*time.Second, desc+": then everything, Push", func() { a.Push(1.0) })
	vWithin(8*time.Second, desc+": then everything, Status", func() { a.Status() })
}

type vSpace22 struct{}

func (vSpace22) Dist(a, b core.Elemt) float64                               { return 0 }
func (vSpace22) Combine(a core.Elemt, w int, b core.Elemt, v int) core.Elemt { return a }
func (vSpace22) Copy(a core.Elemt) core.Elemt                               { return a }
func (vSpace22) Dim(c []core.Elemt) int                                     { return 1 }

func TestVerifC22(t *testing.T) {
	boom := errors.New("boom")
	kinds := []string{"new", "init", "play", "init error", "init panic", "iterate error", "iterate panic", "push error", "paused", "finished", "budget", "batch", "batch init error", "timeout", "copy", "callbacks"}
	var wg sync.WaitGroup
	for _, kind := range kinds {
		kind := kind
		wg.Add(1)
		go func() {
			defer wg.Done()
			im := &vImpl{}
			c := &core.CtrlConf{}
			n := 0
			switch kind {
			case "init error", "batch init error":
				im.init = func(core.OCModel) (core.Clust, error) {
					if n++; n <= 2 {
						return nil, boom
					}
					return core.Clust{0.0}, nil
				}
			case "init panic":
				im.init = func(core.OCModel) (core.Clust, error) {
					if n++; n <= 2 {
						panic("boom")
					}
					return core.Clust{0.0}, nil
				}
			case "iterate error":
				im.iterate = func(core.OCModel) (core.Clust, core.RuntimeFigures, error) { return nil, nil, boom }
			case "iterate panic":
				im.iterate = func(core.OCModel) (core.Clust, core.RuntimeFigures, error) { panic("boom") }
			case "push error":
				im.push = func(core.Elemt, core.OCModel) error { return boom }
			case "budget", "batch":
				c.Iter = 3
			case "timeout":
				c.Timeout = 50 * time.Millisecond
			case "callbacks":
				im.push = func(e core.Elemt, m core.OCModel) error {
					m.Status()
					m.Centroids()
					m.RuntimeFigures()
					m.Conf()
					return nil
				}
				c.Finishing = vFin(func(m core.OCModel) bool {
					m.Status()
					m.Centroids()
					m.RuntimeFigures()
					return false
				})
				c.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
					oc.Centroids()
					oc.RuntimeFigures()
				}
			}
			a := core.NewAlgo(c, im, nil)
			desc := "history " + kind
			do := func(what string, f func()) { vWithin(8*time.Second, desc+": "+what, f) }
			switch kind {
			case "init":
				do("Init", func() { a.Init() })
			case "init error", "init panic":
				do("Init", func() { a.Init() })
				do("Play after a failed Init", func() { a.Play() })
			case "play", "iterate error", "iterate panic", "timeout", "budget", "callbacks":
				do("Play", func() { a.Play() })
				time.Sleep(250 * time.Millisecond)
			case "push error":
				do("Push", func() { a.Push(1.0) })
			case "paused":
				do("Play", func() { a.Play() })
				do("Pause", func() { a.Pause() })
				do("Init", func() { a.Init() })
				do("Pause", func() { a.Pause() })
				do("Play", func() { a.Play() })
				do("Pause", func() { a.Pause() })
			case "finished":
				do("Play", func() { a.Play() })
				do("Stop", func() { a.Stop() })
			case "batch", "batch init error":
				do("Batch", func() { a.Batch() })
			case "copy":
				do("Copy", func() {
					b, err := a.Copy(&core.CtrlConf{}, nil)
					if err == nil {
						b.Init()
						b.Stop()
					}
				})
			}
			vProbe(a, desc)
		}()
	}
	wg.Wait()
	// a notifier that uses the algorithm once its run is over
	for _, fail := range []bool{false, true} {
		im := &vImpl{}
		if fail {
			im.iterate = func(core.OCModel) (core.Clust, core.RuntimeFigures, error) { return nil, nil, boom }
		}
		told := make(chan bool, 16)
		c := &core.CtrlConf{Iter: 3, StatusNotifier: func(oc core.OnlineClust, s core.OCStatus) {
			if s.Value == core.Finished {
				oc.Push(1.0)
				oc.Centroids()
				oc.Predict(1.0)
				oc.Status()
				told <- true
			}
		}}
		a := core.NewAlgo(c, im, vSpace22{})
		vWithin(8*time.Second, "batch with a notifier that pushes when it is told finished", func() { a.Batch() })
		vWithin(8*time.Second, "a push made by the notifier told finished", func() { <-told })
		vWithin(8*time.Second, "after it, Push", func() { a.Push(1.0) })
	}
	// one commander, several pushers and readers
	for round := 0; round < vRounds(2); round++ {
		a := core.NewAlgo(&core.CtrlConf{}, &vImpl{}, nil)
		stop := make(chan struct{})
		var ws sync.WaitGroup
		for i := 0; i < 6; i++ {
			i := i
			ws.Add(1)
			go func() {
				defer ws.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					switch i {
					case 0, 1:
						a.Push(1.0)
					case 2:
						a.RuntimeFigures()
					case 3:
						a.Centroids()
					case 4:
						a.Status()
					case 5:
						a.Conf()
						a.Wait(nil, time.Millisecond)
					}
					time.Sleep(50 * time.Microsecond)
				}
			}()
		}
		vWithin(30*time.Second, "one goroutine plays, pauses and stops, six push and read", func() {
			for k := 0; k < 8; k++ {
				a.Play()
				time.Sleep(3 * time.Millisecond)
				a.Pause()
				a.Play()
				time.Sleep(3 * time.Millisecond)
				if k%3 == 2 {
					a.Stop()
					time.Sleep(200 * time.Millisecond)
				}
			}
			close(stop)
			ws.Wait()
		})
	}
}

type vFin func(m core.OCModel) bool

func (f vFin) IsFinished(m core.OCModel) bool { return f(m) }

// vImpl is an implementation whose answers are given by functions.
type vImpl struct {
	init    func(m core.OCModel) (core.Clust, error)
	iterate func(m core.OCModel) (core.Clust, core.RuntimeFigures, error)
	push    func(e core.Elemt, m core.OCModel) error
}

func (i *vImpl) Init(m core.OCModel) (core.Clust, error) {
	if i.init == nil {
		return core.Clust{0.0}, nil
	}
	return i.init(m)
}
func (i *vImpl) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	if i.iterate == nil {
		time.Sleep(time.Millisecond)
		return core.Clust{1.0}, nil, nil
	}
	return i.iterate(m)
}
func (i *vImpl) Push(e core.Elemt, m core.OCModel) error {
	if i.push == nil {
		return nil
	}
	return i.push(e, m)
}
func (i *vImpl) Copy(m core.OCModel) (core.Impl, error) { return i, nil }

// vUntil waits for a condition, at most d.
func vUntil(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
