//verif:pkg core
package core_test

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

func vSt(s core.OCStatus) string { return fmt.Sprintf("%v/%v", s.Value, s.Error) }

func TestVerifC23(t *testing.T) {
	boom := errors.New("boom")
	r := vRand()
	var wg sync.WaitGroup
	for round := 0; round < vRounds(24); round++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			vHistory23(rr, boom)
		}()
	}
	for _, how := range []string{"ready", "running", "paused", "stopped", "failed"} {
		how := how
		wg.Add(1)
		go func() {
			defer wg.Done()
			vInterrupted23(how, boom)
		}()
	}
	wg.Wait()
}

// the interruption time limit passes in each status
func vInterrupted23(how string, boom error) {
	var mu sync.Mutex
	var notified []string
	c := &core.CtrlConf{Timeout: 600 * time.Millisecond, StatusNotifier: func(oc core.OnlineClust, s core.OCStatus) {
		mu.Lock()
		notified = append(notified, vSt(s))
		mu.Unlock()
	}}
	im := &vImpl{}
	if how == "ready" {
		c.Iter = 2
	}
	if how == "failed" {
		im.iterate = func(core.OCModel) (core.Clust, core.RuntimeFigures, error) { return nil, nil, boom }
	}
	a := core.NewAlgo(c, im, nil)
	desc := "history Play, then " + how + " when the interruption time limit of 600ms passes"
	ok := core.OCStatus{Value: core.Finished}
	var want []string
	for _, v := range []core.ClustStatus{core.Initializing, core.Ready, core.Running} {
		want = append(want, vSt(core.OCStatus{Value: v}))
	}
	vWithin(10*time.Second, desc, func() {
		if err := a.Play(); err != nil {
			vFail("%s: Play fails: %v", desc, err)
		}
		ok.Error = core.ErrTimeout
		switch how {
		case "ready":
			want = append(want, vSt(core.OCStatus{Value: core.Ready}))
		case "paused":
			a.Pause()
			want = append(want, vSt(core.OCStatus{Value: core.Idle}))
		case "stopped":
			a.Stop()
			ok.Error = nil
		case "failed":
			ok.Error = boom
		}
		want = append(want, vSt(ok))
	})
	time.Sleep(1200 * time.Millisecond)
	if s := a.Status(); vSt(s) != vSt(ok) {
		vFail("%s: status %s, expected %s", desc, vSt(s), vSt(ok))
	}
	mu.Lock()
	defer mu.Unlock()
	if fmt.Sprint(notified) != fmt.Sprint(want) {
		vFail("%s: notified %v, expected %v", desc, notified, want)
	}
}

func vHistory23(r *rand.Rand, boom error) {
	var mu sync.Mutex
	var notified []string
	var expected []string
	fail := 0
	im := &vImpl{init: func(core.OCModel) (core.Clust, error) {
		switch fail {
		case 1:
			return nil, boom
		case 2:
			panic(boom)
		}
		return core.Clust{0.0}, nil
	}}
	c := &core.CtrlConf{StatusNotifier: func(oc core.OnlineClust, s core.OCStatus) {
		mu.Lock()
		notified = append(notified, vSt(s))
		mu.Unlock()
	}}
	a := core.NewAlgo(c, im, nil)
	var st core.OCStatus
	hist := "new"
	set := func(s core.ClustStatus, err error) {
		st = core.OCStatus{Value: s, Error: err}
		expected = append(expected, vSt(st))
	}
	check := func(what string, err, want error) {
		if err != want && (err == nil || want == nil || err.Error() != want.Error()) {
			vFail("history %s: %s returned %v, expected %v", hist, what, err, want)
		}
		if got := a.Status(); vSt(got) != vSt(st) {
			vFail("history %s: status %s, expected %s", hist, vSt(got), vSt(st))
		}
	}
	initialize := func() (err error) {
		set(core.Initializing, nil)
		if fail != 0 {
			set(core.Finished, boom)
			return boom
		}
		set(core.Ready, nil)
		return nil
	}
	over := func() bool { return st.Value == core.Created || st.Value == core.Finished }
	for k := 0; k < 14; k++ {
		fail = 0
		if r.Intn(4) == 0 {
			fail = 1 + r.Intn(2)
		}
		op := r.Intn(6)
		name := []string{"Init", "Play", "Pause", "Stop", "Wait", "WaitTimeout"}[op]
		hist += " " + name
		if fail != 0 {
			hist += fmt.Sprintf("(init fails %d)", fail)
		}
		var err, want error
		vWithin(10*time.Second, "history "+hist, func() {
			switch op {
			case 0:
				err = a.Init()
			case 1:
				err = a.Play()
			case 2:
				err = a.Pause()
			case 3:
				err = a.Stop()
			case 4:
				err = a.Wait(nil, 0)
			case 5:
				err = a.Wait(nil, 5*time.Millisecond)
			}
		})
		switch op {
		case 0:
			if over() {
				want = initialize()
			} else {
				want = core.ErrAlreadyCreated
			}
		case 1:
			if st.Value == core.Running {
				want = core.ErrRunning
			} else {
				if over() {
					want = initialize()
				}
				if want == nil {
					set(core.Running, nil)
				}
			}
		case 2:
			if st.Value == core.Running {
				set(core.Idle, nil)
			} else {
				want = core.ErrNotRunning
			}
		case 3:
			if over() {
				want = core.ErrNotAlive
			} else {
				set(core.Finished, nil)
			}
		case 4, 5:
			switch st.Value {
			case core.Running:
				want = core.ErrNeverFinish
				if op == 5 {
					want = core.ErrTimeout
				}
			case core.Idle:
				want = core.ErrIdle
			case core.Created:
				want = core.ErrNotRunning
			}
		}
		if op == 3 && want == nil {
			time.Sleep(250 * time.Millisecond)
		}
		check(name, err, want)
	}
	vUntil(2*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(notified) >= len(expected) })
	time.Sleep(20 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if fmt.Sprint(notified) != fmt.Sprint(expected) {
		vFail("history %s: notified %v, expected %v", hist, notified, expected)
	}
	if !over() {
		a.Stop()
	}
}

// vImpl is an implementation whose answers are given by functions.
type vImpl struct {
	init    func(m core.OCModel) (core.Clust, error)
	iterate func(m core.OCModel) (core.Clust, core.RuntimeFigures, error)
	push    func(e core.Elemt, m core.OCModel) error
}

func (i *vImpl) Init(m core.OCModel) (core.Clust, error) {
	if i.init == nil {
		return core.Clust{0.0}, nil
	}
	return i.init(m)
}
func (i *vImpl) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	if i.iterate == nil {
		time.Sleep(time.Millisecond)
		return core.Clust{1.0}, nil, nil
	}
	return i.iterate(m)
}
func (i *vImpl) Push(e core.Elemt, m core.OCModel) error {
	if i.push == nil {
		return nil
	}
	return i.push(e, m)
}
func (i *vImpl) Copy(m core.OCModel) (core.Impl, error) { return i, nil }

// vUntil waits for a condition, at most d.
func vUntil(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
