//verif:pkg core
package core_test

import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

func TestVerifC02(t *testing.T) {
	one := func(size, degree int, slow bool) {
		var mu sync.Mutex
		cover := make([]int, size)
		calls := make([]int, degree)
		lo, hi := make([]int, degree), make([]int, degree)
		var running int32
		vCase("core.Par of size %d, degree %d", size, degree)
		vWithin(20*time.Second, "core.Par", func() {
			core.Par(func(start, end, rank int) {
				atomic.AddInt32(&running, 1)
				defer atomic.AddInt32(&running, -1)
				if slow {
					time.Sleep(time.Millisecond)
				} else {
					runtime.Gosched()
				}
				mu.Lock()
				defer mu.Unlock()
				if rank < 0 || rank >= degree {
					vFail("Par(size %d, degree %d): rank %d", size, degree, rank)
				}
				if start < 0 || end < start || end > size {
					vFail("Par(size %d, degree %d): rank %d gets range [%d,%d)", size, degree, rank, start, end)
				}
				calls[rank]++
				lo[rank], hi[rank] = start, end
				for i := start; i < end; i++ {
					cover[i]++
				}
			}, size, degree)
		})
		mu.Lock()
		defer mu.Unlock()
		if n := atomic.LoadInt32(&running); n != 0 {
			vFail("Par(size %d, degree %d) returns while %d calls are running", size, degree, n)
		}
		for r, n := range calls {
			if n != 1 {
				vFail("Par(size %d, degree %d): process called %d times for rank %d at return", size, degree, n, r)
			}
		}
		for i, n := range cover {
			if n != 1 {
				vFail("Par(size %d, degree %d): index %d covered %d times", size, degree, i, n)
			}
		}
		for r := 0; r+1 < degree; r++ {
			if lo[r+1] != hi[r] {
				vFail("Par(size %d, degree %d): rank %d ends at %d, rank %d starts at %d", size, degree, r, hi[r], r+1, lo[r+1])
			}
		}
		if lo[0] != 0 || hi[degree-1] != size {
			vFail("Par(size %d, degree %d): ranges go from %d to %d", size, degree, lo[0], hi[degree-1])
		}
	}
	for size := 0; size < 60; size++ {
		for degree := 1; degree < 40; degree++ {
			one(size, degree, false)
		}
	}
	for size := 0; size < 12; size++ {
		for degree := 1; degree < 8; degree++ {
			one(size, degree, true)
		}
	}
	r := vRand()
	for i := 0; i < vRounds(300); i++ {
		one(r.Intn(3000), 1+r.Intn(300), false)
	}
	for _, n := range []int{1 << 10, 1 << 16, 100003} {
		for _, d := range []int{1, 2, 3, 7, 64, 255, 256, 257, 1024} {
			one(n, d, false)
		}
	}
}
