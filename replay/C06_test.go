//verif:pkg core
package core_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
)

// the buffer against a list of every element it was given
func TestVerifC06(t *testing.T) {
	r := vRand()
	one := func(n, size, ops int) {
		data := make([]core.Elemt, n, n+r.Intn(4))
		next := 0
		elt := func() core.Elemt { next++; return next }
		for i := range data {
			data[i] = elt()
		}
		spare := data[:cap(data)]
		for i := n; i < len(spare); i++ {
			spare[i] = -1
		}
		all := append([]core.Elemt{}, data...)
		log := ""
		desc := func() string { return fmt.Sprintf("%d initial elements, size %d, operations:%s", n, size, log) }
		if len(log) > 2000 {
			log = log[:2000]
		}
		var staged []core.Elemt
		chk := func(b core.Buffer) {
			got := b.Data()
			want := all
			if size > 0 && len(all) > size {
				want = all[len(all)-size:]
			}
			if len(got) != len(want) {
				vFail("%d elements in the buffer, want %d: %s", len(got), len(want), desc())
			}
			if size <= 0 {
				for i := range want {
					if got[i] != want[i] {
						vFail("element %d is %v, want %v: %s", i, got[i], want[i], desc())
					}
				}
			} else {
				seen := map[core.Elemt]bool{}
				for _, e := range got {
					seen[e] = true
				}
				for i := range want {
					if !seen[want[i]] {
						vFail("element %v is missing from %v: %s", want[i], got, desc())
					}
				}
			}
			for i := 0; i < n; i++ {
				if data[i] != i+1 {
					vFail("the caller's data was overwritten: %v: %s", data, desc())
				}
			}
			for i := n; i < len(spare); i++ {
				if spare[i] != -1 {
					vFail("the caller's storage was written: %v: %s", spare, desc())
				}
			}
		}
		vWithin(20*time.Second, "buffer", func() {
			vGuard(desc, func() {
				b := core.NewDataBuffer(data, size)
				chk(b)
				// the buffer keeps its elements when the slice it was created from changes
				src := append([]core.Elemt{}, data...)
				b2 := core.NewDataBuffer(src, size)
				before := fmt.Sprint(b2.Data())
				for i := range src {
					src[i] = -7
				}
				if after := fmt.Sprint(b2.Data()); after != before {
					vFail("the buffer held %v, after a change of the slice it was created from %v: %s", before, after, desc())
				}
				for k := 0; k < ops; k++ {
					switch c := r.Intn(10); {
					case c < 4:
						e := elt()
						log += " push"
						if err := b.Push(e, false); err != nil {
							vFail("Push fails: %v: %s", err, desc())
						}
						all = append(all, e)
					case c < 8 && len(staged) < 2000:
						e := elt()
						log += " stage"
						if err := b.Push(e, true); err != nil {
							vFail("Push fails: %v: %s", err, desc())
						}
						staged = append(staged, e)
					default:
						log += " apply"
						if err := b.Apply(); err != nil {
							vFail("Apply fails: %v: %s", err, desc())
						}
						all, staged = append(all, staged...), nil
					}
					chk(b)
				}
				if b.Apply(); true {
					all, staged = append(all, staged...), nil
					chk(b)
				}
			})
		})
	}
	for n := 0; n < 7; n++ {
		for size := -1; size < 9; size++ {
			for i := 0; i < vRounds(8); i++ {
				one(n, size, r.Intn(40))
			}
		}
	}
	for i := 0; i < vRounds(4); i++ {
		one(r.Intn(50), r.Intn(60), 300)
	}
	// many staged elements, as many as the pipe is announced to take
	for _, size := range []int{0, 10, 700, 5000} {
		desc := func() string { return fmt.Sprintf("2000 elements staged then applied, size %d", size) }
		vWithin(20*time.Second, desc(), func() {
			vGuard(desc, func() {
				b := core.NewDataBuffer([]core.Elemt{-1}, size)
				for i := 0; i < 2000; i++ {
					b.Push(i, true)
				}
				if len(b.Data()) != 1 {
					vFail("staged elements are visible: %s", desc())
				}
				b.Apply()
				want := 2001
				if size > 0 && size < want {
					want = size
				}
				seen := map[core.Elemt]bool{}
				for _, e := range b.Data() {
					seen[e] = true
				}
				for i := 0; i < 2000 && i < want; i++ {
					if !seen[1999-i] {
						vFail("element %d is missing: %s", 1999-i, desc())
					}
				}
				if len(b.Data()) != want {
					vFail("%d elements, want %d: %s", len(b.Data()), want, desc())
				}
			})
		})
	}
}
