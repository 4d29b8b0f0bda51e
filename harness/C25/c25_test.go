package c25

import (
	"fmt"
	"sync"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/cache"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func TestVerifC25(t *testing.T) {
	vlib.Run(t, "sequences of 1..12 additions of 0..6 IDs from a pool of 12 (repetitions inside and across calls), after each one every ID of the pool is looked up and the size compared; argument buffers are overwritten after each call", func(h *vlib.H) {
		n := h.N(4000, 60000)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			pool := make([]common.SHA256Output, 12)
			for i := range pool {
				pool[i] = common.SHA256Output(h.ID())
			}
			c := cache.NewPresenceCache(r.Intn(5))
			ref := map[common.SHA256Output]bool{}
			trace := ""
			for ops := 1 + r.Intn(12); ops > 0; ops-- {
				var ids []*common.SHA256Output
				for m := r.Intn(7); m > 0; m-- {
					i := r.Intn(12)
					v := pool[i]
					ids = append(ids, &v)
					ref[v] = true
					trace += fmt.Sprint(i, ",")
				}
				trace += ";"
				ok := h.Try("panic", func() string { return trace }, func() {
					c.AddIDs(ids...)
					for _, p := range ids {
						*p = common.SHA256Output{}
					}
					for i := range pool {
						v := pool[i]
						if c.Contains(&v) != ref[v] {
							h.Fail("contains", "after additions %s: Contains(pool[%d]) = %v", trace, i, !ref[v])
						}
					}
					z := common.SHA256Output{}
					if c.Contains(&z) != ref[z] {
						h.Fail("contains", "after additions %s: wrong answer for the zero ID", trace)
					}
					if c.Size() != len(ref) {
						h.Fail("size", "after additions %s: Size() = %d want %d", trace, c.Size(), len(ref))
					}
				})
				if !ok {
					return
				}
			}
			h.Case(trace)
		}
	})
}

func TestVerifC25Concurrent(t *testing.T) {
	vlib.Run(t, "8 goroutines adding disjoint IDs and reading back their own IDs right after adding them (an added ID must be visible at once and stay visible)", func(h *vlib.H) {
		rounds := h.N(10, 200)
		for k := 0; k < rounds && h.More(); k++ {
			c := cache.NewPresenceCache(0)
			h.Case(fmt.Sprint("round ", k))
			h.Try("conc-panic", func() string { return "concurrent round" }, func() {
				var wg sync.WaitGroup
				var mu sync.Mutex
				for g := 0; g < 8; g++ {
					g := g
					wg.Add(1)
					go func() {
						defer wg.Done()
						var mine []*common.SHA256Output
						for i := 0; i < 60; i++ {
							id := common.SHA256Hash32Bytes([]byte(fmt.Sprint(k, g, i)))
							if c.Contains(&id) {
								mu.Lock()
								h.Fail("conc-invented", "ID reported present before it was added")
								mu.Unlock()
							}
							c.AddIDs(&id)
							mine = append(mine, &id)
							for _, m := range mine {
								if !c.Contains(m) {
									mu.Lock()
									h.Fail("conc-lost", "ID added by the same goroutine not found")
									mu.Unlock()
									return
								}
							}
						}
					}()
				}
				wg.Wait()
				if c.Size() != 480 {
					h.Fail("conc-size", "Size() = %d want 480", c.Size())
				}
			})
		}
	})
}
