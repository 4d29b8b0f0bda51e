package c26

import (
	"fmt"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// A bundle handed out must keep its content until as many rotations as there are other buffers.
func TestVerifC26Worker(t *testing.T) {
	vlib.Run(t, "the update workers' ring of buffers: random fill and rotate sequences; each handed-out bundle is compared with its content at hand-out during the following rotations but one full cycle, a buffer taken into use is empty", func(h *vlib.H) {
		n := h.N(3000, 40000)
		r := h.Rng
		type bundle struct {
			s    []*int
			want []*int
			age  int
		}
		for k := 0; k < n && h.More(); k++ {
			rc := updater.ZZNewRing(r.Intn(5))
			var flight []bundle
			trace := ""
			for ops := 1 + r.Intn(60); ops > 0; ops-- {
				op := r.Intn(4)
				trace += fmt.Sprint(op, " ")
				if !h.Try("worker-panic", func() string { return trace }, func() {
					if op > 0 {
						v := ops
						before := rc.CurrLength()
						rc.Add(&v)
						if rc.CurrLength() != before+1 || rc.Current()[before] != &v {
							h.Fail("add", "%s: element not added", trace)
						}
						for i := range flight {
							check(h, flight[i].s, flight[i].want, trace)
						}
						return
					}
					cur := rc.Current()
					flight = append(flight, bundle{cur, append([]*int{}, cur...), 0})
					rc.Rotate()
					if rc.CurrLength() != 0 || len(rc.Current()) != 0 {
						h.Fail("dirty", "%s: the buffer taken into use is not empty", trace)
					}
					keep := flight[:0]
					for _, b := range flight {
						b.age++
						if b.age < updater.ZZRingN() { // comes back after all the others
							keep = append(keep, b)
						}
					}
					flight = keep
					for i := range flight {
						check(h, flight[i].s, flight[i].want, trace)
					}
				}) {
					return
				}
			}
			h.Case(trace)
		}
	})
}

func check(h *vlib.H, s, want []*int, trace string) {
	for i := range want {
		if s[i] != want[i] {
			h.Fail("inflight", "%s: a handed-out bundle changed at position %d", trace, i)
			return
		}
	}
}
