package c26

import (
	"fmt"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/util/noallocs"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func TestVerifC26Ring(t *testing.T) {
	vlib.Run(t, "rings of size 1..9, random sequences of Current/Next/Rotate; oracle: position counter modulo the size, elements identified by address", func(h *vlib.H) {
		n := h.N(4000, 60000)
		for k := 0; k < n && h.More(); k++ {
			size := 1 + h.Rng.Intn(9)
			next := 0
			rc := noallocs.NewRingCache(size, noallocs.WithPerNewElement(func(p **int) { v := next; next++; *p = &v }))
			if next != size {
				h.Fail("init", "ring of size %d initialized %d elements", size, next)
				return
			}
			pos := 0
			trace := fmt.Sprintf("size %d:", size)
			for ops := 1 + h.Rng.Intn(40); ops > 0; ops-- {
				op := h.Rng.Intn(3)
				trace += fmt.Sprint(" ", op)
				if !h.Try("panic", func() string { return trace }, func() {
					switch op {
					case 0:
						if g := *rc.Current(); g != pos%size {
							h.Fail("current", "%s: Current() is element %d want %d", trace, g, pos%size)
						}
					case 1:
						rc.Next()
						pos++
					case 2:
						if g := *rc.Rotate(); g != pos%size {
							h.Fail("rotate", "%s: Rotate() is element %d want %d", trace, g, pos%size)
						}
						pos++
					}
					if g := *rc.Current(); g != pos%size {
						h.Fail("current-after", "%s: Current() is element %d want %d", trace, g, pos%size)
					}
				}) {
					return
				}
			}
			h.Case(trace)
		}
	})
}
