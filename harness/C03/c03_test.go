package c03

import (
	"bytes"
	"math/rand"
	"testing"

	"github.com/netsec-ethz/fpki/zzverif/vlib"
	"github.com/netsec-ethz/fpki/zzverif/vtrie"
)

func TestVerifC03Root(t *testing.T) {
	vlib.Run(t, "histories of 1..8 updates (1..6 keys each, now and then 40..300 so that workers run in parallel; inserts, overwrites, no-op writes, deletions also of everything) with commits, cache resets, reloads; the root after each update equals the model's root of the content; the caller's slices are compared bytewise incl. behind them", func(h *vlib.H) {
		n := h.N(3500, 60000)
		for c := 0; c < n && h.More(); c++ {
			r := rand.New(rand.NewSource(h.Rng.Int63()))
			hs := vtrie.NewHist(r)
			if !h.Try("panic", func() string { return hs.Desc }, func() {
				for step := 1 + r.Intn(8); step > 0; step-- {
					m := 1 + r.Intn(6)
					if r.Intn(40) == 0 {
						m = 40 + r.Intn(260)
						hs.Mode = 4
					}
					root, err := hs.Update(m)
					if err != nil {
						h.Fail("update", "%s: %v", hs.Desc, err)
						return
					}
					if hs.Alias != "" {
						h.Fail("aliasing", "%s: %s", hs.Desc, hs.Alias)
						return
					}
					want := hs.Want()
					if !bytes.Equal(root, want) || !bytes.Equal(hs.T.Root, want) {
						h.Fail("root", "%s: root %x (tree's %x), want %x", hs.Desc, root, hs.T.Root, want)
						return
					}
					if r.Intn(3) == 0 {
						if err := hs.Commit(); err != nil {
							h.Fail("commit", "%s: %v", hs.Desc, err)
							return
						}
						if r.Intn(2) == 0 {
							hs.Reset()
						}
						if r.Intn(2) == 0 {
							hs.Reload()
						}
					}
				}
				h.Case(hs.Desc)
			}) {
				return
			}
		}
	})
}
