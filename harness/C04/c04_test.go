package c04

import (
	"bytes"
	"context"
	"math/rand"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
	"github.com/netsec-ethz/fpki/zzverif/vtrie"
)

func TestVerifC04Lookup(t *testing.T) {
	vlib.Run(t, "histories of 1..8 updates, commits, cache resets, reloads and abandoned uncommitted changes; after each step every key ever used is looked up; after each commit also in a fresh tree over the same store; while changes are pending, the committed content stays readable from its root", func(h *vlib.H) {
		n := h.N(2500, 40000)
		ctx := context.Background()
		for c := 0; c < n && h.More(); c++ {
			r := rand.New(rand.NewSource(h.Rng.Int63()))
			hs := vtrie.NewHist(r)
			check := func(key string, t *trie.Trie, kv map[string]string) bool {
				for k := range hs.Ever {
					v, err := t.Get(ctx, []byte(k))
					if err != nil || string(v) != kv[k] {
						h.Fail(key, "%s: key %x: got %x (%v) want %x", hs.Desc, k, v, err, kv[k])
						return false
					}
				}
				for i := 0; i < 2; i++ {
					k := vtrie.Key(r, r.Intn(5))
					v, err := t.Get(ctx, []byte(k))
					if err != nil || string(v) != kv[k] {
						h.Fail(key, "%s: key %x: got %x (%v) want %x", hs.Desc, k, v, err, kv[k])
						return false
					}
				}
				return true
			}
			fresh := func(key string) bool {
				t, err := trie.NewTrie(hs.ComRoot, common.SHA256Hash, hs.Store)
				if err != nil {
					h.Fail(key, "%v", err)
					return false
				}
				return check(key, t, hs.Committed)
			}
			if !h.Try("panic", func() string { return hs.Desc }, func() {
				for step := 1 + r.Intn(8); step > 0; step-- {
					if _, err := hs.Update(1 + r.Intn(6)); err != nil {
						h.Fail("update", "%s: %v", hs.Desc, err)
						return
					}
					if !check("get", hs.T, hs.KV) {
						return
					}
					if !fresh("pending") {
						return
					}
					switch r.Intn(4) {
					case 0, 1:
						if err := hs.Commit(); err != nil {
							h.Fail("commit", "%s: %v", hs.Desc, err)
							return
						}
						if !fresh("committed") {
							return
						}
						if r.Intn(2) == 0 {
							hs.Reset()
						}
						if r.Intn(2) == 0 {
							hs.Reload()
							if !bytes.Equal(hs.T.Root, hs.ComRoot) {
								h.Fail("reload-root", "%s", hs.Desc)
							}
						}
						if !check("after-commit", hs.T, hs.KV) {
							return
						}
					case 2:
						if r.Intn(4) == 0 {
							hs.Reload() // abandon
							if !check("abandoned", hs.T, hs.KV) {
								return
							}
						}
					}
				}
				h.Case(hs.Desc)
			}) {
				return
			}
		}
	})
}
