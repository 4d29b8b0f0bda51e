package c02

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
	"github.com/netsec-ethz/fpki/zzverif/vtrie"
)

// heldProof is a proof handed out earlier: what comes later must not change it.
type heldProof struct {
	desc, key, was string
	ap, mp         [][]byte
	pk, pv, bm     []byte
}

func TestVerifC02Proofs(t *testing.T) {
	vlib.Run(t, "histories of 1..6 updates (1..6 keys each, now and then 60) with commits, cache resets and reloads; for every stored and some absent keys the proof is compared with the model's and verified, full and compressed; every proof is looked at again after later proofs and updates", func(h *vlib.H) {
		n := h.N(1200, 20000)
		ctx := context.Background()
		for c := 0; c < n && h.More(); c++ {
			r := rand.New(rand.NewSource(h.Rng.Int63()))
			hs := vtrie.NewHist(r)
			if !h.Try("panic", func() string { return hs.Desc }, func() {
				var held []heldProof
				unchanged := func(by string) bool {
					for _, p := range held {
						if now := fmt.Sprintf("%x", [][][]byte{p.ap, {p.pk, p.pv}, {p.bm}, p.mp}); now != p.was {
							h.Fail("changed", "%s: the proof generated for key %x was changed by %s: %s, it was %s", hs.Desc, p.key, by, now, p.was)
							return false
						}
					}
					return true
				}
				for step := 1 + r.Intn(6); step > 0; step-- {
					m := 1 + r.Intn(6)
					if r.Intn(25) == 0 {
						m = 60
					}
					if _, err := hs.Update(m); err != nil {
						h.Fail("update", "%s: %v", hs.Desc, err)
						return
					}
					if len(hs.KV) == 0 {
						// An empty tree has no root to continue from: start over.
						hs = vtrie.NewHist(r)
						continue
					}
					if r.Intn(2) == 0 {
						if err := hs.Commit(); err != nil {
							h.Fail("commit", "%s: %v", hs.Desc, err)
							return
						}
						if r.Intn(2) == 0 {
							hs.Reset()
						}
						if r.Intn(2) == 0 {
							hs.Reload()
						}
					}
					if !unchanged("a later update") {
						return
					}
					keys := vtrie.Keys(hs.KV)
					qs := append([]string{}, keys...)
					for k := range hs.Ever {
						qs = append(qs, k)
					}
					for i := 0; i < 4; i++ {
						qs = append(qs, vtrie.Key(r, r.Intn(5)))
					}
					root := append([]byte(nil), hs.T.Root...)
					for _, k := range qs {
						want, lk, lv, found := vtrie.Proof(hs.KV, keys, k, 0)
						ap, incl, pk, pv, err := hs.T.MerkleProof(ctx, []byte(k))
						if err != nil || incl != found {
							h.Fail("proof", "%s: key %x: included %v want %v, error %v", hs.Desc, k, incl, found, err)
							return
						}
						if fmt.Sprintf("%x", ap) != fmt.Sprintf("%x", want) {
							h.Fail("path", "%s: key %x: path %x want %x", hs.Desc, k, ap, want)
							return
						}
						if found && string(pv) != lv || !found && (string(pk) != lk || string(pv) != lv) {
							h.Fail("leaf", "%s: key %x: proof key %x value %x, want %x %x", hs.Desc, k, pk, pv, lk, lv)
							return
						}
						if found && !trie.VerifyInclusion(root, ap, []byte(k), pv) || !found && !trie.VerifyNonInclusion(root, ap, []byte(k), pv, pk) {
							h.Fail("verify", "%s: key %x: the generated proof does not verify", hs.Desc, k)
							return
						}
						bm, mp, ln, cincl, ck, cv, err := hs.T.MerkleProofCompressed(ctx, []byte(k))
						if err != nil || cincl != incl || !bytes.Equal(ck, pk) || !bytes.Equal(cv, pv) || ln != len(ap) {
							h.Fail("compressed", "%s: key %x: compressed proof %v %x %x length %d (%v), full %v %x %x length %d", hs.Desc, k, cincl, ck, cv, ln, err, incl, pk, pv, len(ap))
							return
						}
						held = append(held, heldProof{hs.Desc, k, fmt.Sprintf("%x", [][][]byte{ap, {pk, pv}, {bm}, mp}), ap, mp, pk, pv, bm})
						if len(held) > 200 {
							held = held[100:]
						}
						j := 0
						for i := range ap {
							def := bytes.Equal(ap[i], []byte{0})
							if (bm[i/8]&(1<<uint(7-i%8)) == 0) != def || !def && (j >= len(mp) || !bytes.Equal(mp[j], ap[i])) {
								h.Fail("compressed-path", "%s: key %x: bitmap %x path %x full %x", hs.Desc, k, bm, mp, ap)
								return
							}
							if !def {
								j++
							}
						}
						if found && !hs.T.VerifyInclusionC(bm, []byte(k), cv, mp, ln) || !found && !hs.T.VerifyNonInclusionC(mp, ln, bm, []byte(k), cv, ck) {
							h.Fail("verify-compressed", "%s: key %x: the compressed proof does not verify", hs.Desc, k)
							return
						}
					}
					if !unchanged("later proofs") {
						return
					}
				}
				h.Case(hs.Desc)
			}) {
				return
			}
		}
	})
}
