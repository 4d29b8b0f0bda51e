package c29

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"testing"

	"github.com/google/trillian"
	"github.com/google/trillian/types"
	"github.com/netsec-ethz/fpki/pkg/logverifier"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// Reference RFC 6962 tree, written from the RFC.
func lh(b []byte) []byte { s := sha256.Sum256(append([]byte{0}, b...)); return s[:] }
func nh(a, b []byte) []byte {
	s := sha256.Sum256(append(append([]byte{1}, a...), b...))
	return s[:]
}
func split(n int) int {
	k := 1
	for k*2 < n {
		k *= 2
	}
	return k
}
func root(l [][]byte) []byte {
	switch len(l) {
	case 0:
		s := sha256.Sum256(nil)
		return s[:]
	case 1:
		return l[0]
	}
	k := split(len(l))
	return nh(root(l[:k]), root(l[k:]))
}
func path(m int, l [][]byte) [][]byte {
	if len(l) <= 1 {
		return nil
	}
	k := split(len(l))
	if m < k {
		return append(path(m, l[:k]), root(l[k:]))
	}
	return append(path(m-k, l[k:]), root(l[:k]))
}
func cons(m int, l [][]byte, b bool) [][]byte {
	n := len(l)
	if m == n {
		if b {
			return nil
		}
		return [][]byte{root(l)}
	}
	k := split(n)
	if m <= k {
		return append(cons(m, l[:k], b), root(l[k:]))
	}
	return append(cons(m-k, l[k:], false), root(l[:k]))
}

// reference inclusion: root computed from an audit path, nil if the shape is wrong
func rootFrom(idx, size int64, leaf []byte, p [][]byte) []byte {
	if idx < 0 || idx >= size {
		return nil
	}
	var rec func(m, n int64, q [][]byte) []byte
	rec = func(m, n int64, q [][]byte) []byte {
		if n == 1 {
			if len(q) != 0 {
				return nil
			}
			return leaf
		}
		if len(q) == 0 {
			return nil
		}
		k := int64(split(int(n)))
		s := q[len(q)-1]
		if m < k {
			if x := rec(m, k, q[:len(q)-1]); x != nil {
				return nh(x, s)
			}
			return nil
		}
		if x := rec(m-k, n-k, q[:len(q)-1]); x != nil {
			return nh(s, x)
		}
		return nil
	}
	return rec(idx, size, p)
}

func cp(p [][]byte) [][]byte {
	r := [][]byte{}
	for _, x := range p {
		r = append(r, append([]byte{}, x...))
	}
	return r
}

func TestVerifC29(t *testing.T) {
	vlib.Run(t, "logs of 1..24 leaves (repeated contents), honest and mangled inclusion and consistency proofs, several proofs per query in any order; oracle: RFC 6962 reference; non-trivial: at least two leaves", func(h *vlib.H) {
		n := h.N(8000, 100000)
		r := h.Rng
		v := logverifier.NewLogVerifier(nil)
		for k := 0; k < n && h.More(); k++ {
			sz := 1 + r.Intn(24)
			var leaves [][]byte
			for i := 0; i < sz; i++ {
				c := []byte{byte(r.Intn(6))}
				w := lh(c)
				if i == 0 && !bytes.Equal(v.HashLeaf(c), w) {
					h.Fail("leafhash", "HashLeaf(%x) wrong", c)
				}
				leaves = append(leaves, w)
			}
			tr := &types.LogRootV1{TreeSize: uint64(sz), RootHash: root(leaves)}
			mangle := func(p [][]byte) [][]byte {
				p = cp(p)
				switch r.Intn(5) {
				case 0:
					if len(p) > 0 {
						p[r.Intn(len(p))][r.Intn(32)] ^= 1 << r.Intn(8)
					}
				case 1:
					p = append(p, h.Bytes(32))
				case 2:
					if len(p) > 0 {
						p = p[:len(p)-1]
					}
				case 3:
					if len(p) > 1 {
						p[0], p[1] = p[1], p[0]
					}
				}
				return p
			}
			m := r.Intn(sz)
			leaf := leaves[m]
			if r.Intn(6) == 0 {
				leaf = lh([]byte("absent"))
			}
			var proofs []*trillian.Proof
			accept, malformed := false, false // first decisive proof
			desc := fmt.Sprintf("size %d leaf %d:", sz, m)
			for q := r.Intn(4); q > 0; q-- {
				i := m
				if r.Intn(3) == 0 {
					i = r.Intn(sz)
				}
				p := path(i, leaves)
				if r.Intn(3) == 0 {
					p = mangle(p)
				}
				li := int64(i)
				if r.Intn(12) == 0 {
					li = int64(r.Intn(sz+3)) - 1
				}
				proofs = append(proofs, &trillian.Proof{LeafIndex: li, Hashes: p})
				rt := rootFrom(li, int64(sz), leaf, p)
				desc += fmt.Sprintf(" (%d,%d hashes)", li, len(p))
				if !accept && !malformed {
					if rt == nil {
						malformed = true
					} else if bytes.Equal(rt, tr.RootHash) {
						accept = true
					}
				}
			}
			anyOK := false
			for _, p := range proofs {
				if rt := rootFrom(p.LeafIndex, int64(sz), leaf, p.Hashes); rt != nil && bytes.Equal(rt, tr.RootHash) {
					anyOK = true
				}
			}
			key := ""
			if sz > 1 {
				key = desc
			}
			h.Case(key)
			var incl bool
			if !h.Try("inclusion-panic", func() string { return desc }, func() {
				err := v.VerifyInclusionByHash(tr, leaf, proofs)
				incl = err == nil
				if err == nil && !anyOK {
					h.Fail("inclusion-accepts", "%s accepted, no proof reconstructs the root", desc)
				}
				if err != nil && accept {
					h.Fail("inclusion-rejects", "%s rejected: %v", desc, err)
				}
			}) {
				return
			}
			// consistency
			nsz := sz + r.Intn(10)
			nl := append([][]byte{}, leaves...)
			for len(nl) < nsz {
				nl = append(nl, lh([]byte{byte(r.Intn(6))}))
			}
			if r.Intn(4) == 0 {
				nl[r.Intn(sz)] = lh([]byte("changed"))
			}
			nr := &types.LogRootV1{TreeSize: uint64(nsz), RootHash: root(nl)}
			var cproof [][]byte
			if nsz > sz {
				cproof = cons(sz, nl, true)
			}
			consistent := bytes.Equal(root(nl[:sz]), tr.RootHash)
			honest := true
			if r.Intn(3) == 0 {
				b := cproof
				cproof = mangle(cproof)
				honest = fmt.Sprintf("%x", b) == fmt.Sprintf("%x", cproof)
			}
			old := tr
			switch r.Intn(12) {
			case 0:
				old = nil
			case 1:
				old = &types.LogRootV1{TreeSize: 0, RootHash: root(nil)}
			}
			if r.Intn(12) == 0 {
				nr = nil
			}
			d2 := fmt.Sprintf("old %v new %v consistent %v honest %v", old, nr, consistent, honest)
			h.Case(d2)
			h.Try("root-panic", func() string { return d2 }, func() {
				got, err := v.VerifyRoot(old, nr, cproof)
				want := old != nil && nr != nil && (old.TreeSize == 0 || consistent && honest)
				if (err == nil) != want {
					h.Fail("root", "VerifyRoot(%s) = %v, accept expected %v", d2, err, want)
				}
				if err == nil && got != nr || err != nil && got != nil {
					h.Fail("root-result", "VerifyRoot(%s) returned root %v with error %v", d2, got, err)
				}
			})
			h.Try("prev-panic", func() string { return desc + d2 }, func() {
				err := v.VerifyInclusionWithPrevLogRoot(old, nr, cproof, leaf, proofs)
				var want bool
				if old != nil && nr != nil {
					if old.TreeSize == 0 {
						want = false
					} else {
						want = incl && consistent && honest
					}
				}
				if (err == nil) != want {
					h.Fail("prev", "VerifyInclusionWithPrevLogRoot(%s %s) = %v, accept expected %v", desc, d2, err, want)
				}
			})
		}
	})
}
