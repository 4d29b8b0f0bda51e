package trie

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func TestVerifC05Batch(t *testing.T) {
	vlib.Run(t, "random batches of 31 positions with 33-byte entries in random (also empty, full, single) patterns, and shortcut batches; parsing the serialization gives the same batch; the input batch stays as it was", func(h *vlib.H) {
		n := h.N(30000, 400000)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			b := make([][]byte, 31)
			short := r.Intn(3) == 0
			b[0] = []byte{0}
			if short {
				b[0] = []byte{1}
				b[1], b[2] = h.Bytes(33), h.Bytes(33)
			} else {
				p := r.Intn(5)
				for i := 1; i < 31; i++ {
					if p == 4 || r.Intn(4) < p {
						b[i] = h.Bytes(33)
					} else if r.Intn(8) == 0 {
						b[i] = []byte{}
					}
				}
				if p == 0 {
					b[1+r.Intn(30)] = h.Bytes(33)
				}
			}
			before := fmt.Sprintf("%x", b)
			h.Case(before)
			var g [][]byte
			if !h.Try("panic", func() string { return before }, func() { g = parseBatch(serializeBatch(b)) }) {
				return
			}
			bad := len(g) != 31 || fmt.Sprintf("%x", b) != before
			for i := 0; !bad && i < 31; i++ {
				bad = !bytes.Equal(g[i], b[i])
			}
			if bad {
				h.Fail("roundtrip", "batch %s read back as %x", before, g)
			}
		}
	})
}
