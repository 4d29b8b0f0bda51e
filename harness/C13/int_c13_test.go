package c13

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func TestVerifC13Input(t *testing.T) {
	vlib.Run(t, "random lists of domain entries turned into tree input by the real function", func(h *vlib.H) {
		for n := 0; n < h.N(2000, 200000) && h.More(); n++ {
			r := h.Rng
			var e []db.DomainEntryRecord
			seen := map[common.SHA256Output]int{}
			for k := r.Intn(40); k > 0; k-- {
				var id common.SHA256Output
				switch r.Intn(3) {
				case 0:
					id[31] = byte(r.Intn(256))
				case 1:
					id[0] = byte(r.Intn(256))
				default:
					copy(id[:], h.Bytes(32))
				}
				if _, ok := seen[id]; ok {
					continue
				}
				seen[id] = len(e)
				e = append(e, db.DomainEntryRecord{DomainID: id, Payload: h.Bytes([]int{0, 1, 32, 33, 64}[r.Intn(5)])})
			}
			in := fmt.Sprintf("%x", e)
			h.Case(in)
			var ks, vs [][]byte
			var err error
			if !h.Try("input", func() string { return in }, func() { ks, vs, err = updater.VerifDomainEntriesToSMTInput(e) }) {
				continue
			}
			if err != nil || len(ks) != len(e) || len(vs) != len(e) {
				h.Fail("input", "%s: %d keys, %d values, error %v for %d entries", in, len(ks), len(vs), err, len(e))
				continue
			}
			kk, kv := ks, vs
			h.Keep(in, func() string { return fmt.Sprintf("%x %x", kk, kv) })
			if fmt.Sprintf("%x", e) != in {
				h.Fail("input-mutated", "%s: the entries were modified", in)
			}
			for i := range ks {
				if i > 0 && bytes.Compare(ks[i-1], ks[i]) >= 0 {
					h.Fail("order", "%s: keys not ascending at %d", in, i)
				}
				j, ok := seen[common.SHA256Output(ks[i])]
				if !ok {
					h.Fail("key", "%s: key %x is of no entry", in, ks[i])
					continue
				}
				want := []byte{0}
				if len(e[j].Payload) > 0 {
					s := sha256.Sum256(e[j].Payload)
					want = s[:]
				}
				if !bytes.Equal(want, vs[i]) {
					h.Fail("pair", "%s: the value beside key %x is not that of its entry", in, ks[i])
				}
			}
		}
	})
}
