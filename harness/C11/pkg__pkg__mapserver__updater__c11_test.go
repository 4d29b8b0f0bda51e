package updater

import (
	"context"
	"fmt"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/cache"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// TestVerifC11Extractor runs the stage that turns certificates into domain records.
func TestVerifC11Extractor(t *testing.T) {
	vlib.Run(t, "random sequences of certificates through the real domain extractor stage: every name of each certificate gives one record with the ID of the name and of that certificate on the channel of its shard", func(h *vlib.H) {
		for n := 0; n < h.N(300, 20000) && h.More(); n++ {
			r := h.Rng
			workers := 1 << uint(r.Intn(4))
			m := &Manager{ShardFuncDomain: func(id *common.SHA256Output) uint {
				return mysql.PartitionByIdMSB(id, mysql.NumBitsForPartitionCount(workers))
			}}
			w := newDomainExtractor(0, m, workers, cache.NewPresenceCache(10))
			w.Stage.Ctx = context.Background()
			repeat := n == 0
			used := 0
			for k := 0; k < 1+r.Intn(6); k++ {
				var c Certificate
				c.CertID[0], c.CertID[1] = byte(k), byte(n)
				for j := r.Intn(15); j > 0; j-- {
					used++
					c.Names = append(c.Names, fmt.Sprintf("name%d.com", used))
				}
				if repeat {
					c.Names = []string{"shared.com"}
				}
				in := fmt.Sprintf("certificate %d of sequence %d with names %v, %d workers", k, n, c.Names, workers)
				h.Case(in)
				var out []DirtyDomain
				var chs []int
				var err error
				if !h.Try("extractor", func() string { return in }, func() { out, chs, err = w.ProcessFunc(c) }) {
					continue
				}
				if err != nil || len(out) != len(chs) {
					h.Fail("extractor", "%s: error %v, %d records, %d channels", in, err, len(out), len(chs))
					continue
				}
				if len(out) != len(c.Names) {
					key := "extractor"
					if repeat && k > 0 {
						key = "domain-cache-drops-association"
					}
					h.Fail(key, "%s: %d records for %d names", in, len(out), len(c.Names))
					continue
				}
				for i, d := range out {
					if d.Name != c.Names[i] || d.CertID != c.CertID || d.DomainID != common.SHA256Hash32Bytes([]byte(d.Name)) || chs[i] != int(m.ShardFuncDomain(&d.DomainID)) {
						h.Fail("extractor", "%s: record %d is %v on channel %d", in, i, d, chs[i])
					}
				}
			}
		}
	})
}
