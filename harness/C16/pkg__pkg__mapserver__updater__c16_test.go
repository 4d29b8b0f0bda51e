package updater

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func TestVerifC16Manager(t *testing.T) {
	vlib.Run(t, "the update manager's shard functions: worker counts 1..300, random and extreme IDs; the shard is always a valid worker and a function of the ID", func(h *vlib.H) {
		for w := 1; w <= 300; w++ {
			m, err := NewManager(w, nil, 10, nil)
			if err != nil {
				if w > 64 {
					return
				}
				h.Fail("manager", "%d workers: %v", w, err)
				return
			}
			for k := 0; k < 60; k++ {
				id := common.SHA256Output(h.ID())
				if k < 3 {
					id = common.SHA256Output(bytes.Repeat([]byte{[]byte{0, 0xff, 0x80}[k]}, 32))
				}
				h.Case(fmt.Sprint(w, id[0]))
				if !h.Try("manager-panic", func() string { return fmt.Sprintf("%d workers, id %x", w, id) }, func() {
					c, d := m.ShardFuncCert(&id), m.ShardFuncDomain(&id)
					if c >= uint(w) || d >= uint(w) || c != m.ShardFuncCert(&id) || d != m.ShardFuncDomain(&id) {
						h.Fail("manager-shard", "%d workers, id %x: shards %d %d", w, id, c, d)
					}
				}) {
					return
				}
			}
			if w > 20 {
				w += 12
			}
		}
	})
}
