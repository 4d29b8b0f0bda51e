package c16

import (
	"fmt"
	"math/big"
	"math/bits"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func ceilLog2(n uint64) uint {
	if n <= 1 {
		return 0
	}
	return uint(bits.Len64(n - 1))
}

func TestVerifC16Partition(t *testing.T) {
	vlib.Run(t, "an identifier and a bit count 0..8 (all first/last bytes exhaustively, random other bytes); non-trivial: bit count > 0", func(h *vlib.H) {
		n := h.N(3, 40)
		for rep := 0; rep < n; rep++ {
			for b := 0; b < 256; b++ {
				for nb := 0; nb <= 8; nb++ {
					id := common.SHA256Output(h.ID())
					id[0] = byte(b)
					in := id
					h.Case(fmt.Sprintf("msb %x/%d", id, nb))
					h.Try("msb-panic", func() string { return fmt.Sprintf("PartitionByIdMSB(%x,%d)", id, nb) }, func() {
						got := mysql.PartitionByIdMSB(&id, nb)
						x := new(big.Int).Rsh(new(big.Int).SetBytes(in[:]), uint(256-nb))
						if got != uint(x.Uint64()) {
							h.Fail("msb-value", "PartitionByIdMSB(%x,%d)=%d want the leading %d bits = %s", in, nb, got, nb, x)
						}
						if id != in {
							h.Fail("msb-frame", "PartitionByIdMSB(%x,%d) modified the identifier", in, nb)
						}
					})
					id[31] = byte(b)
					in = id
					h.Try("lsb-panic", func() string { return fmt.Sprintf("PartitionByIdLSB(%x,%d)", id, nb) }, func() {
						if got := mysql.PartitionByIdLSB(&id, nb); got >= 1<<nb {
							h.Fail("lsb-range", "PartitionByIdLSB(%x,%d)=%d not below 2^%d", in, nb, got, nb)
						}
						if id != in {
							h.Fail("lsb-frame", "PartitionByIdLSB(%x,%d) modified the identifier", in, nb)
						}
					})
				}
			}
		}
	})
}

func TestVerifC16Log(t *testing.T) {
	vlib.Run(t, "shard counts: all of 0..70000, all 2^k and neighbours, random; oracle: bit length of n-1", func(h *vlib.H) {
		check := func(n uint64) {
			h.Case(fmt.Sprintf("log2 %d", n))
			h.Try("log2-panic", func() string { return fmt.Sprintf("Log2(%d)", n) }, func() {
				if got := util.Log2(uint(n)); got != ceilLog2(n) {
					h.Fail("log2", "Log2(%d)=%d want %d", n, got, ceilLog2(n))
				}
				if n < 1<<63 {
					if got := mysql.NumBitsForPartitionCount(int(n)); got != int(ceilLog2(n)) {
						h.Fail("numbits", "NumBitsForPartitionCount(%d)=%d want %d", n, got, ceilLog2(n))
					}
				}
			})
		}
		for n := uint64(0); n < 70000; n++ {
			if n < 3000 || n%7 == 0 || n&(n-1) == 0 || n > 65500 {
				check(n)
			}
		}
		for k := 0; k < 64; k++ {
			for d := -3; d <= 3; d++ {
				check(uint64(1)<<k + uint64(d))
			}
		}
		for i := 0; i < 1000; i++ {
			check(h.Rng.Uint64() >> uint(h.Rng.Intn(64)))
		}
	})
}
