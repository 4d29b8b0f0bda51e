package c17

import (
	"math"
	"math/big"
	"math/rand"
	"sort"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
)

type iv = journal.Interval

// canonical form computed from scratch with unbounded integers
func canon(l []iv) []iv {
	s := append([]iv{}, l...)
	sort.Slice(s, func(i, j int) bool { return s[i].Start < s[j].Start })
	out := []iv{}
	for _, x := range s {
		if n := len(out); n > 0 {
			e := new(big.Int).SetUint64(uint64(out[n-1].End))
			e.Add(e, big.NewInt(1))
			if new(big.Int).SetUint64(uint64(x.Start)).Cmp(e) <= 0 {
				if x.End > out[n-1].End {
					out[n-1].End = x.End
				}
				continue
			}
		}
		out = append(out, x)
	}
	return out
}

func covered(c []iv, x iv) bool {
	for _, y := range c {
		if y.Start <= x.Start && x.End <= y.End {
			return true
		}
	}
	return false
}

func num(r *rand.Rand) uint {
	switch r.Intn(8) {
	case 0:
		return math.MaxUint64 - uint(r.Intn(4))
	case 1:
		return 1<<63 - 2 + uint(r.Intn(4))
	case 2:
		return uint(r.Intn(3))
	case 3:
		return uint(r.Uint64())
	}
	return uint(r.Intn(25))
}

func genIv(r *rand.Rand) iv {
	a, b := num(r), num(r)
	if r.Intn(3) == 0 {
		b = a + uint(r.Intn(3))
	}
	if a > b {
		a, b = b, a
	}
	return iv{Start: a, End: b}
}
