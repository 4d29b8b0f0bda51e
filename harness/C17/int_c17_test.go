package c17

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func TestVerifC17Intervals(t *testing.T) {
	vlib.Run(t, "sequences of 1..12 inclusive ranges (small, touching, nested, extreme bounds) added to one of two directories, queried after each addition; all sequences of 3 ranges over 0..3 exhaustively; oracle: canonical form from scratch over unbounded integers", func(h *vlib.H) {
		r := h.Rng
		run := func(seq []iv, dirs []int) {
			c := journal.CompletedIndices{}
			ref := map[string][]iv{}
			var flat []iv
			list := []iv{}
			trace := ""
			for k, x := range seq {
				d := []string{"a", "b"}[dirs[k]]
				trace += fmt.Sprintf("%s:%d-%d ", d, x.Start, x.End)
				if !h.Try("panic", func() string { return trace }, func() {
					journal.ZZAdd(c, d, x)
					ref[d] = append(ref[d], x)
					flat = append(flat, x)
					list = journal.ZZAppend(list, x)
					if fmt.Sprint(list) != fmt.Sprint(canon(flat)) {
						h.Fail("append", "after %s: list %v want %v", trace, list, canon(flat))
					}
					for _, dd := range []string{"a", "b"} {
						w := canon(ref[dd])
						if fmt.Sprint([]iv(c[dd])) != fmt.Sprint(w) && len(w)+len(c[dd]) > 0 {
							h.Fail("add", "after %s: directory %s has %v want %v", trace, dd, c[dd], w)
						}
						qs := []iv{x, genIv(r), genIv(r), {Start: x.Start, End: x.Start}, {Start: x.End, End: x.End}}
						if x.Start > 0 {
							qs = append(qs, iv{Start: x.Start - 1, End: x.End})
						}
						if x.End+1 > 0 {
							qs = append(qs, iv{Start: x.Start, End: x.End + 1})
						}
						for _, q := range qs {
							if got := journal.ZZContains(c, dd, q); got != covered(w, q) {
								h.Fail("contains", "after %s: completed(%s, %v) = %v", trace, dd, q, got)
							}
						}
					}
				}) {
					return
				}
			}
			h.Case(trace)
			h.Try("roundtrip-panic", func() string { return trace }, func() {
				b, err := json.Marshal(c)
				var back journal.CompletedIndices
				if err == nil {
					err = json.Unmarshal(b, &back)
				}
				if err == nil {
					back, err = journal.ZZNormalize(back)
				}
				if err != nil || fmt.Sprint(map[string][]iv(back)) != fmt.Sprint(map[string][]iv(c)) {
					h.Fail("roundtrip", "record %v is read back as %v (%v)", c, back, err)
				}
				// a record with the ranges in any order normalizes to the canonical list
				n, err := journal.ZZNormalize(journal.CompletedIndices{"a": append([]iv{}, flat...)})
				if err != nil || fmt.Sprint(n["a"]) != fmt.Sprint(canon(flat)) {
					h.Fail("normalize", "record %v normalizes to %v (%v) want %v", flat, n["a"], err, canon(flat))
				}
			})
		}
		var all []iv
		for a := uint(0); a < 4; a++ {
			for b := a; b < 4; b++ {
				all = append(all, iv{Start: a, End: b})
			}
		}
		for i := range all {
			for j := range all {
				for k := range all {
					run([]iv{all[i], all[j], all[k]}, []int{0, (i + j) % 2, 0})
				}
			}
		}
		for k := 0; k < h.N(6000, 200000) && h.More(); k++ {
			var seq []iv
			var dirs []int
			for n := 1 + r.Intn(12); n > 0; n-- {
				x := genIv(r)
				if len(seq) > 0 && r.Intn(2) == 0 { // touching an earlier one
					y := seq[r.Intn(len(seq))]
					if r.Intn(2) == 0 && y.End+1 > 0 {
						x = iv{Start: y.End + 1, End: y.End + 1}
						if x.End+2 > x.End {
							x.End += uint(r.Intn(3))
						}
					} else if y.Start > 0 {
						x = iv{Start: y.Start - 1, End: y.Start - 1}
					}
				}
				seq = append(seq, x)
				dirs = append(dirs, r.Intn(2))
			}
			run(seq, dirs)
		}
		for _, s := range []string{"", "-", "1", "1-", "-1", "2-1", "1-2-3", " 1-2", "1-2 ", "a-b", "1-18446744073709551616", "1-2\n", "+1-2", "0x1-2"} {
			if x, err := journal.ZZParse(s); err == nil {
				h.Fail("parse", "interval text %q accepted as %v", s, x)
			}
		}
		for k := 0; k < 300; k++ {
			x := genIv(r)
			if y, err := journal.ZZParse(x.String()); err != nil || y != x {
				h.Fail("parse", "interval %v read back as %v (%v)", x, y, err)
			}
		}
	})
}
