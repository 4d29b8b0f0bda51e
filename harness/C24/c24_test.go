package c24

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func ints(r *rand.Rand, n, dom int) []int {
	s := make([]int, n, n+r.Intn(3))
	for i := range s {
		s[i] = r.Intn(dom)
	}
	return s
}

func TestVerifC24Dedup(t *testing.T) {
	vlib.Run(t, "1..3 parallel slices of length 0..14, keys from a small domain (all key patterns up to length 6 over 3 keys exhaustively), key function on the first or the second slice; non-trivial: a repeated key", func(h *vlib.H) {
		one := func(keys []int, mode int, storage bool) {
			n := len(keys)
			key := append(make([]int, 0, n+h.Rng.Intn(3)), keys...)
			pos := make([]int, n)
			tag := make([]string, n)
			ptr := make([]*int, n)
			for i := range pos {
				pos[i], tag[i] = i, fmt.Sprint("t", i)
				v := keys[i]
				ptr[i] = &v
			}
			distinct := map[int]bool{}
			for _, k := range keys {
				distinct[k] = true
			}
			in := fmt.Sprintf("keys %v mode %d storage %v", keys, mode, storage)
			ck := ""
			if len(distinct) < n {
				ck = in
			}
			h.Case(ck)
			h.Try("dedup-panic", func() string { return in }, func() {
				st := map[int]struct{}{7: {}, 1: {}} // stale content must not matter
				ded := func(f func(int) int) {
					switch {
					case mode == 0 && storage:
						util.DeduplicateSliceWithStorage(st, f, util.Wrap(&key), util.Wrap(&pos), util.Wrap(&tag), util.Wrap(&ptr))
					case mode == 0:
						util.DeduplicateSlice(f, util.Wrap(&key), util.Wrap(&pos), util.Wrap(&tag), util.Wrap(&ptr))
					case storage:
						util.DeduplicateSliceWithStorage(st, f, util.Wrap(&pos), util.Wrap(&tag), util.Wrap(&ptr), util.Wrap(&key))
					default:
						util.DeduplicateSlice(f, util.Wrap(&pos), util.Wrap(&tag), util.Wrap(&ptr), util.Wrap(&key))
					}
				}
				if mode == 1 {
					ded(util.WithSlicePtr(ptr))
				} else {
					ded(util.WithSlice(key))
				}
				if len(key) != len(distinct) || len(pos) != len(distinct) || len(tag) != len(distinct) || len(ptr) != len(distinct) {
					h.Fail("dedup-len", "%s: lengths %d %d %d %d want %d (keys %v)", in, len(key), len(pos), len(tag), len(ptr), len(distinct), key)
					return
				}
				seen := map[int]bool{}
				for i := range key {
					if seen[key[i]] || !distinct[key[i]] {
						h.Fail("dedup-keys", "%s: result keys %v", in, key)
						return
					}
					seen[key[i]] = true
					if p := pos[i]; p < 0 || p >= n || keys[p] != key[i] || tag[i] != fmt.Sprint("t", p) || *ptr[i] != key[i] {
						h.Fail("dedup-pairing", "%s: element %d does not correspond (key %d from position %d, tag %s)", in, i, key[i], p, tag[i])
						return
					}
				}
			})
		}
		for n := 0; n <= 6; n++ {
			tot := 1
			for i := 0; i < n; i++ {
				tot *= 3
			}
			for c := 0; c < tot; c++ {
				k := make([]int, n)
				for i, x := 0, c; i < n; i, x = i+1, x/3 {
					k[i] = x % 3
				}
				one(k, c%2, c%3 == 0)
			}
		}
		for k := 0; k < h.N(5000, 200000) && h.More(); k++ {
			n := h.Rng.Intn(15)
			one(ints(h.Rng, n, 1+h.Rng.Intn(10)), h.Rng.Intn(2), h.Rng.Intn(2) == 0)
		}
	})
}

func TestVerifC24Remove(t *testing.T) {
	vlib.Run(t, "all subsets of positions of slices of length 0..9 (exhaustive, shuffled order), random larger ones; resizing and sorting of random slices", func(h *vlib.H) {
		r := h.Rng
		one := func(n int, idx []int) {
			s := make([]int, n, n+r.Intn(3))
			for i := range s {
				s[i] = 100 + i
			}
			r.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
			in := fmt.Sprintf("length %d, indices %v", n, idx)
			rm := map[int]bool{}
			for _, i := range idx {
				rm[100+i] = true
			}
			ck := ""
			if len(idx) > 0 && len(idx) < n {
				ck = in
			}
			h.Case(ck)
			h.Try("remove-panic", func() string { return in }, func() {
				arg := append([]int{}, idx...)
				util.RemoveElementsFromSlice(&s, arg)
				got := append([]int{}, s...)
				sort.Ints(got)
				w := []int{}
				for i := 0; i < n; i++ {
					if !rm[100+i] {
						w = append(w, 100+i)
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(w) {
					h.Fail("remove", "RemoveElementsFromSlice(%s) keeps %v want %v", in, got, w)
				}
				sort.Ints(arg)
				o := append([]int{}, idx...)
				sort.Ints(o)
				if fmt.Sprint(arg) != fmt.Sprint(o) {
					h.Fail("remove-indices", "RemoveElementsFromSlice(%s) changed the set of indices to %v", in, arg)
				}
			})
			if len(idx) > 0 {
				s2 := make([]int, n)
				for i := range s2 {
					s2[i] = 100 + i
				}
				h.Try("removeone-panic", func() string { return in }, func() {
					util.RemoveElemFromSlice(&s2, idx[0])
					sort.Ints(s2)
					w := []int{}
					for i := 0; i < n; i++ {
						if i != idx[0] {
							w = append(w, 100+i)
						}
					}
					if fmt.Sprint(s2) != fmt.Sprint(w) {
						h.Fail("removeone", "RemoveElemFromSlice(length %d, %d) keeps %v", n, idx[0], s2)
					}
				})
			}
		}
		for n := 0; n <= 9; n++ {
			for m := 0; m < 1<<n; m++ {
				var idx []int
				for i := 0; i < n; i++ {
					if m>>i&1 == 1 {
						idx = append(idx, i)
					}
				}
				one(n, idx)
			}
		}
		for k := 0; k < h.N(3000, 100000) && h.More(); k++ {
			n := 1 + r.Intn(60)
			one(n, r.Perm(n)[:r.Intn(n+1)])
		}
		for k := 0; k < h.N(3000, 100000) && h.More(); k++ {
			// ResizeSlice
			s := ints(r, r.Intn(8), 50)
			if r.Intn(3) == 0 { // non-zero spare capacity
				s = ints(r, len(s)+r.Intn(6), 50)[:len(s)]
			}
			o := append([]int{}, s...)
			l := r.Intn(14)
			in := fmt.Sprintf("%v to %d", o, l)
			h.Case(in)
			h.Try("resize-panic", func() string { return in }, func() {
				util.ResizeSlice(&s, l, 77)
				if len(s) != l {
					h.Fail("resize-len", "ResizeSlice(%s) has length %d", in, len(s))
					return
				}
				for i := range s {
					if i < len(o) && s[i] != o[i] || i >= len(o) && s[i] != 77 {
						h.Fail("resize", "ResizeSlice(%s) = %v", in, s)
						return
					}
				}
			})
			// Qsort
			a := ints(r, r.Intn(40), 1+r.Intn(60))
			b := append([]int{}, a...)
			sort.Ints(b)
			ain := fmt.Sprint(a)
			h.Try("qsort-panic", func() string { return ain }, func() {
				g := util.Qsort(a)
				if fmt.Sprint(g) != fmt.Sprint(b) {
					h.Fail("qsort", "Qsort(%s) = %v", ain, g)
				}
			})
		}
	})
}
