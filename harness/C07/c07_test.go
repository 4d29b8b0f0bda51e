package c07

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sort"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

type id = common.SHA256Output

func clone(x []id) []id { return append([]id{}, x...) }

// expected canonical encoding, computed on hex strings
func canon(x []id) []byte {
	s := make([]string, len(x))
	for i, v := range x {
		s[i] = string(v[:])
	}
	sort.Strings(s)
	var b []byte
	for _, v := range s {
		b = append(b, v...)
	}
	return b
}

func show(x []id) string {
	s := ""
	for _, v := range x {
		s += fmt.Sprintf("%x,", v)
	}
	return s
}

func genIDs(h *vlib.H, n int) []id {
	l := make([]id, 0, n+h.Rng.Intn(4))
	for i := 0; i < n; i++ {
		var v id
		switch {
		case len(l) > 0 && h.Rng.Intn(4) == 0:
			v = l[h.Rng.Intn(len(l))] // repeated
		case len(l) > 0 && h.Rng.Intn(2) == 0:
			v = l[h.Rng.Intn(len(l))] // differs in one byte
			v[h.Rng.Intn(32)] = byte(h.Rng.Intn(256))
		case h.Rng.Intn(3) == 0: // only few distinct bytes
			for j := range v {
				v[j] = []byte{0, 1, 0x7f, 0x80, 0xff}[h.Rng.Intn(5)]
			}
		default:
			v = id(h.ID())
		}
		l = append(l, v)
	}
	return l
}

func TestVerifC07(t *testing.T) {
	vlib.Run(t, "a list of 0..40 IDs (rarely up to 600), random, repeated or differing in one byte, with spare capacity; oracle: independently sorted concatenation; non-trivial: at least two IDs", func(h *vlib.H) {
		n := h.N(6000, 60000)
		for k := 0; k < n && h.More(); k++ {
			ln := h.Rng.Intn(12)
			if k%20 == 0 {
				ln = h.Rng.Intn(41)
			}
			if k%1000 == 999 {
				ln = h.Rng.Intn(600)
			}
			ids := genIDs(h, ln)
			if ln == 0 && h.Rng.Intn(2) == 0 {
				ids = nil
			}
			in := clone(ids)
			spare := clone(ids[:cap(ids)])
			key := ""
			if ln > 1 {
				key = show(in)
			}
			h.Case(key)
			input := func() string { return show(in) }
			frame := func(what string) {
				for i := range ids[:cap(ids)] {
					if ids[:cap(ids)][i] != spare[i] {
						h.Fail("frame", "%s modified the caller's list (position %d) for %s", what, i, show(in))
					}
				}
			}
			want := canon(in)
			h.Try("glue-panic", input, func() {
				got := common.SortIDsAndGlue(ids)
				h.Keep("SortIDsAndGlue of "+input(), func() string { return fmt.Sprintf("%x", got) })
				if !bytes.Equal(got, want) {
					h.Fail("glue", "SortIDsAndGlue(%s) = %x want %x", show(in), got, want)
				}
				frame("SortIDsAndGlue")
			})
			h.Try("hash-panic", input, func() {
				got := common.SortIDsAndHash(ids)
				h.Keep("SortIDsAndHash of "+input(), func() string { return fmt.Sprintf("%x", got) })
				if ln == 0 {
					if got != nil {
						h.Fail("hash-empty", "SortIDsAndHash of no IDs = %x want nil", got)
					}
				} else if w := sha256.Sum256(want); !bytes.Equal(got, w[:]) {
					h.Fail("hash", "SortIDsAndHash(%s) = %x want %x", show(in), got, w)
				}
				frame("SortIDsAndHash")
			})
			h.Try("bytes-panic", input, func() {
				got := common.IDsToBytes(ids)
				h.Keep("IDsToBytes of "+input(), func() string { return fmt.Sprintf("%x", got) })
				var w []byte
				for _, v := range in {
					w = append(w, v[:]...)
				}
				if !bytes.Equal(got, w) {
					h.Fail("tobytes", "IDsToBytes(%s) = %x", show(in), got)
				}
				frame("IDsToBytes")
				wc := append([]byte{}, w...)
				back := common.BytesToIDs(w)
				if len(back) != len(in) {
					h.Fail("split", "BytesToIDs of %x returns %d IDs", w, len(back))
					return
				}
				for i := range in {
					if back[i] != in[i] {
						h.Fail("split", "BytesToIDs of %x returns %s", w, show(back))
					}
				}
				if !bytes.Equal(w, wc) {
					h.Fail("frame", "BytesToIDs modified its input %x", wc)
				}
				// the returned IDs do not alias the input
				for i := range w {
					w[i] ^= 0xff
				}
				for i := range in {
					if back[i] != in[i] {
						h.Fail("alias", "IDs returned by BytesToIDs change with the input buffer (%s)", show(in))
						break
					}
				}
			})
		}
	})
}
