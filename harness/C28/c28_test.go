package c28

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

func TestVerifC28(t *testing.T) {
	vlib.Run(t, "lists of 0..8 absent, plain, wrapped and already combined errors (nested), with repeated messages; oracle: flattened list with the first error of each message; non-trivial: at least two present errors", func(h *vlib.H) {
		n := h.N(20000, 300000)
		r := h.Rng
		// Earlier results, used as arguments again, and the members they have to keep.
		type result struct {
			desc    string
			err     error
			members []error
		}
		var pool []result
		for k := 0; k < n && h.More(); k++ {
			var flat []error
			desc := ""
			leaf := func() error {
				m := []string{"a", "b", "c", "d", "", "multiple (2) errors:\na\nb"}[r.Intn(6)]
				switch r.Intn(3) {
				case 0:
					return errors.New(m)
				case 1:
					return &myErr{m}
				}
				return fmt.Errorf("%w", errors.New(m))
			}
			var gen func(depth int) error
			gen = func(depth int) error {
				switch x := r.Intn(8); {
				case x < 2:
					desc += "nil "
					return nil
				case x == 2 && len(pool) > 0:
					p := pool[r.Intn(len(pool))]
					desc += "earlier<" + p.desc + "> "
					flat = append(flat, p.members...)
					return p.err
				case x < 4 && depth > 0:
					var l []error
					desc += "("
					for m := r.Intn(4); m > 0; m-- {
						l = append(l, gen(depth-1))
					}
					desc += ")"
					return util.ErrorsCoalesce(l...)
				}
				e := leaf()
				desc += fmt.Sprintf("%q ", e.Error())
				flat = append(flat, e)
				return e
			}
			var args []error
			for m := r.Intn(9); m > 0; m-- {
				args = append(args, gen(2))
			}
			saved := append([]error{}, args...)
			var want []error
			seen := map[string]bool{}
			for _, e := range flat {
				if !seen[e.Error()] {
					seen[e.Error()] = true
					want = append(want, e)
				}
			}
			key := ""
			if len(flat) > 1 {
				key = desc
			}
			h.Case(key)
			h.Try("panic", func() string { return desc }, func() {
				got := util.ErrorsCoalesce(args...)
				for i := range args {
					if fmt.Sprint(args[i]) != fmt.Sprint(saved[i]) {
						h.Fail("frame", "%s: argument %d changed", desc, i)
					}
				}
				if (got == nil) != (len(want) == 0) {
					h.Fail("nil", "ErrorsCoalesce(%s) = %v, present errors: %d", desc, got, len(want))
					return
				}
				if got == nil {
					return
				}
				u, ok := got.(interface{ Unwrap() []error })
				if !ok {
					if !(len(want) == 1 && got == want[0]) {
						h.Fail("unwrap", "ErrorsCoalesce(%s): the errors cannot be recovered", desc)
					}
					return
				}
				l := u.Unwrap()
				if len(l) != len(want) {
					h.Fail("set", "ErrorsCoalesce(%s) holds %d errors want %d", desc, len(l), len(want))
					return
				}
				for i := range l {
					if l[i] != want[i] {
						h.Fail("set", "ErrorsCoalesce(%s): error %d is %v want %v", desc, i, l[i], want[i])
						return
					}
				}
				for _, p := range pool {
					pl := p.err.(interface{ Unwrap() []error }).Unwrap()
					for i := range p.members {
						if len(pl) != len(p.members) || pl[i] != p.members[i] {
							h.Fail("earlier", "ErrorsCoalesce(%s) changed the members of the earlier result ErrorsCoalesce(%s)", desc, p.desc)
						}
					}
				}
				if len(desc) < 300 {
					if len(pool) >= 6 {
						pool = pool[:copy(pool, pool[1+r.Intn(5):])]
					}
					pool = append(pool, result{desc, got, want})
				}
				for _, e := range want {
					if !errors.Is(got, e) {
						h.Fail("is", "ErrorsCoalesce(%s): errors.Is does not find %v", desc, e)
					}
					if !strings.Contains(got.Error(), e.Error()) {
						h.Fail("message", "ErrorsCoalesce(%s): message %q lacks %q", desc, got.Error(), e.Error())
					}
				}
				if len(want) == 1 && got.Error() != want[0].Error() {
					h.Fail("single", "ErrorsCoalesce(%s): message %q", desc, got.Error())
				}
			})
		}
	})
}
