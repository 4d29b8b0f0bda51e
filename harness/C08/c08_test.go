package c08

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// oracle works on the bytes of the names
func want(a common.PolicyAttributes, pd, d string) common.PolicyAttributeDomainValidityResult {
	const na = common.PolicyAttributeDomainNotApplicable
	if n := len(pd); n > 0 && pd[n-1] == '.' {
		pd = pd[:n-1]
	}
	if n := len(d); n > 0 && d[n-1] == '.' {
		d = d[:n-1]
	}
	cut := len(d) - len(pd) - 1
	if cut < 0 || d[cut:] != "."+pd {
		return na
	}
	label := d[:cut]
	for i := len(label) - 1; i >= 0; i-- {
		if label[i] == '.' {
			label = label[i+1:]
			break
		}
	}
	for _, l := range []string{label, "*"} {
		if in(a.AllowedSubdomains, l) {
			return common.PolicyAttributeDomainAllowed
		}
		if in(a.DisallowedSubdomains, l) {
			return common.PolicyAttributeDomainDisallowed
		}
		if in(a.ExcludedSubdomains, l) {
			return common.PolicyAttributeDomainExcluded
		}
	}
	return common.PolicyAttributeDomainAllowed
}

var labels = []string{"a", "b", "aa", "com", "*", "", "www", "A", "a*", "b.a", ".", "x\x00"}

func label(r *rand.Rand) string { return labels[r.Intn(len(labels))] }

func list(r *rand.Rand) (l []string) {
	for n := r.Intn(4); n > 0; n-- {
		l = append(l, label(r))
	}
	return
}

func name(r *rand.Rand, max int) string {
	var l []string
	for n := r.Intn(max + 1); n > 0; n-- {
		l = append(l, labels[r.Intn(8)])
	}
	return strings.Join(l, ".")
}

func dup(lists ...[]string) bool {
	seen := map[string]bool{}
	for _, l := range lists {
		for _, s := range l {
			if seen[s] {
				return true
			}
			seen[s] = true
		}
	}
	return false
}

func TestVerifC08(t *testing.T) {
	vlib.Run(t, "names of 0..4 labels over a small alphabet (related by construction, extra dots, look-alike suffixes) and random attribute lists with wildcards and repetitions; oracle: byte-level evaluation of the stated rule; non-trivial: the domain is a subdomain", func(h *vlib.H) {
		n := h.N(60000, 1500000)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			a := common.PolicyAttributes{AllowedCAs: list(r), AllowedSubdomains: list(r), DisallowedSubdomains: list(r), ExcludedSubdomains: list(r)}
			pd := name(r, 2)
			d := name(r, 3)
			switch r.Intn(8) {
			case 0:
			case 1:
				d += pd // no boundary
			case 2:
				d = pd
			default:
				d += "." + pd
			}
			if r.Intn(4) == 0 {
				pd += "."
			}
			if r.Intn(4) == 0 {
				d += "."
			}
			if r.Intn(20) == 0 {
				d += "."
			}
			w := want(a, pd, d)
			key := ""
			if w != common.PolicyAttributeDomainNotApplicable {
				key = fmt.Sprintf("%q %q %q", a, pd, d)
			}
			h.Case(key)
			before := fmt.Sprintf("%q", a)
			h.Try("panic", func() string { return fmt.Sprintf("%s %q %q", before, pd, d) }, func() {
				if got := a.CheckDomainValidity(pd, d); got != w {
					h.Fail("decision", "attributes %s: CheckDomainValidity(%q,%q) = %d want %d", before, pd, d, got, w)
				}
				err := a.ValidateAttributes()
				if wantErr := dup(a.AllowedCAs) || dup(a.AllowedSubdomains, a.DisallowedSubdomains, a.ExcludedSubdomains); (err != nil) != wantErr {
					h.Fail("validate", "attributes %s: ValidateAttributes() = %v, want an error: %v", before, err, wantErr)
				}
				if fmt.Sprintf("%q", a) != before {
					h.Fail("frame", "attributes %s modified", before)
				}
			})
		}
	})
}
