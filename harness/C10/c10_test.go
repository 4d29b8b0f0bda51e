package c10

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

var labels = []string{"a", "b", "aa", "com", "xcom", "www", "A"}

func name(r *rand.Rand, max int) string {
	var l []string
	for n := r.Intn(max + 1); n > 0; n-- {
		l = append(l, labels[r.Intn(len(labels))])
	}
	return strings.Join(l, ".")
}

// label-wise oracle
func subOrEqual(child, issuer string) bool {
	if issuer == "" || child == issuer {
		return true
	}
	c, i := strings.Split(child, "."), strings.Split(issuer, ".")
	if len(c) <= len(i) {
		return false
	}
	for k := 1; k <= len(i); k++ {
		if c[len(c)-k] != i[len(i)-k] {
			return false
		}
	}
	return true
}

func TestVerifC10(t *testing.T) {
	base := time.Date(2024, 2, 28, 23, 59, 59, 999999999, time.UTC)
	zones := []*time.Location{time.UTC, time.FixedZone("x", 3600), time.FixedZone("y", -7*3600)}
	tm := func(r *rand.Rand) time.Time {
		d := []time.Duration{0, 1, -1, time.Second, -time.Second, time.Hour, -time.Hour, 24 * time.Hour, 1000 * time.Hour}[r.Intn(9)]
		x := base.Add(d).In(zones[r.Intn(3)])
		if r.Intn(30) == 0 {
			x = time.Time{}
		}
		return x
	}
	vlib.Run(t, "issuer and child certificates with validity bounds around common instants (equal, 1 ns off, other zones) and related or look-alike domains; oracle: Unix-nanosecond and label-wise comparison; non-trivial: issuer with a domain", func(h *vlib.H) {
		n := h.N(60000, 1000000)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			mk := func(dom string) *common.PolicyCertificate {
				c := &common.PolicyCertificate{}
				c.DomainField, c.NotBefore, c.NotAfter = dom, tm(r), tm(r)
				c.CanIssue, c.CanOwn = r.Intn(2) == 0, r.Intn(2) == 0
				c.SerialNumberField = r.Intn(3)
				return c
			}
			is := name(r, 3)
			ch := name(r, 3)
			switch r.Intn(6) {
			case 0:
				ch = is
			case 1:
				ch += is
			case 2, 3:
				ch += "." + is
			case 4:
				is, ch = ch+"."+is, is
			}
			if r.Intn(25) == 0 {
				ch += "."
			}
			if r.Intn(25) == 0 {
				is += "."
			}
			issuer, child := mk(is), mk(ch)
			if r.Intn(2) == 0 { // make the periods nest so that the domain decides
				child.NotBefore = issuer.NotBefore.Add(time.Duration(r.Intn(2)))
				child.NotAfter = issuer.NotAfter.Add(-time.Duration(r.Intn(2)))
			}
			in := func() string {
				return fmt.Sprintf("issuer %q [%v,%v] child %q [%v,%v]", is, issuer.NotBefore, issuer.NotAfter, ch, child.NotBefore, child.NotAfter)
			}
			key := ""
			if is != "" {
				key = in()
			}
			h.Case(key)
			le := func(a, b time.Time) bool {
				return a.Unix() < b.Unix() || a.Unix() == b.Unix() && a.Nanosecond() <= b.Nanosecond()
			}
			want := le(issuer.NotBefore, child.NotBefore) && le(child.NotAfter, issuer.NotAfter) && subOrEqual(ch, is)
			ib, cb := *issuer, *child
			h.Try("panic", in, func() {
				err := crypto.VerifyIssuerConstraints(issuer, child)
				if (err == nil) != want {
					h.Fail("decision", "VerifyIssuerConstraints(%s) = %v, accept expected: %v", in(), err, want)
				}
				if fmt.Sprintf("%#v", ib) != fmt.Sprintf("%#v", *issuer) || fmt.Sprintf("%#v", cb) != fmt.Sprintf("%#v", *child) {
					h.Fail("frame", "VerifyIssuerConstraints modified its arguments (%s)", in())
				}
			})
		}
	})
}
