package c12

import (
	"crypto/sha256"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func cert(r *rand.Rand, pool int) *ctx509.Certificate {
	c := &ctx509.Certificate{}
	id := r.Intn(pool)
	c.Raw = []byte(fmt.Sprintf("payload-%d", id))
	rr := rand.New(rand.NewSource(int64(id)))
	if rr.Intn(3) > 0 {
		c.Subject.CommonName = fmt.Sprintf("cn%d.com", rr.Intn(5))
	}
	for n := rr.Intn(4); n > 0; n-- {
		c.DNSNames = append(c.DNSNames, fmt.Sprintf("cn%d.com", rr.Intn(7)))
	}
	c.NotAfter = time.Unix(int64(1000+id), 0)
	return c
}

func names(c *ctx509.Certificate) string {
	m := map[string]bool{}
	if c.Subject.CommonName != "" {
		m[c.Subject.CommonName] = true
	}
	for _, n := range c.DNSNames {
		m[n] = true
	}
	var l []string
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func norm(l []string) string {
	c := append([]string{}, l...)
	sort.Strings(c)
	return strings.Join(c, ",")
}

func show(chain []*ctx509.Certificate) string {
	s := "["
	for _, c := range chain {
		if c == nil {
			s += "nil "
		} else {
			s += string(c.Raw) + " "
		}
	}
	return s + "]"
}

func sid(p *common.SHA256Output) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprintf("%x", *p)
}

type rec struct {
	raw, id, parent, names string
}

func TestVerifC12(t *testing.T) {
	vlib.Run(t, "0..6 leaves with chains of length 0..5, certificates shared between chains and repeated; oracle: level-by-level reference; and single certificates with chains whose tail is already known (nil)", func(h *vlib.H) {
		n := h.N(12000, 200000)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			pool := 3 + r.Intn(30)
			var leaves []ctx509.Certificate
			var chains [][]*ctx509.Certificate
			in := ""
			for m := r.Intn(7); m > 0; m-- {
				c := cert(r, pool)
				var ch []*ctx509.Certificate
				for j := r.Intn(6); j > 0; j-- {
					ch = append(ch, cert(r, pool))
				}
				leaves = append(leaves, *c)
				chains = append(chains, ch)
				in += string(c.Raw) + show(ch) + ";"
			}
			key := ""
			if len(leaves) > 1 {
				key = in
			}
			h.Case(key)
			var want []rec
			for lvl := 0; ; lvl++ {
				any := false
				for i := range leaves {
					full := append([]*ctx509.Certificate{&leaves[i]}, chains[i]...)
					if lvl >= len(full) {
						continue
					}
					any = true
					c := full[lvl]
					w := rec{string(c.Raw), fmt.Sprintf("%x", sha256.Sum256(c.Raw)), "none", "nil"}
					if lvl+1 < len(full) {
						w.parent = fmt.Sprintf("%x", sha256.Sum256(full[lvl+1].Raw))
					}
					if lvl == 0 {
						w.names = names(c)
					}
					want = append(want, w)
				}
				if !any {
					break
				}
			}
			h.Try("unfoldcerts-panic", func() string { return in }, func() {
				cs, ids, pids, ns := util.UnfoldCerts(leaves, chains)
				h.Keep("UnfoldCerts "+in, func() string {
					s := ""
					for i := range cs {
						s += fmt.Sprintf("%s %x %s %q;", cs[i].Raw, ids[i], sid(pids[i]), ns[i])
					}
					return s
				})
				if len(cs) != len(want) || len(ids) != len(want) || len(pids) != len(want) || len(ns) != len(want) {
					h.Fail("unfoldcerts-length", "UnfoldCerts(%s): lengths %d %d %d %d want %d", in, len(cs), len(ids), len(pids), len(ns), len(want))
					return
				}
				for i, w := range want {
					g := rec{string(cs[i].Raw), fmt.Sprintf("%x", ids[i]), sid(pids[i]), "nil"}
					if ns[i] != nil {
						g.names = norm(ns[i])
					}
					if g != w {
						h.Fail("unfoldcerts", "UnfoldCerts(%s): entry %d is %v want %v", in, i, g, w)
						return
					}
				}
				now := ""
				for i := range leaves {
					now += string(leaves[i].Raw) + show(chains[i]) + ";"
				}
				if now != in {
					h.Fail("frame", "UnfoldCerts changed its input %s", in)
				}
				nn, ee, pp := util.ExtractNames(leaves), util.ExtractExpirations(leaves), util.ExtractPayloads(leaves)
				if len(nn) != len(leaves) || len(ee) != len(leaves) || len(pp) != len(leaves) {
					h.Fail("extract", "ExtractNames/Expirations/Payloads(%s): wrong lengths", in)
					return
				}
				for i := range leaves {
					if norm(nn[i]) != names(&leaves[i]) || !ee[i].Equal(leaves[i].NotAfter) || string(pp[i]) != string(leaves[i].Raw) {
						h.Fail("extract", "ExtractNames/Expirations/Payloads(%s) differ at %d", in, i)
					}
				}
			})
			// one certificate, ancestors from some position on already known
			leaf := cert(r, pool)
			chlen := r.Intn(6)
			known := r.Intn(chlen + 1)
			if r.Intn(3) == 0 {
				known = chlen
			}
			var ch []*ctx509.Certificate
			var chIDs []*common.SHA256Output
			for j := 0; j < chlen; j++ {
				c := cert(r, pool)
				id := common.SHA256Hash32Bytes(c.Raw)
				chIDs = append(chIDs, &id)
				if j == known || j > known && r.Intn(4) > 0 {
					c = nil
				}
				ch = append(ch, c)
			}
			leafID := common.SHA256Hash32Bytes(leaf.Raw)
			in1 := string(leaf.Raw) + show(ch)
			h.Case(in1)
			var w1 []rec
			for j := 0; j <= known && j <= chlen; j++ {
				c := leaf
				if j > 0 {
					c = ch[j-1]
				}
				x := rec{string(c.Raw), fmt.Sprintf("%x", leafID), "none", "nil"}
				if j > 0 {
					x.id = fmt.Sprintf("%x", *chIDs[j-1])
				} else {
					x.names = names(leaf)
				}
				if j < chlen {
					x.parent = fmt.Sprintf("%x", *chIDs[j])
				}
				w1 = append(w1, x)
			}
			h.Try("unfoldcert-panic", func() string { return in1 }, func() {
				cs, ids, pids, ns := util.UnfoldCert(leaf, leafID, ch, chIDs)
				if len(cs) != len(w1) || len(ids) != len(w1) || len(pids) != len(w1) || len(ns) != len(w1) {
					h.Fail("unfoldcert-length", "UnfoldCert(%s): lengths %d %d %d %d want %d", in1, len(cs), len(ids), len(pids), len(ns), len(w1))
					return
				}
				for i, w := range w1 {
					g := rec{string(cs[i].Raw), fmt.Sprintf("%x", ids[i]), sid(pids[i]), "nil"}
					if ns[i] != nil {
						g.names = norm(ns[i])
					}
					if g != w {
						h.Fail("unfoldcert", "UnfoldCert(%s): entry %d is %v want %v", in1, i, g, w)
						return
					}
				}
			})
		}
	})
}
