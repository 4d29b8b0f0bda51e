package c11

import (
	"context"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

type id = common.SHA256Output

// conn records what is written.
type conn struct {
	db.Conn
	present                                             map[id]bool
	certs, pols, dirty, domains, domainCerts, domainPol []string
	noEffect                                            bool
	calls, failAt                                       int
}

// lost: the failing call had no effect (otherwise its effect is there and the answer was lost).
func (c *conn) lost() bool { return c.calls == c.failAt && c.noEffect }

func (c *conn) fail() error {
	c.calls++
	if c.calls-1 == c.failAt {
		return errors.New("injected database failure")
	}
	return nil
}

func (c *conn) exist(ids []id) ([]bool, error) {
	m := make([]bool, len(ids))
	for i, x := range ids {
		m[i] = c.present[x]
	}
	return m, c.fail()
}
func (c *conn) CheckCertsExist(_ context.Context, ids []id) ([]bool, error)    { return c.exist(ids) }
func (c *conn) CheckPoliciesExist(_ context.Context, ids []id) ([]bool, error) { return c.exist(ids) }

func entry(i id, p *id, t time.Time, b []byte) string {
	s := "none"
	if p != nil {
		s = fmt.Sprintf("%x", p[:6])
	}
	return fmt.Sprintf("%x<-%s exp %d payload %x", i[:6], s, t.UnixNano(), sha256.Sum256(b))
}

func rows(ids []id, parents []*id, exp []time.Time, payloads [][]byte) ([]string, error) {
	if len(parents) != len(ids) || len(exp) != len(ids) || len(payloads) != len(ids) {
		return nil, fmt.Errorf("columns of different lengths: %d IDs, %d parents, %d expirations, %d payloads", len(ids), len(parents), len(exp), len(payloads))
	}
	var r []string
	for i := range ids {
		r = append(r, entry(ids[i], parents[i], exp[i], payloads[i]))
	}
	return r, nil
}

func (c *conn) UpdateCerts(_ context.Context, ids []id, parents []*id, exp []time.Time, payloads [][]byte) error {
	if c.lost() {
		return c.fail()
	}
	r, err := rows(ids, parents, exp, payloads)
	if err != nil {
		return err
	}
	c.certs = append(c.certs, r...)
	return c.fail()
}
func (c *conn) UpdatePolicies(_ context.Context, ids []id, parents []*id, exp []time.Time, payloads [][]byte) error {
	if c.lost() {
		return c.fail()
	}
	if len(payloads) != len(ids) {
		return errors.New("columns of different lengths")
	}
	for i := range ids {
		c.pols = append(c.pols, fmt.Sprintf("%x payload %x", ids[i], sha256.Sum256(payloads[i])))
	}
	return c.fail()
}
func (c *conn) InsertDomainsIntoDirty(_ context.Context, ids []id) error {
	if c.lost() {
		return c.fail()
	}
	for _, x := range ids {
		c.dirty = append(c.dirty, fmt.Sprintf("%x", x))
	}
	return c.fail()
}
func (c *conn) UpdateDomains(_ context.Context, ids []id, names []string) error {
	if c.lost() {
		return c.fail()
	}
	if len(names) != len(ids) {
		return errors.New("columns of different lengths")
	}
	for i, x := range ids {
		c.domains = append(c.domains, fmt.Sprintf("%x %s", x, names[i]))
	}
	return c.fail()
}
func pairs(a, b []id) ([]string, error) {
	if len(a) != len(b) {
		return nil, errors.New("columns of different lengths")
	}
	var r []string
	for i := range a {
		r = append(r, fmt.Sprintf("%x-%x", a[i], b[i]))
	}
	return r, nil
}
func (c *conn) UpdateDomainCerts(_ context.Context, d, x []id) error {
	if c.lost() {
		return c.fail()
	}
	r, err := pairs(d, x)
	c.domainCerts = append(c.domainCerts, r...)
	if err != nil {
		return err
	}
	return c.fail()
}
func (c *conn) UpdateDomainPolicies(_ context.Context, d, x []id) error {
	if c.lost() {
		return c.fail()
	}
	r, err := pairs(d, x)
	c.domainPol = append(c.domainPol, r...)
	if err != nil {
		return err
	}
	return c.fail()
}

func set(l []string) string {
	m := map[string]bool{}
	var r []string
	for _, s := range l {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// want is what has to be in the tables.
type want struct{ conn }

// missing returns what of a is not in b.
func missing(a, b []string) (r []string) {
	in := map[string]bool{}
	for _, x := range b {
		in[x] = true
	}
	for _, x := range a {
		if !in[x] {
			r = append(r, x)
		}
	}
	return r
}

func (w *want) cert(i id, p *id, t time.Time, raw []byte, names []string) {
	w.certs = append(w.certs, entry(i, p, t, raw))
	for _, n := range names {
		d := sha256.Sum256([]byte(n))
		w.dirty = append(w.dirty, fmt.Sprintf("%x", d))
		w.domains = append(w.domains, fmt.Sprintf("%x %s", d, n))
		w.domainCerts = append(w.domainCerts, fmt.Sprintf("%x-%x", d, i))
	}
}

func (w *want) pol(i id, raw []byte, n string) {
	w.pols = append(w.pols, fmt.Sprintf("%x payload %x", i, sha256.Sum256(raw)))
	d := sha256.Sum256([]byte(n))
	w.dirty = append(w.dirty, fmt.Sprintf("%x", d))
	w.domains = append(w.domains, fmt.Sprintf("%x %s", d, n))
	w.domainPol = append(w.domainPol, fmt.Sprintf("%x-%x", d, i))
}

func compare(h *vlib.H, in string, w *want, c *conn) {
	for _, x := range []struct {
		what      string
		want, got []string
	}{{"certs", w.certs, c.certs}, {"policies", w.pols, c.pols}, {"dirty", w.dirty, c.dirty}, {"domains", w.domains, c.domains},
		{"domain_certs", w.domainCerts, c.domainCerts}, {"domain_policies", w.domainPol, c.domainPol}} {
		if set(x.want) != set(x.got) {
			h.Fail(x.what, "%s: %s written:\n%s\nexpected:\n%s", in, x.what, set(x.got), set(x.want))
		}
	}
}

func TestVerifC11Update(t *testing.T) {
	ctx := context.Background()
	vlib.Run(t, "random batches of certificates and policies with random names, parents, expirations and presence, stored through the real UpdateWithKeepExisting and UpdateWithOverwrite into a recording connection; a case is one batch", func(h *vlib.H) {
		for n := 0; n < h.N(1500, 100000) && h.More(); n++ {
			r := h.Rng
			overwrite := r.Intn(4) == 0
			c := &conn{present: map[id]bool{}, failAt: -1}
			w := &want{}
			var each []*want
			var ids []id
			var parents []*id
			var names [][]string
			var certs []ctx509.Certificate
			var exps []time.Time
			var pols []common.PolicyDocument
			desc := ""
			pre := r.Intn(3)
			for k := r.Intn(12); k > 0; k-- {
				cert := ctx509.Certificate{Raw: h.Bytes(1 + r.Intn(20))}
				i := common.SHA256Hash32Bytes(cert.Raw)
				var p *id
				if r.Intn(3) > 0 {
					x := id{byte(r.Intn(5)), 1}
					p = &x
				}
				var nm []string
				for j := r.Intn(4); j > 0; j-- {
					nm = append(nm, fmt.Sprintf("n%d.com", r.Intn(8)))
				}
				e := time.Unix(int64(r.Intn(1e9)), int64(r.Intn(2)))
				have := false
				switch pre {
				case 1:
					have = r.Intn(2) == 0
				case 2:
					have = r.Intn(8) != 0
				}
				c.present[i] = have
				desc += fmt.Sprintf(" cert %x present %v names %v;", i[:3], have, nm)
				if overwrite || !have {
					w.cert(i, p, e, cert.Raw, nm)
					one := &want{}
					one.cert(i, p, e, cert.Raw, nm)
					each = append(each, one)
				}
				ids, parents, names, certs, exps = append(ids, i), append(parents, p), append(names, nm), append(certs, cert), append(exps, e)
			}
			for k := r.Intn(5); k > 0; k-- {
				pc := &common.PolicyCertificate{}
				pc.DomainField = fmt.Sprintf("p%d.com", r.Intn(4))
				pc.SerialNumberField = r.Intn(1000)
				raw, err := pc.Raw()
				if overwrite {
					raw, err = common.ToJSON(pc)
				}
				if err != nil {
					t.Fatal(err)
				}
				i := common.SHA256Hash32Bytes(raw)
				if _, ok := c.present[i]; !ok {
					c.present[i] = r.Intn(2) == 0
				}
				desc += fmt.Sprintf(" policy %x of %s present %v;", i[:3], pc.DomainField, c.present[i])
				if overwrite || !c.present[i] {
					w.pol(i, raw, pc.DomainField)
					one := &want{}
					one.pol(i, raw, pc.DomainField)
					each = append(each, one)
				}
				pols = append(pols, pc)
			}
			if r.Intn(8) == 0 {
				c.failAt, c.noEffect = r.Intn(10), r.Intn(2) == 0
			}
			in := fmt.Sprintf("overwrite %v,%s", overwrite, desc)
			h.Case(in)
			var err error
			f := updater.UpdateWithKeepExisting
			if overwrite {
				f = updater.UpdateWithOverwrite
			}
			if !h.Try("update", func() string { return in }, func() { err = f(ctx, c, names, ids, parents, certs, exps, pols) }) {
				continue
			}
			if c.failAt >= 0 && c.calls > c.failAt {
				if err == nil {
					h.Fail("error", "%s: no error although the database reported one (call %d)", in, c.failAt)
				}
				// The batch is tried again, and skips what is stored: that must be complete.
				for k, single := range each {
					main, have := single.certs, c.certs
					if len(main) == 0 {
						main, have = single.pols, c.pols
					}
					if len(missing(main, have)) != 0 {
						continue
					}
					for what, m := range map[string][]string{"mark": missing(single.dirty, c.dirty), "registration": missing(single.domains, c.domains),
						"association": append(missing(single.domainCerts, c.domainCerts), missing(single.domainPol, c.domainPol)...)} {
						if len(m) != 0 {
							h.Fail("incomplete", "%s: database call %d failed (its effect kept: %v); entry %d is stored, so it is skipped when the batch is tried again, but without the %s of a name: %s", in, c.failAt, !c.noEffect, k, what, m[0])
							break
						}
					}
				}
				continue
			}
			if err != nil {
				h.Fail("update", "%s: %v", in, err)
				continue
			}
			compare(h, in, w, c)
		}
	})
}

// issue makes a real certificate.
func issue(r *rand.Rand, serial int64, names []string) []byte {
	pub, priv, err := ed25519.GenerateKey(crand.Reader)
	if err != nil {
		panic(err)
	}
	tm := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{Organization: []string{fmt.Sprint("o", serial)}},
		NotBefore: time.Unix(1e9, 0), NotAfter: time.Unix(1e9+1000*serial, 0), DNSNames: names}
	if len(names) > 0 {
		tm.Subject.CommonName = names[0]
	}
	b, err := x509.CreateCertificate(crand.Reader, tm, tm, pub, priv)
	if err != nil {
		panic(err)
	}
	return b
}

func TestVerifC11Local(t *testing.T) {
	ctx := context.Background()
	vlib.Run(t, "batches of real certificates with chains of 0 to 3 shared ancestors, random presence, stored through the real UpdateCertsLocally into a recording connection; a case is one batch", func(h *vlib.H) {
		r := h.Rng
		type cert struct {
			raw   []byte
			names []string
			exp   time.Time
			i     id
		}
		mk := func(serial int64, names []string) cert {
			raw := issue(r, serial, names)
			p, err := ctx509.ParseCertificate(raw)
			if err != nil {
				t.Fatal(err)
			}
			return cert{raw, names, p.NotAfter, sha256.Sum256(raw)}
		}
		var leaves, cas []cert
		for i := 0; i < 12; i++ {
			var nm []string
			for j := r.Intn(4); j > 0; j-- {
				nm = append(nm, fmt.Sprintf("l%d.com", r.Intn(6)))
			}
			leaves = append(leaves, mk(int64(i+1), nm))
		}
		for i := 0; i < 5; i++ {
			cas = append(cas, mk(int64(100+i), []string{fmt.Sprintf("ca%d.com", i)}))
		}
		for n := 0; n < h.N(400, 20000) && h.More(); n++ {
			c := &conn{present: map[id]bool{}, failAt: -1}
			for _, x := range append(append([]cert{}, leaves...), cas...) {
				c.present[x.i] = r.Intn(3) == 0
			}
			w := &want{}
			var raws [][]byte
			var chains [][][]byte
			desc := ""
			for k := r.Intn(6); k > 0; k-- {
				l := leaves[r.Intn(len(leaves))]
				chain := []cert{l}
				at := r.Intn(len(cas))
				for j := r.Intn(4); j > 0 && at < len(cas); j-- {
					chain = append(chain, cas[at])
					at += 1 + r.Intn(2)
				}
				raws = append(raws, l.raw)
				var ch [][]byte
				for j, x := range chain {
					var p *id
					if j+1 < len(chain) {
						p = &chain[j+1].i
					}
					var nm []string
					if j == 0 {
						nm = x.names
					} else {
						ch = append(ch, x.raw)
					}
					desc += fmt.Sprintf(" %x(present %v, names %v)", x.i[:3], c.present[x.i], nm)
					if !c.present[x.i] {
						w.cert(x.i, p, x.exp, x.raw, nm)
					}
				}
				desc += ";"
				chains = append(chains, ch)
			}
			h.Case(desc)
			u := &updater.MapUpdater{Conn: c}
			var err error
			if !h.Try("local", func() string { return desc }, func() { err = u.UpdateCertsLocally(ctx, raws, chains) }) {
				continue
			}
			if err != nil {
				h.Fail("local", "%s: %v", desc, err)
				continue
			}
			compare(h, desc, w, c)
		}
	})
}
