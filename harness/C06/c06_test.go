package c06

import (
	"bytes"
	"context"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
	"github.com/netsec-ethz/fpki/zzverif/vtrie"
)

type payload struct{ certs, pols []byte }

// conn is an in-memory database: only what the responder uses.
type conn struct {
	db.Conn
	*vtrie.MemStore
	root    *common.SHA256Output
	rows    map[common.SHA256Output]payload
	failIDs int // 1: certificates fail, 2: policies fail
}

func (c *conn) Close() error { return nil }
func (c *conn) RetrieveTreeNode(ctx context.Context, k common.SHA256Output) ([]byte, error) {
	return c.MemStore.RetrieveTreeNode(ctx, k)
}
func (c *conn) SaveRoot(ctx context.Context, r *common.SHA256Output) error {
	return c.MemStore.SaveRoot(ctx, r)
}
func (c *conn) UpdateTreeNodes(ctx context.Context, r []*db.TreeNodeRecord) (int, error) {
	return c.MemStore.UpdateTreeNodes(ctx, r)
}
func (c *conn) DeleteTreeNodes(ctx context.Context, k []common.SHA256Output) (int, error) {
	return c.MemStore.DeleteTreeNodes(ctx, k)
}
func (c *conn) LoadRoot(context.Context) (*common.SHA256Output, error) { return c.root, nil }
func (c *conn) RetrieveDomainCertificatesIDs(_ context.Context, id common.SHA256Output) (common.SHA256Output, []byte, error) {
	if c.failIDs == 1 {
		return common.SHA256Output{}, nil, errors.New("db failure")
	}
	b := append([]byte(nil), c.rows[id].certs...)
	return sha256.Sum256(b), b, nil
}
func (c *conn) RetrieveDomainPoliciesIDs(_ context.Context, id common.SHA256Output) (common.SHA256Output, []byte, error) {
	if c.failIDs == 2 {
		return common.SHA256Output{}, nil, errors.New("db failure")
	}
	b := append([]byte(nil), c.rows[id].pols...)
	return sha256.Sum256(b), b, nil
}

// value is the SHA-256 of all IDs, sorted and concatenated.
func value(p payload) common.SHA256Output {
	var ids []string
	all := string(p.certs) + string(p.pols)
	for i := 0; i+32 <= len(all); i += 32 {
		ids = append(ids, all[i:i+32])
	}
	sort.Strings(ids)
	return sha256.Sum256([]byte(strings.Join(ids, "")))
}

// hierarchy of a name below a two-label registrable domain.
func hierarchy(name string) map[string]bool {
	l := strings.Split(name, ".")
	r := map[string]bool{}
	for i := 0; i+2 <= len(l); i++ {
		r[strings.Join(l[i:], ".")] = true
	}
	return r
}

func climb(key string, ap [][]byte, h []byte) []byte {
	for i := len(ap) - 1; i >= 0; i-- {
		s := ap[len(ap)-1-i]
		if vtrie.Bit(key, i) {
			h = vtrie.H(s, h)
		} else {
			h = vtrie.H(h, s)
		}
	}
	return h
}

func leaf(key, val string, height int) []byte {
	return vtrie.H([]byte(key), []byte(val), []byte{byte(height)})
}

var sk *rsa.PrivateKey

func ids(h *vlib.H, n int) []byte {
	var b []byte
	for ; n > 0; n-- {
		b = append(b, h.Bytes(32)...)
	}
	return b
}

func TestVerifC06(t *testing.T) {
	var err error
	if sk, err = rsa.GenerateKey(rand.Reader, 1024); err != nil {
		if sk, err = rsa.GenerateKey(rand.Reader, 2048); err != nil {
			t.Fatal(err)
		}
	}
	ctx := context.Background()
	vlib.Run(t, "random databases of domains with certificate and policy IDs behind an in-memory connection, queried through the real responder before and after an update; every answer is checked field by field and through the real client verification, then with each field altered (oracle: independent climb); distinct inputs counted", func(h *vlib.H) {
		for n := 0; n < h.N(60, 3000) && h.More(); n++ {
			r := h.Rng
			c := &conn{MemStore: vtrie.NewStore(), rows: map[common.SHA256Output]payload{}}
			kv := map[string]string{}
			labels := []string{"a", "b", "mail", "x1"}
			name := func() string {
				s := []string{"example.com", "test.org", "foo.net"}[r.Intn(3)]
				for k := r.Intn(4); k > 0; k-- {
					s = labels[r.Intn(len(labels))] + "." + s
				}
				return s
			}
			put := func(k int) {
				up := map[string]string{}
				for ; k > 0; k-- {
					d := name()
					id := common.SHA256Output(sha256.Sum256([]byte(d)))
					p := payload{ids(h, r.Intn(4)), ids(h, r.Intn(3))}
					if r.Intn(4) == 0 { // shared prefixes and repeated IDs
						x := h.Bytes(32)
						y := append([]byte(nil), x...)
						y[31] ^= 1
						p.certs = append(append(p.certs, y...), x...)
						p.pols = append(p.pols, x...)
					}
					c.rows[id] = p
					v := value(p)
					up[string(id[:])] = string(v[:])
				}
				var root []byte
				if c.root != nil {
					root = c.root[:]
				}
				tr, err := trie.NewTrie(root, common.SHA256Hash, c)
				if err != nil {
					t.Fatal(err)
				}
				var ks, vs [][]byte
				for _, k := range vtrie.Keys(up) {
					ks, vs = append(ks, []byte(k)), append(vs, []byte(up[k]))
					kv[k] = up[k]
				}
				if _, err := tr.Update(ctx, ks, vs); err != nil {
					h.Fail("update", "tree update failed: %v", err)
				}
				if err := tr.Commit(ctx); err != nil {
					h.Fail("update", "tree commit failed: %v", err)
				}
				ro := common.SHA256Output(tr.Root)
				c.root = &ro
			}
			put(1 + r.Intn(6))
			rs, err := responder.NewMapResponder(ctx, c, sk)
			if err != nil {
				h.Fail("responder", "NewMapResponder: %v", err)
				return
			}
			for round := 0; round < 2; round++ {
				if round == 1 {
					put(1 + r.Intn(4))
					if err := rs.ReloadRootAndSignTreeHead(ctx, sk); err != nil {
						h.Fail("responder", "Reload: %v", err)
					}
				}
				for q := 0; q < 4; q++ {
					d := name()
					query := d
					if r.Intn(4) == 0 {
						query = "www." + d
					}
					if r.Intn(4) == 0 {
						query = "*." + query
					}
					want := hierarchy(d)
					var resp []*mapCommon.MapServerResponse
					h.Case(fmt.Sprint(n, round, query))
					in := func() string { return fmt.Sprintf("query %q, content of %d domains", query, len(kv)) }
					if !h.Try("getproof", in, func() { resp, err = rs.GetProof(ctx, query) }) {
						continue
					}
					if err != nil {
						h.Fail("getproof", "%s: %v", in(), err)
						continue
					}
					kept := resp
					h.Keep(in(), func() string {
						s := ""
						for _, a := range kept {
							s += fmt.Sprintf("%q %x %x %x %x|%d %x %x %x %x;", a.DomainEntry.DomainName, a.DomainEntry.DomainID, a.DomainEntry.DomainValue, a.DomainEntry.CertIDs, a.DomainEntry.PolicyIDs, a.PoI.ProofType, a.PoI.Proof, a.PoI.Root, a.PoI.ProofKey, a.PoI.ProofValue)
						}
						return s
					})
					if len(resp) != len(want) {
						h.Fail("hierarchy", "%s: %d answers, want %d", in(), len(resp), len(want))
					}
					for _, a := range resp {
						dom := a.DomainEntry.DomainName
						if !want[dom] {
							h.Fail("hierarchy", "%s: answer for %q is not asked for or repeated", in(), dom)
							continue
						}
						delete(want, dom)
						checkAnswer(h, c, kv, a, in())
					}
				}
			}
			// A failing database is an error, never an answer without the IDs.
			for c.failIDs = 1; c.failIDs <= 2; c.failIDs++ {
				for id := range c.rows {
					_ = id
				}
				for _, d := range []string{"example.com", "test.org", "foo.net"} {
					id := sha256.Sum256([]byte(d))
					if _, ok := kv[string(id[:])]; !ok {
						continue
					}
					if resp, err := rs.GetProof(ctx, d); err == nil && resp != nil {
						h.Fail("dberror", "GetProof(%s) returned answers although the database failed", d)
					}
				}
			}
		}
	})
}

func checkAnswer(h *vlib.H, c *conn, kv map[string]string, a *mapCommon.MapServerResponse, in string) {
	de := a.DomainEntry
	id := common.SHA256Output(sha256.Sum256([]byte(de.DomainName)))
	if de.DomainID != id {
		h.Fail("id", "%s: DomainID of %s is not the SHA-256 of the name", in, de.DomainName)
	}
	if !bytes.Equal(a.PoI.Root, c.root[:]) {
		h.Fail("root", "%s: answer is not for the current root", in)
	}
	dig := sha256.Sum256(a.PoI.Root)
	if err := rsa.VerifyPKCS1v15(&sk.PublicKey, crypto.SHA256, dig[:], a.TreeHeadSig); err != nil {
		h.Fail("sth", "%s: the tree head signature is not over the root of the answer: %v", in, err)
	}
	v, present := kv[string(id[:])]
	if present {
		p := c.rows[id]
		if a.PoI.ProofType != mapCommon.PoP {
			h.Fail("type", "%s: %s is stored but the answer is not a proof of presence", in, de.DomainName)
			return
		}
		if !bytes.Equal(de.CertIDs, p.certs) || !bytes.Equal(de.PolicyIDs, p.pols) {
			h.Fail("ids", "%s: the IDs carried for %s are not the stored ones", in, de.DomainName)
		}
		if string(de.DomainValue[:]) != v {
			h.Fail("value", "%s: value for %s is not the SHA-256 of the sorted IDs", in, de.DomainName)
		}
		if de.CertIDsID != sha256.Sum256(p.certs) || de.PolicyIDsID != sha256.Sum256(p.pols) {
			h.Fail("idsid", "%s: ID of the ID lists differs from the stored one", in)
		}
	} else if a.PoI.ProofType != mapCommon.PoA {
		h.Fail("type", "%s: %s is not stored but the answer is not a proof of absence", in, de.DomainName)
		return
	}
	verify := func(what string, m *mapCommon.MapServerResponse) {
		var ty mapCommon.ProofType
		var ok bool
		var err error
		desc := func() string {
			return fmt.Sprintf("%s %s: type %v id %x value %x proof %x root %x key %x val %x", what, m.DomainEntry.DomainName, m.PoI.ProofType,
				m.DomainEntry.DomainID, m.DomainEntry.DomainValue, m.PoI.Proof, m.PoI.Root, m.PoI.ProofKey, m.PoI.ProofValue)
		}
		if !h.Try("verify", desc, func() { ty, ok, err = prover.VerifyProofByDomain(m) }) {
			return
		}
		id, val := string(m.DomainEntry.DomainID[:]), string(m.DomainEntry.DomainValue[:])
		var wantOK, wantErr bool
		ap, root := m.PoI.Proof, m.PoI.Root
		if m.PoI.ProofType == mapCommon.PoP {
			wantErr = val != string(m.PoI.ProofValue)
			wantOK = !wantErr && bytes.Equal(root, climb(id, ap, leaf(id, val, 256-len(ap))))
		} else if len(m.PoI.ProofKey) == 0 {
			wantOK = bytes.Equal(root, climb(id, ap, []byte{0}))
		} else {
			k := string(m.PoI.ProofKey)
			wantOK = len(k) == 32 && len(m.PoI.ProofValue) == 32 && k != id
			if wantOK {
				for i := range ap {
					wantOK = wantOK && vtrie.Bit(k, i) == vtrie.Bit(id, i)
				}
				wantOK = wantOK && bytes.Equal(root, climb(k, ap, leaf(k, string(m.PoI.ProofValue), 256-len(ap))))
			}
		}
		if wantErr != (err != nil) || wantOK != ok || (err == nil && ty != m.PoI.ProofType) {
			h.Fail("verify", "VerifyProofByDomain(%s) = %v, %v, %v; want ok %v, error %v", desc(), ty, ok, err, wantOK, wantErr)
		}
		if what == "honest" && !wantOK {
			h.Fail("honest", "%s: the server's own answer does not verify: %s", in, desc())
		}
	}
	clone := func() *mapCommon.MapServerResponse {
		d := *de
		m := *a
		m.DomainEntry = &d
		m.PoI.Proof = append([][]byte(nil), a.PoI.Proof...)
		for i := range m.PoI.Proof {
			m.PoI.Proof[i] = append([]byte(nil), m.PoI.Proof[i]...)
		}
		cp := func(b []byte) []byte {
			if b == nil {
				return nil
			}
			return append([]byte{}, b...)
		}
		m.PoI.Root, m.PoI.ProofKey, m.PoI.ProofValue = cp(m.PoI.Root), cp(m.PoI.ProofKey), cp(m.PoI.ProofValue)
		return &m
	}
	verify("honest", a)
	r := h.Rng
	flip := func(b []byte) {
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	}
	for k := 0; k < 12; k++ {
		m := clone()
		for j := 1 + r.Intn(2); j > 0; j-- {
			switch k {
			case 0:
				flip(m.DomainEntry.DomainID[:])
			case 1:
				flip(m.DomainEntry.DomainValue[:])
			case 2:
				flip(m.PoI.ProofValue)
			case 3:
				flip(m.PoI.ProofKey)
			case 4:
				flip(m.PoI.Root)
			case 5:
				if len(m.PoI.Proof) > 0 {
					flip(m.PoI.Proof[r.Intn(len(m.PoI.Proof))])
				}
			case 6:
				m.PoI.ProofType = 1 - m.PoI.ProofType
			case 7: // consistent forgery of the value
				flip(m.DomainEntry.DomainValue[:])
				m.PoI.ProofValue = append([]byte(nil), m.DomainEntry.DomainValue[:]...)
			case 8: // presence turned into absence by "another" leaf that is its own
				m.PoI.ProofType = mapCommon.PoA
				m.PoI.ProofKey = append([]byte(nil), m.DomainEntry.DomainID[:]...)
			case 9: // presence of the leaf that proves the absence
				m.PoI.ProofType = mapCommon.PoP
				if len(m.PoI.ProofKey) == 32 {
					copy(m.DomainEntry.DomainID[:], m.PoI.ProofKey)
				}
				if len(m.PoI.ProofValue) == 32 {
					copy(m.DomainEntry.DomainValue[:], m.PoI.ProofValue)
				}
			case 10:
				m.PoI.ProofKey = nil
			case 11:
				m.PoI.ProofValue = nil
			}
		}
		verify(fmt.Sprint("altered-", k), m)
	}
}
