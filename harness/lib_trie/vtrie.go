// Package vtrie holds the reference model of the map tree for the harnesses: the compact sparse
// Merkle tree of a key-value content, computed from scratch.
package vtrie

import (
	"context"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"sort"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
)

// MemStore is the database of tree nodes.
type MemStore struct{ M map[common.SHA256Output][]byte }

func NewStore() *MemStore { return &MemStore{map[common.SHA256Output][]byte{}} }

func (s *MemStore) Close() error { return nil }
func (s *MemStore) RetrieveTreeNode(_ context.Context, k common.SHA256Output) ([]byte, error) {
	v, ok := s.M[k]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}
func (s *MemStore) UpdateTreeNodes(_ context.Context, r []*db.TreeNodeRecord) (int, error) {
	for _, x := range r {
		s.M[x.Key] = append([]byte{}, x.Value...)
	}
	return len(r), nil
}
func (s *MemStore) SaveRoot(context.Context, *common.SHA256Output) error { return nil }
func (s *MemStore) DeleteTreeNodes(_ context.Context, k []common.SHA256Output) (int, error) {
	for _, x := range k {
		delete(s.M, x)
	}
	return len(k), nil
}

func H(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func Bit(k string, i int) bool { return k[i/8]&(1<<uint(7-i%8)) != 0 }

func Keys(kv map[string]string) []string {
	ks := make([]string, 0, len(kv))
	for k := range kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func split(keys []string, depth int) (l, r []string) {
	i := sort.Search(len(keys), func(i int) bool { return Bit(keys[i], depth) })
	return keys[:i], keys[i:]
}

// Root computes the root of the tree of the content (keys sorted, below depth); nil if empty.
func Root(kv map[string]string, keys []string, depth int) []byte {
	if len(keys) == 0 {
		return nil
	}
	if len(keys) == 1 {
		return H([]byte(keys[0]), []byte(kv[keys[0]]), []byte{byte(256 - depth)})
	}
	l, r := split(keys, depth)
	return H(Node(kv, l, depth+1), Node(kv, r, depth+1))
}

// Node is Root with the default leaf for the empty tree.
func Node(kv map[string]string, keys []string, depth int) []byte {
	if r := Root(kv, keys, depth); r != nil {
		return r
	}
	return []byte{0}
}

// Proof is the audit path for a key, from the leaf up.
func Proof(kv map[string]string, keys []string, key string, depth int) (ap [][]byte, leafKey, leafVal string, found bool) {
	if len(keys) == 0 {
		return nil, "", "", false
	}
	if len(keys) == 1 {
		return nil, keys[0], kv[keys[0]], keys[0] == key
	}
	l, r := split(keys, depth)
	if Bit(key, depth) {
		l, r = r, l
	}
	ap, leafKey, leafVal, found = Proof(kv, l, key, depth+1)
	return append(ap, Node(kv, r, depth+1)), leafKey, leafVal, found
}

// Key makes a key; modes make shared prefixes at various depths. Keys that differ in the last bit
// only are not generated.
func Key(r *rand.Rand, mode int) string {
	k := make([]byte, 32)
	switch mode {
	case 0:
		k[0] = byte(r.Intn(8)) << 5
		k[31] = byte(r.Intn(2)) << 1
	case 1:
		k[0] = byte(r.Intn(4))
		k[31] = byte(r.Intn(4)) << 1
	case 2:
		k[r.Intn(2)] = byte(r.Intn(256))
	case 3: // one of few keys that share long prefixes
		k[0] = 0xa5
		b := r.Intn(255)
		k[b/8] ^= 1 << uint(7-b%8)
	default:
		r.Read(k)
	}
	k[31] &^= 1
	return string(k)
}

// Val makes a value of 32 bytes.
func Val(r *rand.Rand) string {
	v := make([]byte, 32)
	if r.Intn(4) == 0 {
		v[r.Intn(32)] = byte(r.Intn(256))
	} else {
		r.Read(v)
	}
	return string(v)
}

// Content makes a random content.
func Content(r *rand.Rand, max int) map[string]string {
	kv := map[string]string{}
	mode := r.Intn(5)
	for i := r.Intn(max + 1); i > 0; i-- {
		kv[Key(r, mode)] = Val(r)
	}
	return kv
}

// Hist is a history of updates, commits and reloads of the real tree beside the model.
type Hist struct {
	R         *rand.Rand
	Store     *MemStore
	T         *trie.Trie
	KV        map[string]string // content of the tree
	Committed map[string]string // content at the last commit
	ComRoot   []byte
	Ever      map[string]bool
	Mode      int
	Limit     int
	Desc      string
	Alias     string // set if an update modified the caller's slices
}

func NewHist(r *rand.Rand) *Hist {
	h := &Hist{R: r, Store: NewStore(), KV: map[string]string{}, Committed: map[string]string{}, Ever: map[string]bool{}, Mode: r.Intn(5), Limit: []int{0, 32, 233, 250, 257}[r.Intn(5)]}
	h.open(nil)
	return h
}

func (h *Hist) open(root []byte) {
	t, err := trie.NewTrie(root, common.SHA256Hash, h.Store)
	if err != nil {
		panic(err)
	}
	t.CacheHeightLimit = h.Limit
	h.T = t
}

func clone(m map[string]string) map[string]string {
	c := make(map[string]string, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

// Update applies one random update of n keys; it returns the error and the root returned.
func (h *Hist) Update(n int) ([]byte, error) {
	r := h.R
	up := map[string]string{}
	have := Keys(h.KV)
	for i := 0; i < n; i++ {
		k := Key(r, h.Mode)
		if r.Intn(3) == 0 && len(have) > 0 {
			k = have[r.Intn(len(have))]
		}
		switch r.Intn(4) {
		case 0:
			up[k] = "\x00"
		case 1:
			if v, ok := h.KV[k]; ok {
				up[k] = v
				break
			}
			fallthrough
		default:
			up[k] = Val(r)
		}
	}
	if r.Intn(12) == 0 { // delete everything
		for _, k := range have {
			up[k] = "\x00"
		}
	}
	ks := Keys(up)
	// Slices with spare capacity: nothing may be written there.
	buf := make([]byte, 0, 80*len(ks)+80)
	var kb, vb [][]byte
	h.Desc += " upd{"
	for _, k := range ks {
		o := len(buf)
		buf = append(buf, k...)
		kb = append(kb, buf[o:len(buf)])
		buf = append(buf, 0xEE)
		o = len(buf)
		buf = append(buf, up[k]...)
		vb = append(vb, buf[o:len(buf)])
		buf = append(buf, 0xEE)
		if len(h.Desc) < 3000 {
			h.Desc += fmt.Sprintf("%x=%x ", k, up[k])
		}
		if up[k] == "\x00" {
			delete(h.KV, k)
		} else {
			h.KV[k] = up[k]
		}
		h.Ever[k] = true
	}
	h.Desc += "}"
	before := string(buf)
	kb0, vb0 := append([][]byte{}, kb...), append([][]byte{}, vb...)
	root, err := h.T.Update(context.Background(), kb, vb)
	root = append([]byte(nil), root...)
	if string(buf) != before {
		h.Alias = "bytes of the keys or values (or behind them) were modified"
	}
	for i := range kb {
		if &kb[i][0] != &kb0[i][0] || &vb[i][0] != &vb0[i][0] {
			h.Alias = "the caller's key or value slice was reordered"
		}
	}
	// The caller's buffers are the caller's: without a copy inside, committing must come first.
	return root, err
}

func (h *Hist) Want() []byte { return Root(h.KV, Keys(h.KV), 0) }

func (h *Hist) Commit() error {
	h.Desc += " commit"
	if err := h.T.Commit(context.Background()); err != nil {
		return err
	}
	h.Committed = clone(h.KV)
	h.ComRoot = append([]byte(nil), h.T.Root...)
	if len(h.KV) == 0 {
		h.ComRoot = nil
	}
	return nil
}

// Reload opens the tree anew from the committed root; uncommitted changes are gone.
func (h *Hist) Reload() {
	h.Desc += " reload"
	h.KV = clone(h.Committed)
	h.open(h.ComRoot)
}

func (h *Hist) Reset() {
	h.Desc += " reset-cache"
	h.T.ResetLiveCache()
}
