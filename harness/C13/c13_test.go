package c13

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"sort"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
	"github.com/netsec-ethz/fpki/zzverif/vtrie"
)

type conn struct {
	db.Conn
	*vtrie.MemStore
	root    *common.SHA256Output
	bundles [][]db.DomainEntryRecord
	given   int
	failAt  int
	endDone bool // the last bundle says done; otherwise an empty bundle follows
	asked   int
}

func (c *conn) Close() error { return nil }
func (c *conn) RetrieveTreeNode(ctx context.Context, k common.SHA256Output) ([]byte, error) {
	return c.MemStore.RetrieveTreeNode(ctx, k)
}
func (c *conn) UpdateTreeNodes(ctx context.Context, r []*db.TreeNodeRecord) (int, error) {
	return c.MemStore.UpdateTreeNodes(ctx, r)
}
func (c *conn) DeleteTreeNodes(ctx context.Context, k []common.SHA256Output) (int, error) {
	return c.MemStore.DeleteTreeNodes(ctx, k)
}
func (c *conn) LoadRoot(context.Context) (*common.SHA256Output, error) {
	if c.root == nil {
		return nil, nil
	}
	r := *c.root
	return &r, nil
}
func (c *conn) SaveRoot(_ context.Context, r *common.SHA256Output) error {
	x := *r
	c.root = &x
	return nil
}
func (c *conn) DirtyCount(context.Context) (uint64, error) {
	n := 0
	for _, b := range c.bundles {
		n += len(b)
	}
	return uint64(n), nil
}
func (c *conn) RetrieveDomainEntriesDirtyBundle(_ context.Context, cur *db.DirtyDomainEntriesCursor, max uint64) (
	[]db.DomainEntryRecord, *db.DirtyDomainEntriesCursor, bool, error) {
	c.asked++
	i := 0
	if cur != nil {
		i = cur.NextPartition
	}
	if c.failAt == i {
		return nil, cur, false, errors.New("injected database failure")
	}
	next := &db.DirtyDomainEntriesCursor{NextPartition: i + 1}
	if i >= len(c.bundles) {
		return nil, next, true, nil
	}
	c.given += len(c.bundles[i])
	b := append([]db.DomainEntryRecord{}, c.bundles[i]...)
	return b, next, c.endDone && i == len(c.bundles)-1, nil
}

func TestVerifC13Update(t *testing.T) {
	ctx := context.Background()
	vlib.Run(t, "histories of updates of the map from dirty domains: random entries (new, changed, deleted, unchanged) in random bundles through the real UpdateSMT over an in-memory database; the stored root is compared with the root of the expected content; a case is one update", func(h *vlib.H) {
		for n := 0; n < h.N(120, 8000) && h.More(); n++ {
			r := h.Rng
			c := &conn{MemStore: vtrie.NewStore(), failAt: -1}
			kv := map[string]string{}
			mode := r.Intn(5)
			desc := ""
			for round := 0; round < 1+r.Intn(5); round++ {
				up := map[string][]byte{}
				have := vtrie.Keys(kv)
				for k := 1 + r.Intn([]int{3, 12, 40}[r.Intn(3)]); k > 0; k-- {
					key := vtrie.Key(r, mode)
					if len(have) > 0 && r.Intn(3) == 0 {
						key = have[r.Intn(len(have))]
					}
					if len(kv) > 1 && r.Intn(3) == 0 {
						up[key] = nil
						if r.Intn(2) == 0 {
							up[key] = []byte{}
						}
					} else {
						up[key] = h.Bytes([]int{32, 32, 64, 96, 1, 33}[r.Intn(6)])
					}
				}
				keys := make([]string, 0, len(up))
				for k := range up {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
				if r.Intn(6) == 0 {
					sort.Strings(keys)
				}
				// Keep the tree from becoming empty: see TestVerifC13Emptied.
				up[keys[len(keys)-1]] = h.Bytes(32)
				c.bundles, c.given, c.asked, c.failAt, c.endDone = nil, 0, 0, -1, r.Intn(2) == 0
				var cur []db.DomainEntryRecord
				size := 1 + r.Intn(len(keys)+1)
				for _, k := range keys {
					var id common.SHA256Output
					copy(id[:], k)
					cur = append(cur, db.DomainEntryRecord{DomainID: id, Payload: up[k]})
					if len(cur) == size {
						c.bundles = append(c.bundles, cur)
						cur = nil
					}
				}
				if len(cur) > 0 {
					c.bundles = append(c.bundles, cur)
				}
				want := map[string]string{}
				for k, v := range kv {
					want[k] = v
				}
				for k, p := range up {
					if len(p) == 0 {
						delete(want, k)
					} else {
						v := sha256.Sum256(p)
						want[k] = string(v[:])
					}
				}
				desc += fmt.Sprintf(" [%d entries, bundles of %d, %d keys after]", len(keys), size, len(want))
				in := func() string { return fmt.Sprintf("history #%d%s, last update %x", n, desc, keys) }
				h.Case(fmt.Sprint(n, desc))
				if r.Intn(12) == 0 {
					old := *c
					c.failAt = r.Intn(len(c.bundles))
					if err := updater.UpdateSMT(ctx, c); err == nil {
						h.Fail("error", "%s: no error although bundle %d could not be read", in(), c.failAt)
					}
					// The dirty domains are still there: the update is tried again on what is stored now.
					c.failAt, c.given, c.asked = old.failAt, old.given, old.asked
				}
				var err error
				if !h.Try("update", in, func() { err = updater.UpdateSMT(ctx, c) }) {
					break
				}
				if err != nil {
					h.Fail("update", "%s: %v", in(), err)
					break
				}
				if c.given != len(keys) {
					h.Fail("bundles", "%s: %d of %d entries were read", in(), c.given, len(keys))
				}
				kv = want
				if c.root == nil || !bytes.Equal(c.root[:], vtrie.Root(kv, vtrie.Keys(kv), 0)) {
					h.Fail("root", "%s: the stored root is not the root of the expected content", in())
					break
				}
			}
			// Nothing dirty: nothing changes.
			c.bundles = nil
			old := c.root
			if err := updater.UpdateSMT(ctx, c); err != nil || c.root != old {
				h.Fail("nothing-dirty", "without dirty domains: error %v, root changed %v", err, c.root != old)
			}
		}
	})
}

// The last domain losing its payload leaves an empty map.
func TestVerifC13Emptied(t *testing.T) {
	ctx := context.Background()
	vlib.Run(t, "the map's only domain is deleted", func(h *vlib.H) {
		c := &conn{MemStore: vtrie.NewStore(), failAt: -1, endDone: true}
		id := common.SHA256Output{1}
		c.bundles = [][]db.DomainEntryRecord{{{DomainID: id, Payload: []byte{1}}}}
		h.Case("emptied")
		if err := updater.UpdateSMT(ctx, c); err != nil {
			h.Fail("update", "%v", err)
		}
		c.bundles = [][]db.DomainEntryRecord{{{DomainID: id}}}
		func() {
			defer func() {
				if p := recover(); p != nil {
					h.Fail("emptied-tree", "UpdateSMT panics when the last domain is deleted: %v", p)
				}
			}()
			if err := updater.UpdateSMT(ctx, c); err != nil {
				h.Fail("emptied-tree", "UpdateSMT fails when the last domain is deleted: %v", err)
			}
		}()
	})
}
