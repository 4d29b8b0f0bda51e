package c04

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// tables stands for the tables tree and root of MySQL.
type tables struct {
	tree    map[string]string
	root    string
	unknown string // a statement this stand-in does not know: nothing is judged from then on
	down    bool
}

var (
	writeRe = regexp.MustCompile(`^(replace|insert ignore|insert)( into)? (tree|root) ?\(([^)]*)\) ?values ?[(),? ]*(on duplicate key update .*)?$`)
	delRe   = regexp.MustCompile(`^delete from tree where key32 ?(=|in) ?[(),? ]*$`)
	nodeRe  = regexp.MustCompile(`^select value from tree where key32 ?(=|in) ?[(),? ]*( limit 1)?$`)
	rootRe  = regexp.MustCompile(`^select key32 from root( limit 1)?$`)
	errDown = errors.New("server is down")
)

func norm(q string) string {
	q = strings.ToLower(strings.Join(strings.Fields(strings.ReplaceAll(q, "`", "")), " "))
	return strings.TrimSuffix(q, ";")
}

func str(x any) string {
	switch x := x.(type) {
	case []byte:
		return string(x)
	case string:
		return x
	}
	return fmt.Sprint(x)
}

func (w *tables) exec(q string, args []any) (int64, error) {
	if w.down {
		return 0, errDown
	}
	n := norm(q)
	if m := writeRe.FindStringSubmatch(n); m != nil {
		cols := strings.Split(strings.ReplaceAll(m[4], " ", ""), ",")
		if len(args)%len(cols) != 0 || strings.Count(n, "?") != len(args) || len(args) == 0 {
			return 0, fmt.Errorf("bad statement: %d arguments, %d placeholders", len(args), strings.Count(n, "?"))
		}
		var rows int64
		for i := 0; i < len(args); i += len(cols) {
			v := map[string]string{}
			for j, c := range cols {
				v[c] = str(args[i+j])
			}
			if len(v["key32"]) != 32 {
				return rows, fmt.Errorf("key of %d bytes", len(v["key32"]))
			}
			if m[3] == "root" {
				if w.root == "" || m[1] == "replace" || m[5] != "" {
					w.root = v["key32"]
				} else if m[1] == "insert" {
					return rows, errors.New("duplicate key")
				}
			} else {
				_, had := w.tree[v["key32"]]
				if !had || m[1] == "replace" || m[5] != "" {
					w.tree[v["key32"]] = v["value"]
				} else if m[1] == "insert" {
					return rows, errors.New("duplicate key")
				}
			}
			rows++
		}
		return rows, nil
	}
	if delRe.MatchString(n) {
		if strings.Count(n, "?") != len(args) || len(args) == 0 {
			return 0, errors.New("bad statement")
		}
		var rows int64
		for _, a := range args {
			if _, ok := w.tree[str(a)]; ok {
				rows++
			}
			delete(w.tree, str(a))
		}
		return rows, nil
	}
	w.unknown = q
	return 0, nil
}

func (w *tables) query(q string, args []any) ([]string, [][]any, error, error) {
	if w.down {
		return nil, nil, errDown, nil
	}
	n := norm(q)
	if rootRe.MatchString(n) {
		if w.root == "" {
			return []string{"key32"}, nil, nil, nil
		}
		return []string{"key32"}, [][]any{{[]byte(w.root)}}, nil, nil
	}
	if nodeRe.MatchString(n) && len(args) == 1 {
		v, ok := w.tree[str(args[0])]
		if !ok {
			return []string{"value"}, nil, nil, nil
		}
		return []string{"value"}, [][]any{{[]byte(v)}}, nil, nil
	}
	w.unknown = q
	return []string{"x"}, nil, nil, nil
}

type store interface {
	trie.DBConn
	LoadRoot(context.Context) (*common.SHA256Output, error)
	SaveRoot(context.Context, *common.SHA256Output) error
}

func TestVerifC04Tables(t *testing.T) {
	vlib.Run(t, "random nodes written, replaced, deleted and read back through the real node table functions over a stand-in for the tables tree and root (also with the server down), and trees updated, committed and reloaded over them; a case is one history", func(h *vlib.H) {
		ctx := context.Background()
		n := h.N(400, 8000)
		for c := 0; c < n && h.More(); c++ {
			r := h.Rng
			w := &tables{tree: map[string]string{}}
			conn, err := mysql.NewMysqlDB((&vlib.SQL{Query: w.query, Exec: w.exec}).Open())
			if err != nil {
				t.Fatal(err)
			}
			st, ok := any(conn).(store)
			if !ok {
				return // not the functions this test knows
			}
			key := func(i int) (k common.SHA256Output) {
				copy(k[:], fmt.Sprintf("node %d", i))
				k[31] = byte(i)
				return
			}
			desc := ""
			ref := map[common.SHA256Output]string{}
			h.Try("panic-tables", func() string { return desc }, func() {
				for step := 1 + r.Intn(10); step > 0; step-- {
					w.down = r.Intn(8) == 0
					switch r.Intn(3) {
					case 0:
						perm := r.Perm(12)[:1+r.Intn(6)]
						var recs []*db.TreeNodeRecord
						for _, i := range perm {
							v := make([]byte, r.Intn(80)+1)
							r.Read(v)
							recs = append(recs, &db.TreeNodeRecord{Key: key(i), Value: v})
						}
						desc += fmt.Sprintf("write %v down=%v; ", perm, w.down)
						_, err := st.UpdateTreeNodes(ctx, recs)
						if (err != nil) != w.down && w.unknown == "" {
							h.Fail("table-write-error", "%s: error %v", desc, err)
							return
						}
						if err == nil {
							for _, rec := range recs {
								ref[rec.Key] = string(rec.Value)
							}
						}
					case 1:
						perm := r.Perm(12)[:1+r.Intn(4)]
						var ks []common.SHA256Output
						for _, i := range perm {
							ks = append(ks, key(i))
						}
						desc += fmt.Sprintf("delete %v down=%v; ", perm, w.down)
						_, err := st.DeleteTreeNodes(ctx, ks)
						if (err != nil) != w.down && w.unknown == "" {
							h.Fail("table-delete-error", "%s: error %v", desc, err)
							return
						}
						if err == nil {
							for _, k := range ks {
								delete(ref, k)
							}
						}
					case 2:
						var k common.SHA256Output
						r.Read(k[:])
						old, lerr := st.LoadRoot(ctx)
						err := st.SaveRoot(ctx, &k)
						desc += fmt.Sprintf("root %x down=%v; ", k[:4], w.down)
						if ((err != nil) != w.down || (lerr != nil) != w.down) && w.unknown == "" {
							h.Fail("root-error", "%s: errors %v, %v", desc, lerr, err)
							return
						}
						_ = old
						if err == nil {
							got, err := st.LoadRoot(ctx)
							if w.unknown == "" && (err != nil || got == nil || *got != k) {
								h.Fail("root", "%s: loaded %v (%v)", desc, got, err)
								return
							}
						}
					}
					down := w.down
					for i := 0; i < 12; i++ {
						w.down = down && i%2 == 0
						got, err := st.RetrieveTreeNode(ctx, key(i))
						if w.unknown != "" {
							return
						}
						if (err != nil) != w.down {
							h.Fail("table-read-error", "%s: node %d: error %v", desc, i, err)
							return
						}
						if err == nil && string(got) != ref[key(i)] {
							h.Fail("table-read", "%s: node %d: got %x want %x", desc, i, got, ref[key(i)])
							return
						}
					}
				}
			})
			w.down = false
			if c%20 == 0 && w.unknown == "" { // many nodes at once, also around round numbers
				sizes := []int{99, 100, 101, 255, 256, 257, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2001, 2500}
				size := sizes[(c/20)%len(sizes)]
				if c >= 20*len(sizes) {
					size = 1 + r.Intn(4000)
				}
				h.Try("panic-many", func() string { return fmt.Sprint(size, " nodes") }, func() {
					big := func(i int) (k common.SHA256Output) {
						copy(k[:], common.SHA256Hash([]byte(fmt.Sprint("big", i))))
						return
					}
					var recs []*db.TreeNodeRecord
					var ks []common.SHA256Output
					for i := 0; i < size; i++ {
						recs = append(recs, &db.TreeNodeRecord{Key: big(i), Value: []byte(fmt.Sprint("value", i))})
						if i%3 != 1 || i == size-1 {
							ks = append(ks, big(i))
						}
					}
					if _, err := st.UpdateTreeNodes(ctx, recs); err != nil && w.unknown == "" {
						h.Fail("many-write", "%d nodes: %v", size, err)
					}
					for i := 0; i < size && w.unknown == ""; i++ {
						if w.tree[string(recs[i].Key[:])] != string(recs[i].Value) {
							h.Fail("many-write", "%d nodes written at once: node %d is not in the table", size, i)
							return
						}
					}
					if _, err := st.DeleteTreeNodes(ctx, ks); err != nil && w.unknown == "" {
						h.Fail("many-delete", "%d nodes: %v", len(ks), err)
					}
					for i := 0; i < size && w.unknown == ""; i++ {
						_, has := w.tree[string(recs[i].Key[:])]
						if has != (i%3 == 1 && i != size-1) {
							h.Fail("many-delete", "%d of %d nodes deleted at once: node %d is in the table: %v", len(ks), size, i, has)
							return
						}
					}
				})
			}
			// a tree over these tables
			w.tree, w.root = map[string]string{}, ""
			kv := map[string]string{}
			h.Try("panic-tree", func() string { return desc }, func() {
				var tr *trie.Trie
				for step := 1 + r.Intn(5); step > 0; step-- {
					root, err := st.LoadRoot(ctx)
					if err != nil || w.unknown != "" {
						break
					}
					var rb []byte
					if root != nil {
						rb = root[:]
					}
					if tr, err = trie.NewTrie(rb, common.SHA256Hash, st); err != nil {
						h.Fail("tree", "%s: %v", desc, err)
						return
					}
					ks := map[string]string{}
					for i := 1 + r.Intn(20); i > 0; i-- {
						k := common.SHA256Hash([]byte(fmt.Sprint("key", r.Intn(40))))
						v := common.SHA256Hash([]byte(fmt.Sprint("val", r.Intn(40))))
						if _, had := kv[string(k)]; had && r.Intn(4) == 0 && len(kv) > len(ks)+30 {
							v = trie.DefaultLeaf
						}
						ks[string(k)] = string(v)
					}
					keys, vals := [][]byte{}, [][]byte{}
					for k := range ks {
						keys = append(keys, []byte(k))
					}
					sortKeys(keys)
					for _, k := range keys {
						vals = append(vals, []byte(ks[string(k)]))
					}
					newRoot, err := tr.Update(ctx, keys, vals)
					if err == nil {
						err = tr.Commit(ctx)
					}
					if w.unknown != "" {
						return
					}
					if err != nil || len(newRoot) != 32 {
						h.Fail("tree-commit", "%s step %d: root %x, error %v", desc, step, newRoot, err)
						return
					}
					var so common.SHA256Output
					copy(so[:], newRoot)
					if err := st.SaveRoot(ctx, &so); err != nil {
						h.Fail("tree-root", "%s: %v", desc, err)
						return
					}
					for k, v := range ks {
						if v == string(trie.DefaultLeaf) {
							delete(kv, k)
						} else {
							kv[k] = v
						}
					}
					again, err := trie.NewTrie(newRoot, common.SHA256Hash, st)
					if err != nil {
						h.Fail("tree", "%s: %v", desc, err)
						return
					}
					for i := 0; i < 40; i++ {
						k := common.SHA256Hash([]byte(fmt.Sprint("key", i)))
						v, err := again.Get(ctx, k)
						if err != nil || string(v) != kv[string(k)] {
							h.Fail("tree-get", "step %d: key%d: got %x (%v) want %x", step, i, v, err, kv[string(k)])
							return
						}
					}
				}
			})
			h.Case(desc)
		}
	})
}

func sortKeys(k [][]byte) {
	for i := range k {
		for j := i; j > 0 && string(k[j]) < string(k[j-1]); j-- {
			k[j], k[j-1] = k[j-1], k[j]
		}
	}
}
