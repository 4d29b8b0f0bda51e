package c15

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

var errDB = errors.New("injected database failure")

type row struct{ certs, pols []byte }

type world struct {
	mu      sync.Mutex
	parts   map[int][]string // partition -> sorted dirty IDs
	rows    map[string]row   // domain_payloads
	seed    int
	failAt  int
	n       int
	unknown string
}

var reDirty = regexp.MustCompile(`(?is)^\s*SELECT\s+domain_id\s+FROM\s+dirty\s+PARTITION\s*\(p(\d+)\)\s+ORDER\s+BY\s+domain_id\s+LIMIT\s+\?\s*,\s*\?`)
var rePay = regexp.MustCompile(`(?is)^\s*SELECT\s+domain_id,\s*cert_ids,\s*policy_ids\s+FROM\s+domain_payloads\s+WHERE\s+domain_id\s+IN`)

func (w *world) query(q string, args []any) ([]string, [][]any, error, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	if w.n == w.failAt {
		if w.seed%2 == 0 {
			return []string{"a"}, nil, nil, errDB
		}
		return nil, nil, errDB, nil
	}
	if m := reDirty.FindStringSubmatch(q); m != nil && len(args) == 2 {
		p, _ := strconv.Atoi(m[1])
		off, lim := int(args[0].(int64)), int(args[1].(int64))
		ids := w.parts[p]
		if off > len(ids) {
			off = len(ids)
		}
		if lim > len(ids)-off {
			lim = len(ids) - off
		}
		var rows [][]any
		for _, id := range ids[off : off+lim] {
			rows = append(rows, []any{[]byte(id)})
		}
		return []string{"domain_id"}, rows, nil, nil
	}
	if rePay.MatchString(q) && strings.Count(q, "?") == len(args) {
		var rows [][]any
		done := map[string]bool{}
		for i := range args { // some other order than asked for
			k := string(args[(i*7+w.seed)%len(args)].([]byte))
			if len(args)%7 == 0 {
				k = string(args[len(args)-1-i].([]byte))
			}
			if r, ok := w.rows[k]; ok && !done[k] {
				done[k] = true
				rows = append(rows, []any{[]byte(k), r.certs, r.pols})
			}
		}
		return []string{"domain_id", "cert_ids", "policy_ids"}, rows, nil, nil
	}
	w.unknown = q
	return nil, nil, errors.New("query not understood by the stand-in database"), nil
}

func payload(r row) string {
	var ids []string
	all := string(r.certs) + string(r.pols)
	for i := 0; i+32 <= len(all); i += 32 {
		ids = append(ids, all[i:i+32])
	}
	sort.Strings(ids)
	return strings.Join(ids, "")
}

func TestVerifC15(t *testing.T) {
	ctx := context.Background()
	vlib.Run(t, "random spreads of dirty domains over the 32 partitions (skewed, empty, single, even), with and without payloads, read bundle after bundle with random bundle sizes through the real function over a stand-in SQL driver, also with failing queries retried at the same cursor; a case is one complete reading", func(h *vlib.H) {
		for n := 0; n < h.N(400, 30000) && h.More(); n++ {
			r := h.Rng
			w := &world{parts: map[int][]string{}, rows: map[string]row{}, seed: r.Intn(1000), failAt: -1}
			total := []int{0, 1, 2, r.Intn(40), r.Intn(300), 31, 32, 33, 64}[r.Intn(9)]
			mode := r.Intn(4)
			one := r.Intn(mysql.NumPartitions)
			for i := 0; i < total; i++ {
				p := r.Intn(mysql.NumPartitions)
				switch mode {
				case 1:
					p = one
				case 2:
					p = i % mysql.NumPartitions
				case 3:
					p = (one + r.Intn(3)) % mysql.NumPartitions
				}
				id := string(h.Bytes(32))
				w.parts[p] = append(w.parts[p], id)
				switch r.Intn(4) {
				case 0: // no payload
				case 1:
					w.rows[id] = row{certs: h.Bytes(32 * r.Intn(3))}
				default:
					w.rows[id] = row{h.Bytes(32 * r.Intn(3)), h.Bytes(32 * r.Intn(3))}
				}
			}
			for p := range w.parts {
				sort.Strings(w.parts[p])
			}
			size := func() uint64 {
				return uint64([]int{1, 2, 3, 7, 31, 32, 33, 100, total + 1, total, total/2 + 1}[r.Intn(11)])
			}
			fixed := size()
			if fixed == 0 {
				fixed = 1
			}
			vary := r.Intn(3) == 0
			key := fmt.Sprintf("%d domains, mode %d, bundle %d, varying %v, #%d", total, mode, fixed, vary, n)
			h.Case(key)
			conn, err := mysql.NewMysqlDB((&vlib.SQL{Query: w.query}).Open())
			if err != nil {
				t.Fatal(err)
			}
			var cursor *db.DirtyDomainEntriesCursor
			seen := map[string]bool{}
			for calls := 0; ; calls++ {
				if calls > 4*total+80 {
					h.Fail("termination", "%s: no end after %d bundles", key, calls)
					break
				}
				s := fixed
				if vary {
					if s = size(); s == 0 {
						s = 1
					}
				}
				w.n, w.failAt = 0, -1
				inject := r.Intn(10) == 0
				if inject {
					w.failAt = 1 + r.Intn(3)
				}
				before := ""
				if cursor != nil {
					before = fmt.Sprint(*cursor)
				}
				var entries []db.DomainEntryRecord
				var next *db.DirtyDomainEntriesCursor
				var done bool
				if !h.Try("bundle", func() string { return key }, func() {
					entries, next, done, err = conn.RetrieveDomainEntriesDirtyBundle(ctx, cursor, s)
				}) {
					break
				}
				if w.unknown != "" {
					h.Note("query not understood: %.80s", w.unknown)
					return
				}
				ke, kn := entries, next
				h.Keep(key, func() string { return fmt.Sprintf("%x %v", ke, kn) })
				if cursor != nil && before != fmt.Sprint(*cursor) {
					h.Fail("cursor", "%s: the cursor passed in was modified", key)
				}
				if inject && w.n >= w.failAt {
					if err == nil {
						h.Fail("error", "%s: no error although the database reported one", key)
						break
					}
					continue // retry at the same cursor: nothing may be lost
				}
				if err != nil {
					h.Fail("bundle", "%s: %v", key, err)
					break
				}
				if uint64(len(entries)) > s {
					h.Fail("size", "%s: bundle of %d entries, at most %d asked for", key, len(entries), s)
				}
				for _, e := range entries {
					id := string(e.DomainID[:])
					if seen[id] {
						h.Fail("twice", "%s: domain %x handed out twice", key, id)
					}
					seen[id] = true
					if !bytes.Equal(e.Payload, []byte(payload(w.rows[id]))) {
						h.Fail("payload", "%s: domain %x comes with another payload than its own", key, id)
					}
				}
				left := total - len(seen)
				if (len(entries) == 0 || done) && left > 0 {
					h.Fail("lost", "%s: end signalled (entries %d, done %v) with %d domains left", key, len(entries), done, left)
					break
				}
				if left < 0 {
					h.Fail("invented", "%s: %d more domains than dirty", key, -left)
				}
				cursor = next
				if done || len(entries) == 0 {
					break
				}
			}
		}
		// No bundle size: refused.
		w := &world{parts: map[int][]string{}, rows: map[string]row{}, failAt: -1}
		conn, _ := mysql.NewMysqlDB((&vlib.SQL{Query: w.query}).Open())
		if _, _, _, err := conn.RetrieveDomainEntriesDirtyBundle(ctx, nil, 0); err == nil {
			h.Fail("size", "a bundle size of zero is accepted")
		}
		var _ common.SHA256Output
	})
}
