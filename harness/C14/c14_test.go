package c14

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

type api interface {
	CheckCertsExist(context.Context, []common.SHA256Output) ([]bool, error)
	CheckPoliciesExist(context.Context, []common.SHA256Output) ([]bool, error)
	RetrieveCertificatePayloads(context.Context, []common.SHA256Output) ([][]byte, error)
	RetrievePolicyPayloads(context.Context, []common.SHA256Output) ([][]byte, error)
}

var errDB = errors.New("injected database failure")

// world is a stand-in for the two tables; the database truncates GROUP_CONCAT answers at
// 1024 characters, the default of MySQL.
type world struct {
	h       *vlib.H
	tables  map[string]map[string][]byte // "certs", "policies"
	queries int
	failAt  int // this query fails
	halfAt  int // this query fails while its rows are read
	unknown string
}

func (w *world) query(q string, args []any) ([]string, [][]any, error, error) {
	n := w.queries
	w.queries++
	if n == w.failAt {
		return nil, nil, errDB, nil
	}
	table := ""
	if strings.Contains(q, "cert_id") && !strings.Contains(q, "policy_id") {
		table = "certs"
	} else if strings.Contains(q, "policy_id") && !strings.Contains(q, "cert_id") {
		table = "policies"
	}
	t := w.tables[table]
	var iter error
	if n == w.halfAt {
		iter = errDB
	}
	switch {
	case t != nil && strings.Contains(q, "GROUP_CONCAT") && strings.Count(q, "?") == len(args):
		var b strings.Builder
		for _, a := range args {
			if _, ok := t[string(a.([]byte))]; ok {
				b.WriteByte('1')
			} else {
				b.WriteByte('0')
			}
		}
		s := b.String()
		if len(s) > 1024 {
			s = s[:1024]
		}
		if iter != nil {
			return []string{"x"}, nil, nil, iter
		}
		return []string{"x"}, [][]any{{s}}, nil, nil
	case t != nil && strings.HasPrefix(q, "SELECT") && strings.Contains(q, "payload") && strings.Contains(q, " IN ") && strings.Count(q, "?") == len(args):
		var rows [][]any
		done := map[string]bool{}
		for _, i := range w.h.Rng.Perm(len(args)) { // any order, each stored row once
			k := string(args[i].([]byte))
			if v, ok := t[k]; ok && !done[k] {
				done[k] = true
				rows = append(rows, []any{[]byte(k), append([]byte(nil), v...)})
			}
		}
		if iter != nil {
			rows = rows[:w.h.Rng.Intn(len(rows)+1)]
		}
		return []string{"id", "payload"}, rows, nil, iter
	}
	w.unknown = q
	return nil, nil, errors.New("query not understood by the stand-in database"), nil
}

func TestVerifC14(t *testing.T) {
	ctx := context.Background()
	vlib.Run(t, "random tables and lists of IDs (0 to 3100, around the multiples of 1000 and 1024, with repetitions) asked through the real functions over a stand-in SQL driver with random row orders, failing queries and failing iterations; a case is one call, distinct by function, size and failure", func(h *vlib.H) {
		sizes := []int{0, 1, 2, 3, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2048, 2049, 3000, 3100}
		for n := 0; n < h.N(250, 20000) && h.More(); n++ {
			r := h.Rng
			w := &world{h: h, tables: map[string]map[string][]byte{"certs": {}, "policies": {}}, failAt: -1, halfAt: -1}
			conn, err := mysql.NewMysqlDB((&vlib.SQL{Query: w.query}).Open())
			if err != nil {
				t.Fatal(err)
			}
			var a api = conn
			size := r.Intn(40)
			if n%4 == 0 {
				size = sizes[(n/4)%len(sizes)]
			}
			ids := make([]common.SHA256Output, size)
			for i := range ids {
				copy(ids[i][:], h.Bytes(32))
				if i > 0 && r.Intn(8) == 0 {
					ids[i] = ids[r.Intn(i)]
				}
				for name := range w.tables {
					if r.Intn(2) == 0 {
						w.tables[name][string(ids[i][:])] = append([]byte(name), ids[i][:r.Intn(32)]...)
					}
				}
			}
			fail := ""
			switch r.Intn(3) {
			case 0:
				w.failAt = r.Intn(4)
				fail = fmt.Sprint("query ", w.failAt, " fails")
			case 1:
				w.halfAt = r.Intn(3)
				fail = fmt.Sprint("query ", w.halfAt, " fails halfway")
			}
			for _, name := range []string{"certs", "policies"} {
				for _, kind := range []string{"exist", "payloads"} {
					if kind == "payloads" && size == 0 {
						continue
					}
					w.queries = 0
					var present []bool
					var payloads [][]byte
					var err error
					key := fmt.Sprintf("%s-%s n=%d %s", name, kind, size, fail)
					h.Case(key)
					f := map[string]func(){
						"certs-exist":       func() { present, err = a.CheckCertsExist(ctx, ids) },
						"policies-exist":    func() { present, err = a.CheckPoliciesExist(ctx, ids) },
						"certs-payloads":    func() { payloads, err = a.RetrieveCertificatePayloads(ctx, ids) },
						"policies-payloads": func() { payloads, err = a.RetrievePolicyPayloads(ctx, ids) },
					}[name+"-"+kind]
					if !h.Try(name+"-"+kind, func() string { return key }, f) {
						continue
					}
					if w.unknown != "" {
						h.Note("query not understood: %.80s", w.unknown)
						w.unknown = ""
						continue
					}
					failed := (w.failAt >= 0 && w.failAt < w.queries) || (w.halfAt >= 0 && w.halfAt < w.queries)
					if failed {
						if err == nil {
							h.Fail(name+"-"+kind+"-error", "%s: no error although the database reported one", key)
						}
						continue
					}
					if err != nil {
						h.Fail(name+"-"+kind, "%s: %v", key, err)
						continue
					}
					kp, ky := present, payloads
					h.Keep(key, func() string { return fmt.Sprint(kp, " ") + fmt.Sprintf("%x", ky) })
					if kind == "exist" {
						if len(present) != size {
							h.Fail(name+"-exist", "%s: %d answers", key, len(present))
							continue
						}
						for i, id := range ids {
							if _, ok := w.tables[name][string(id[:])]; ok != present[i] {
								h.Fail(name+"-exist", "%s: ID %d stored %v, reported %v", key, i, ok, present[i])
								break
							}
						}
					} else {
						if len(payloads) != size {
							h.Fail(name+"-payloads", "%s: %d payloads", key, len(payloads))
							continue
						}
						for i, id := range ids {
							if string(w.tables[name][string(id[:])]) != string(payloads[i]) {
								h.Fail(name+"-payloads", "%s: payload %d is not that of its ID", key, i)
								break
							}
						}
					}
				}
			}
		}
	})
}
