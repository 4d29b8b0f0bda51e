package c30

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// table stands for ctlog_server_last_status: url_hash is its key.
type table struct {
	rows    map[string]map[string]any
	down    bool
	unknown string
}

var (
	reSelect = regexp.MustCompile(`(?i)^SELECT ([a-z_, ]+) FROM ctlog_server_last_status WHERE url_hash ?= ?\?;?$`)
	reWrite  = regexp.MustCompile(`(?i)^(REPLACE|INSERT IGNORE|INSERT) INTO ctlog_server_last_status ?\(([a-z_, ]+)\) VALUES ?\( ?\? ?, ?\? ?, ?\? ?\);?$`)
)

func columns(s string) (r []string) {
	for _, c := range strings.Split(s, ",") {
		r = append(r, strings.ToLower(strings.TrimSpace(c)))
	}
	return
}
func str(x any) string {
	if b, ok := x.([]byte); ok {
		return string(b)
	}
	return fmt.Sprint(x)
}

func (w *table) query(q string, args []any) ([]string, [][]any, error, error) {
	m := reSelect.FindStringSubmatch(strings.Join(strings.Fields(q), " "))
	if m == nil || len(args) != 1 {
		w.unknown = q
		return []string{"x"}, nil, nil, nil
	}
	if w.down {
		return nil, nil, driver.ErrSkip, nil
	}
	cols := columns(m[1])
	row, ok := w.rows[str(args[0])]
	if !ok {
		return cols, nil, nil, nil
	}
	var r []any
	for _, c := range cols {
		r = append(r, row[c])
	}
	return cols, [][]any{r}, nil, nil
}

func (w *table) exec(q string, args []any) (int64, error) {
	m := reWrite.FindStringSubmatch(strings.Join(strings.Fields(q), " "))
	if m == nil || len(args) != 3 {
		w.unknown = q
		return 0, nil
	}
	if w.down {
		return 0, errors.New("server has gone away")
	}
	row := map[string]any{}
	for i, c := range columns(m[2]) {
		row[c] = args[i]
	}
	k := str(row["url_hash"])
	if _, ok := w.rows[k]; ok && !strings.EqualFold(m[1], "REPLACE") {
		if strings.EqualFold(m[1], "INSERT") {
			return 0, errors.New("duplicate key")
		}
		return 0, nil
	}
	w.rows[k] = row
	return 1, nil
}

// TestVerifC30Table compares the real functions for the recorded positions with a map.
func TestVerifC30Table(t *testing.T) {
	vlib.Run(t, "random histories of recording and asking the positions of some logs through the real mysql functions over a stand-in for their table, also with the server down; a case is one history", func(h *vlib.H) {
		type state struct {
			size int64
			sth  string
		}
		ctx := context.Background()
		for n := 0; n < h.N(400, 8000) && h.More(); n++ {
			r := h.Rng
			w := &table{rows: map[string]map[string]any{}}
			conn, err := mysql.NewMysqlDB((&vlib.SQL{Query: w.query, Exec: w.exec}).Open())
			if err != nil {
				t.Fatal(err)
			}
			ref := map[string]state{}
			desc := ""
			h.Try("table-panic", func() string { return desc }, func() {
				for k := 1 + r.Intn(12); k > 0; k-- {
					url := []string{"a", "b", "https://log.example/2026/", "https://log.example/2026", ""}[r.Intn(5)]
					w.down = r.Intn(6) == 0
					if r.Intn(2) == 0 {
						s := state{r.Int63n(1 << 40), string(h.Bytes(r.Intn(4)))}
						if r.Intn(8) == 0 {
							s.size = 1<<62 + int64(r.Intn(9))
						}
						err := conn.UpdateLastCTlogServerState(ctx, url, s.size, []byte(s.sth))
						desc += fmt.Sprintf(" record %q %d %x (down %v);", url, s.size, s.sth, w.down)
						if w.unknown != "" {
							return
						}
						if (err != nil) != w.down {
							h.Fail("table-error", "%s: error %v", desc, err)
						}
						if !w.down {
							ref[url] = s
						}
						continue
					}
					size, sth, err := conn.LastCTlogServerState(ctx, url)
					desc += fmt.Sprintf(" ask %q (down %v);", url, w.down)
					if w.unknown != "" {
						return
					}
					if (err != nil) != w.down {
						h.Fail("table-error", "%s: error %v", desc, err)
					}
					if want := ref[url]; err == nil && (size != want.size || string(sth) != want.sth) {
						h.Fail("table", "%s: got %d %x, want %d %x", desc, size, sth, want.size, want.sth)
					}
				}
			})
			h.Case(desc)
		}
	})
}
