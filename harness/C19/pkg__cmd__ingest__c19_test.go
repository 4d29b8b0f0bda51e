package main

import (
	"encoding/csv"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/cmd/ingest/fastcsv"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func TestVerifC19Split(t *testing.T) {
	vlib.Run(t, "semicolon-separated fields of 0..6 parts (empty parts included); oracle: strings.Split; non-trivial: at least two parts", func(h *vlib.H) {
		r := h.Rng
		for k := 0; k < h.N(20000, 300000) && h.More(); k++ {
			b := make([]byte, r.Intn(12))
			for i := range b {
				b[i] = ";;ab"[r.Intn(4)]
			}
			in := string(b)
			w := strings.Split(in, ";")
			key := ""
			if len(w) > 1 {
				key = in
			}
			h.Case(key)
			h.Try("split-panic", func() string { return fmt.Sprintf("%q", in) }, func() {
				g := splitSemicolonField(b)
				h.Keep(in, func() string { return fmt.Sprintf("%q", g) })
				if len(g) != len(w) {
					h.Fail("split", "splitSemicolonField(%q) = %q", in, g)
					return
				}
				for i := range g {
					if string(g[i]) != w[i] {
						h.Fail("split", "splitSemicolonField(%q) = %q", in, g)
					}
				}
				if string(b) != in {
					h.Fail("split-frame", "splitSemicolonField modified %q", in)
				}
			})
		}
	})
}

func TestVerifC19File(t *testing.T) {
	restore := fastcsv.SetStderr(io.Discard)
	defer restore()
	vlib.Run(t, "plain CSV files of 0..60 rows (short and longer than the read buffer, LF or CRLF, with or without final newline), read through the file splitter; all lines are compared at the end with the standard reader, so contents handed out earlier must still be intact", func(h *vlib.H) {
		r := h.Rng
		dir, err := os.MkdirTemp("", "c19")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		for k := 0; k < h.N(400, 5000) && h.More(); k++ {
			var sb strings.Builder
			nl := []string{"\n", "\r\n"}[r.Intn(2)]
			n := r.Intn(61)
			for i := 0; i < n; i++ {
				f := []string{"a", "b", "c", fmt.Sprint("CERT", i, "+/="), fmt.Sprint("CH", i, ";X", i)}
				if r.Intn(10) == 0 {
					f[3] += strings.Repeat("Q", r.Intn(9000))
				}
				if r.Intn(10) == 0 {
					f[4] = `"` + f[4] + `"`
				}
				for m := r.Intn(4); m > 0; m-- {
					f = append(f, "")
				}
				f = append(f, fmt.Sprintf("%d.%d", 1700000000+i, i))
				sb.WriteString(strings.Join(f, ","))
				if i < n-1 || r.Intn(2) == 0 {
					sb.WriteString(nl)
				}
			}
			text := sb.String()
			rd := csv.NewReader(strings.NewReader(text))
			rd.FieldsPerRecord = -1
			want, err := rd.ReadAll()
			if err != nil {
				h.Note("standard reader: %v", err)
				continue
			}
			name := filepath.Join(dir, "0-9.csv")
			if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
				t.Fatal(err)
			}
			h.Case(text)
			if !h.Try("file-panic", func() string { return fmt.Sprintf("%q", text) }, func() {
				w := &csvSplitWorker{}
				if err := w.startReadingLines((&util.UncompressedFile{}).WithFile(name)); err != nil {
					h.Fail("file-open", "%v", err)
					return
				}
				var got []line
				for l := range w.lines {
					got = append(got, l)
				}
				err := <-w.done
				h.Keep(text, func() string {
					s := ""
					for _, l := range got {
						s += string(l.certField) + "," + string(l.chainField) + "," + string(l.expirationField) + ";"
					}
					return s
				})
				if err != nil || len(got) != len(want) {
					h.Fail("file-rows", "file %q: %d rows, error %v; want %d rows", text, len(got), err, len(want))
					return
				}
				for i, f := range want {
					if string(got[i].certField) != f[3] || string(got[i].chainField) != f[4] || string(got[i].expirationField) != f[len(f)-1] || got[i].number != i+1 {
						h.Fail("file-row", "file %q: row %d is %q %q %q", text, i, got[i].certField, got[i].chainField, got[i].expirationField)
						return
					}
				}
			}) {
				return
			}
		}
	})
}
