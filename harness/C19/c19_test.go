package c19

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/cmd/ingest/fastcsv"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func field(r *rand.Rand) string {
	n := r.Intn(5)
	if r.Intn(4) == 0 {
		n = 0
	}
	if r.Intn(200) == 0 {
		n = 5000
	}
	b := make([]byte, n)
	for i := range b {
		const alpha = "abcXYZ019+/=;. \t\r#'\\\x00\xff-"
		b[i] = alpha[r.Intn(len(alpha))]
	}
	return string(b)
}

func row(r *rand.Rand) string {
	var f []string
	for n := r.Intn(10); n > 0; n-- {
		s := field(r)
		if r.Intn(8) == 0 { // quoted
			s = `"` + strings.ReplaceAll(s+[]string{"", ",", `"`, ",x"}[r.Intn(4)], `"`, `""`) + `"`
		}
		if r.Intn(40) == 0 { // stray quote
			s += `"`
		}
		f = append(f, s)
	}
	if r.Intn(4) > 0 {
		e := []string{"1700000000.0", "1.5", "0.0", "1.", ".1", "1", "12a.0", "1.0.0", "-1.0", "", "1.0 ", "99999999999999999999.123", "2.3"}
		k := len(e)
		if r.Intn(2) == 0 {
			k = 3
		}
		f = append(f, e[r.Intn(k)])
	}
	return strings.Join(f, ",")
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

func TestVerifC19Row(t *testing.T) {
	restore := fastcsv.SetStderr(io.Discard)
	defer restore()
	vlib.Run(t, "rows of 0..10 fields (empty, quoted, stray quotes, odd bytes, long), with or without final newline or CRLF, expiration of many shapes; oracle: encoding/csv on the same row; non-trivial: accepted rows", func(h *vlib.H) {
		n := h.N(80000, 1500000)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			s := row(r)
			line := s + []string{"\n", "\r\n", "", "\n\n"}[r.Intn(4)]
			trimmed := strings.TrimRight(line, "\r\n")
			rd := csv.NewReader(strings.NewReader(trimmed))
			rd.FieldsPerRecord = -1
			f, err := rd.Read()
			std := err == nil && len(f) >= 5
			buf := append(make([]byte, 0, len(line)+r.Intn(3)), line...)
			var key string
			ok := h.Try("panic", func() string { return fmt.Sprintf("%q", line) }, func() {
				res := fastcsv.ParseRowFast([]byte(trimmed))
				if res.Disposition == fastcsv.ParseFastOK {
					if !std || string(res.CertField) != f[3] || string(res.ChainField) != f[4] || string(res.ExpirationField) != f[len(f)-1] {
						h.Fail("fast", "ParseRowFast(%q) = %q %q %q, standard reader: %q %v", trimmed, res.CertField, res.ChainField, res.ExpirationField, f, err)
					}
				}
				got, perr := fastcsv.ParseLine(buf, "f", k)
				if perr == nil {
					h.Keep(line, func() string {
						return string(got.CertField) + " " + string(got.ChainField) + " " + string(got.ExpirationField)
					})
					key = line
					if !std || string(got.CertField) != f[3] || string(got.ChainField) != f[4] || string(got.ExpirationField) != f[len(f)-1] || got.Number != k {
						h.Fail("line", "ParseLine(%q) = %q %q %q, standard reader: %q %v", line, got.CertField, got.ChainField, got.ExpirationField, f, err)
					}
				} else if std && f[3] != "" && f[len(f)-1] != "" {
					h.Fail("rejected", "ParseLine(%q) = %v, standard reader: %q", line, perr, f)
				}
				if string(buf) != line {
					h.Fail("frame", "ParseLine modified its input %q", line)
				}
				// the fast path takes every unquoted row of the supported shape
				if std && !strings.Contains(trimmed, `"`) && f[3] != "" {
					e := strings.Split(f[len(f)-1], ".")
					if len(e) == 2 && digits(e[0]) && digits(e[1]) && res.Disposition != fastcsv.ParseFastOK {
						h.Fail("notfast", "ParseRowFast(%q) = %v %s", trimmed, res.Disposition, res.Reason)
					}
				}
			})
			if !ok {
				return
			}
			h.Case(key)
		}
		_ = bytes.MinRead
	})
}
