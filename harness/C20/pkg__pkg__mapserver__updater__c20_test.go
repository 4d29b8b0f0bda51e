package updater

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// zzParse reads the rows as the database does: fields terminated by a comma, optionally enclosed
// by double quotes (doubled inside), no escape character, lines terminated by a newline.
func zzParse(b []byte) ([][]string, error) {
	var rows [][]string
	for i := 0; i < len(b); {
		var row []string
		for {
			var f []byte
			if i < len(b) && b[i] == '"' {
				i++
				for {
					if i >= len(b) {
						return nil, fmt.Errorf("unterminated quote")
					}
					if b[i] == '"' {
						if i+1 < len(b) && b[i+1] == '"' {
							f = append(f, '"')
							i += 2
							continue
						}
						i++
						break
					}
					f = append(f, b[i])
					i++
				}
			} else {
				for i < len(b) && b[i] != ',' && b[i] != '\n' {
					f = append(f, b[i])
					i++
				}
			}
			row = append(row, string(f))
			if i >= len(b) {
				return nil, fmt.Errorf("missing final newline")
			}
			if b[i] == ',' {
				i++
				continue
			}
			if b[i] != '\n' {
				return nil, fmt.Errorf("garbage after a quoted field at %d", i)
			}
			i++
			break
		}
		rows = append(rows, row)
	}
	return rows, nil
}

func zzB64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func TestVerifC20Files(t *testing.T) {
	vlib.Run(t, "files for certificates, dirty, domains and domain_certs: batches of 0..6 random records with payloads of 0..300 bytes, names with any bytes (also comma, quote, backslash, newline), storage reused over all batches; read back with the database's rules and compared", func(h *vlib.H) {
		dir, err := os.MkdirTemp("", "c20")
		if err != nil {
			h.Fail("setup", "%v", err)
			return
		}
		defer os.RemoveAll(dir)
		r := h.Rng
		certSt := CreateStorage(1, 4, IdBase64Len, IdBase64Len, ExpTimeBase64Len, PayloadBase64Len)
		dirtySt := CreateStorage(8, 1, IdBase64Len)
		domSt := CreateStorage(8, 2, IdBase64Len, DomainNameLen)
		dcSt := CreateStorage(8, 2, IdBase64Len, IdBase64Len)
		fname := make([]byte, FilepathLen)
		names := []string{"a.com", "", `a\`, "a,b", `"`, `""`, "a\nb", "\n", `\N`, "x\r\ny", "\r", strings.Repeat("z", 400), "ü.com", "a b", `"a",b`}
		n := h.N(1200, 15000)
		for k := 0; k < n && h.More(); k++ {
			cnt := r.Intn(7)
			var certs []Certificate
			var doms []DirtyDomain
			for i := 0; i < cnt; i++ {
				c := Certificate{CertID: h.ID(), NotAfter: time.Unix(r.Int63n(4e9), r.Int63n(1e9)).UTC(), Raw: h.Bytes(r.Intn(300))}
				if r.Intn(4) == 0 {
					c.Raw = nil
				}
				if r.Intn(2) == 0 {
					id := common.SHA256Output(h.ID())
					c.ParentID = &id
				}
				certs = append(certs, c)
				nm := names[r.Intn(len(names))]
				if r.Intn(2) == 0 {
					b := h.Bytes(r.Intn(12))
					for i := range b {
						if r.Intn(3) == 0 {
							b[i] = []byte{',', '"', '\\', '\n', '\r', 'N', 0}[r.Intn(7)]
						}
					}
					nm = string(b)
				}
				doms = append(doms, DirtyDomain{DomainID: h.ID(), CertID: h.ID(), Name: nm})
			}
			desc := fmt.Sprintf("certs %v domains %q", certs, doms)
			for i := range doms {
				desc += fmt.Sprintf(" %q", doms[i].Name)
			}
			h.Case(desc)
			var want [][]string
			kind := r.Intn(4)
			var file string
			if !h.Try("panic", func() string { return desc }, func() {
				pre := filepath.Join(dir, "f-")
				switch kind {
				case 0:
					file, err = writeCertCSV(certSt[0], fname, pre, ".csv", certs)
					for _, c := range certs {
						p := ""
						if c.ParentID != nil {
							p = zzB64(c.ParentID[:])
						}
						want = append(want, []string{zzB64(c.CertID[:]), p, c.NotAfter.Format("2006-01-02 15:04:05"), zzB64(c.Raw)})
					}
				case 1:
					file, err = writeRecordsWithStorage(dirtySt, writeCSV, fname, pre, ".csv", doms, recordsForDirty)
					for _, d := range doms {
						want = append(want, []string{zzB64(d.DomainID[:])})
					}
				case 2:
					file, err = writeRecordsWithStorage(domSt, writeCSV, fname, pre, ".csv", doms, recordsForDomains)
					for _, d := range doms {
						want = append(want, []string{zzB64(d.DomainID[:]), d.Name})
					}
				case 3:
					file, err = writeRecordsWithStorage(dcSt, writeCSV, fname, pre, ".csv", doms, recordsForDomainCerts)
					for _, d := range doms {
						want = append(want, []string{zzB64(d.DomainID[:]), zzB64(d.CertID[:])})
					}
				}
			}) {
				return
			}
			if err != nil {
				h.Fail("error", "%s: %v", desc, err)
				return
			}
			b, err := os.ReadFile(file)
			if err != nil {
				h.Fail("file", "%s: %v", desc, err)
				return
			}
			os.Remove(file)
			rows, err := zzParse(b)
			if err != nil || fmt.Sprintf("%q", rows) != fmt.Sprintf("%q", want) {
				h.Fail(fmt.Sprintf("rows-%d", kind), "%s\nfile: %q\nread as %q (%v)\nwant    %q", desc, b, rows, err, want)
			}
		}
		// Plain names stay as they are; a big batch crosses no buffer boundary unseen.
		big := make([]Certificate, 300)
		for i := range big {
			big[i] = Certificate{CertID: h.ID(), NotAfter: time.Unix(int64(i), 0).UTC(), Raw: bytes.Repeat([]byte{byte(i)}, i*7)}
		}
		file, err := writeCertCSV(certSt[0], fname, filepath.Join(dir, "g-"), ".csv", big)
		if err != nil {
			h.Fail("error", "%v", err)
			return
		}
		b, _ := os.ReadFile(file)
		rows, err := zzParse(b)
		if err != nil || len(rows) != len(big) {
			h.Fail("big", "%d rows of %d, %v", len(rows), len(big), err)
			return
		}
		for i := range rows {
			if rows[i][0] != zzB64(big[i].CertID[:]) || rows[i][3] != zzB64(big[i].Raw) {
				h.Fail("big", "row %d differs", i)
				return
			}
		}
	})
}

