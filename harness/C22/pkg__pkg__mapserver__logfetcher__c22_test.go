package logfetcher

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	ct "github.com/google/certificate-transparency-go"
	cttls "github.com/google/certificate-transparency-go/tls"
	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// zzLog is a CT log that splits its responses and fails as told.
type zzLog struct {
	mu      sync.Mutex
	size    int64
	take    func(start, end int64) int64 // number of entries of this response; <0: HTTP error
	entry   func(i int64) ct.LeafEntry
	asked   [][2]int64
	highest int64
}

func (l *zzLog) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	l.mu.Lock()
	defer l.mu.Unlock()
	s, _ := strconv.ParseInt(r.FormValue("start"), 10, 64)
	e, _ := strconv.ParseInt(r.FormValue("end"), 10, 64)
	l.asked = append(l.asked, [2]int64{s, e})
	n := l.take(s, e)
	if n < 0 {
		w.WriteHeader(404)
		return
	}
	rsp := ct.GetEntriesResponse{Entries: []ct.LeafEntry{}}
	for i := int64(0); i < n; i++ {
		rsp.Entries = append(rsp.Entries, l.entry(s+i))
	}
	json.NewEncoder(w).Encode(rsp)
}

func zzPlainEntry(i int64) ct.LeafEntry {
	return ct.LeafEntry{LeafInput: []byte(fmt.Sprintf("leaf %d", i)), ExtraData: []byte(fmt.Sprintf("extra %d", i))}
}

func TestVerifC22Raw(t *testing.T) {
	vlib.Run(t, "getRawEntriesInBatches and getRawEntries against a local CT log: ranges of 1..40 entries, server batches 1..9, responses split at random (also more entries than asked for, or none), failures at a random request; entries compared one by one with the log", func(h *vlib.H) {
		log := &zzLog{entry: zzPlainEntry}
		srv := httptest.NewServer(log)
		defer srv.Close()
		n := h.N(400, 6000)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			f, err := NewHttpLogFetcher(srv.URL)
			if err != nil {
				h.Fail("setup", "%v", err)
				return
			}
			f.serverBatchSize = int64(1 + r.Intn(9))
			start := int64(r.Intn(1000))
			cnt := int64(1 + r.Intn(40))
			if r.Intn(3) == 0 {
				cnt = f.serverBatchSize * int64(1+r.Intn(4))
			}
			end := start + cnt - 1
			fault, kind := -1, r.Intn(4) // kind 0: http error, 1: no entries; else none
			if kind < 2 {
				fault = r.Intn(6)
			}
			extra := r.Intn(2) == 0
			split := r.Intn(3)
			log.mu.Lock()
			log.asked = nil
			log.take = func(s, e int64) int64 {
				if len(log.asked)-1 == fault {
					return int64(kind - 1)
				}
				m := e - s + 1
				switch {
				case split == 0:
				case split == 1:
					m = 1 + int64(r.Intn(int(m)))
				default:
					m = 1
				}
				if extra && m == e-s+1 {
					m += int64(r.Intn(3))
				}
				return m
			}
			log.mu.Unlock()
			buf := make([]ct.LeafEntry, cnt+int64(r.Intn(4)))
			for i := range buf {
				buf[i].LeafInput = []byte("untouched")
			}
			direct := r.Intn(3) == 0
			in := func() string {
				return fmt.Sprintf("start %d end %d serverBatch %d fault %d/%d split %d extra %v direct %v asked %v", start, end, f.serverBatchSize, fault, kind, split, extra, direct, log.asked)
			}
			var got int64
			if !h.Try("raw-panic", in, func() {
				if direct {
					got, err = f.getRawEntries(buf, start, end)
				} else {
					got, err = f.getRawEntriesInBatches(buf, start, end)
				}
			}) {
				return
			}
			hit := fault >= 0 && len(log.asked) > fault
			h.Case(in())
			if hit != (err != nil) {
				h.Fail("raw-error", "%s: error %v, but the log failed: %v", in(), err, hit)
				continue
			}
			if err == nil && got != cnt {
				h.Fail("raw-count", "%s: reported %d entries of %d", in(), got, cnt)
			}
			if err != nil && (got < 0 || got >= cnt) {
				h.Fail("raw-progress", "%s: reported %d entries although the request failed", in(), got)
			}
			for i := range buf {
				want := zzPlainEntry(start + int64(i))
				eq := bytes.Equal(buf[i].LeafInput, want.LeafInput) && bytes.Equal(buf[i].ExtraData, want.ExtraData)
				un := string(buf[i].LeafInput) == "untouched"
				if int64(i) < got && !eq {
					h.Fail("raw-entry", "%s: entry %d (reported %d) is %q", in(), i, got, buf[i].LeafInput)
					break
				}
				if int64(i) >= cnt && !un {
					h.Fail("raw-more", "%s: position %d beyond the range was written: %q", in(), i, buf[i].LeafInput)
					break
				}
				if int64(i) >= got && !un && !eq {
					h.Fail("raw-wrong", "%s: position %d holds %q", in(), i, buf[i].LeafInput)
					break
				}
			}
			for _, a := range log.asked {
				if a[0] < start || a[1] > end || a[0] > a[1] {
					h.Fail("raw-asked", "%s: asked the log for %v", in(), a)
					break
				}
			}
		}
	})
}

func zzCertEntries(n int) ([]ct.LeafEntry, [][]byte) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	var ders [][]byte
	var es []ct.LeafEntry
	for i := 0; i < n; i++ {
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: fmt.Sprintf("c%d.test", i)},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{fmt.Sprintf("c%d.test", i)}}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
		if err != nil {
			panic(err)
		}
		ders = append(ders, der)
	}
	for i := 0; i < n; i++ {
		leaf := ct.MerkleTreeLeaf{Version: ct.V1, LeafType: ct.TimestampedEntryLeafType, TimestampedEntry: &ct.TimestampedEntry{
			EntryType: ct.X509LogEntryType, X509Entry: &ct.ASN1Cert{Data: ders[i]}}}
		li, err := cttls.Marshal(leaf)
		if err != nil {
			panic(err)
		}
		chain := ct.CertificateChain{}
		for j := 0; j < i%3; j++ {
			chain.Entries = append(chain.Entries, ct.ASN1Cert{Data: ders[(i+j+1)%n]})
		}
		ed, err := cttls.Marshal(chain)
		if err != nil {
			panic(err)
		}
		es = append(es, ct.LeafEntry{LeafInput: li, ExtraData: ed})
	}
	return es, ders
}

type zzBatch struct {
	certs  []ctx509.Certificate
	chains [][]*ctx509.Certificate
}

func TestVerifC22Fetch(t *testing.T) {
	vlib.Run(t, "StartFetching/NextBatch/ReturnNextBatch and FetchAllCertificates against a local CT log of 48 certificates: all ranges, batches checked at once or after the whole range, process batches 1..16, server batches 1..8, split responses, failure at a random request; certificates and chains compared with the log", func(h *vlib.H) {
		const N = 48
		es, ders := zzCertEntries(N)
		log := &zzLog{entry: func(i int64) ct.LeafEntry { return es[i%N] }}
		srv := httptest.NewServer(log)
		defer srv.Close()
		n := h.N(250, 4000)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			f, err := NewHttpLogFetcher(srv.URL)
			if err != nil {
				h.Fail("setup", "%v", err)
				return
			}
			f.serverBatchSize = int64(1 + r.Intn(8))
			f.processBatchSize = int64(1 + r.Intn(16))
			start := int64(r.Intn(N))
			end := start + int64(r.Intn(N-int(start)))
			if r.Intn(12) == 0 {
				end = start - 1
			}
			fault := -1
			if r.Intn(3) == 0 {
				fault = r.Intn(8)
			}
			split := r.Intn(2)
			log.mu.Lock()
			log.asked = nil
			log.take = func(s, e int64) int64 {
				if len(log.asked)-1 == fault {
					return -1
				}
				m := e - s + 1
				if split == 1 {
					m = 1 + int64(r.Intn(int(m)))
				}
				return m
			}
			log.mu.Unlock()
			in := func() string {
				return fmt.Sprintf("start %d end %d serverBatch %d processBatch %d fault %d split %d", start, end, f.serverBatchSize, f.processBatchSize, fault, split)
			}
			pos := start
			var ferr error
			all := r.Intn(3) == 0
			if !h.Try("fetch-panic", in, func() {
				check := func(raw []byte, chain [][]byte) {
					if pos > end {
						h.Fail("fetch-more", "%s: more certificates than requested", in())
						return
					}
					if !bytes.Equal(raw, ders[pos]) {
						h.Fail("fetch-cert", "%s: certificate at position %d is another one", in(), pos)
					}
					if len(chain) != int(pos)%3 {
						h.Fail("fetch-chain", "%s: chain of %d has %d elements", in(), pos, len(chain))
					} else {
						for j := range chain {
							if !bytes.Equal(chain[j], ders[(int(pos)+j+1)%N]) {
								h.Fail("fetch-chain", "%s: chain of %d differs at %d", in(), pos, j)
							}
						}
					}
					pos++
				}
				ctx := context.Background()
				if all {
					certs, chains, _, err := f.FetchAllCertificates(ctx, start, end)
					ferr = err
					if err == nil && len(certs) != len(chains) {
						h.Fail("fetch-lens", "%s: %d certificates, %d chains", in(), len(certs), len(chains))
						return
					}
					for i := range certs {
						var ch [][]byte
						for _, c := range chains[i] {
							ch = append(ch, c.Raw)
						}
						check(certs[i].Raw, ch)
					}
					return
				}
				hold := r.Intn(2) == 0
				var held []zzBatch
				f.StartFetching(start, end)
				for f.NextBatch(ctx) {
					certs, chains, _, err := f.ReturnNextBatch()
					if err != nil {
						ferr = err
						if len(certs) != 0 {
							h.Fail("fetch-err-data", "%s: data beside an error", in())
						}
						continue
					}
					if len(certs) != len(chains) || int64(len(certs)) > f.processBatchSize {
						h.Fail("fetch-lens", "%s: batch of %d certificates, %d chains", in(), len(certs), len(chains))
						return
					}
					if hold {
						held = append(held, zzBatch{certs, chains})
						continue
					}
					for i := range certs {
						var ch [][]byte
						for _, c := range chains[i] {
							ch = append(ch, c.Raw)
						}
						check(certs[i].Raw, ch)
					}
				}
				// Batches looked at only once the whole range was fetched must still
				// hold what they held.
				for _, b := range held {
					for i := range b.certs {
						var ch [][]byte
						for _, c := range b.chains[i] {
							ch = append(ch, c.Raw)
						}
						check(b.certs[i].Raw, ch)
					}
				}
			}) {
				return
			}
			hit := fault >= 0 && len(log.asked) > fault
			h.Case(in())
			if hit != (ferr != nil) {
				h.Fail("fetch-error", "%s: error %v, the log failed: %v", in(), ferr, hit)
			} else if ferr == nil && pos != end+1 {
				h.Fail("fetch-missing", "%s: delivered up to %d", in(), pos-1)
			}
		}
	})
}

func TestVerifC22Local(t *testing.T) {
	vlib.Run(t, "local files: random sets of file ranges with unique starts (gz and csv, nested folders, other names beside them); the chain from every start follows exactly the consecutive files; the next state ends at a file boundary within the row limit (at least one file)", func(h *vlib.H) {
		n := h.N(300, 4000)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			dir, err := os.MkdirTemp("", "c22")
			if err != nil {
				h.Fail("setup", "%v", err)
				return
			}
			os.Mkdir(filepath.Join(dir, "bundled"), 0o755)
			type rg struct{ s, e int64 }
			files := map[int64]rg{}
			desc := ""
			for i := r.Intn(9); i >= 0; i-- {
				s := int64(r.Intn(8)) * 5
				e := s + 4 + 5*int64(r.Intn(2)*r.Intn(3))
				if r.Intn(6) == 0 {
					e = s
				}
				if _, ok := files[s]; ok {
					continue
				}
				files[s] = rg{s, e}
				sub := []string{"", "bundled"}[r.Intn(2)]
				ext := []string{".gz", ".csv"}[r.Intn(2)]
				os.WriteFile(filepath.Join(dir, sub, fmt.Sprintf("%d-%d%s", s, e, ext)), nil, 0o644)
				desc += fmt.Sprintf("%s/%d-%d%s ", sub, s, e, ext)
			}
			os.WriteFile(filepath.Join(dir, "readme.txt"), nil, 0o644)
			os.WriteFile(filepath.Join(dir, "0-1-2.csv"), nil, 0o644)
			limit := uint64(1 + r.Intn(30))
			f, _ := NewLocalLogFetcher("url", dir, limit)
			if err := f.Initialize(time.Now()); err != nil {
				h.Fail("local-init", "%s: %v", desc, err)
				os.RemoveAll(dir)
				continue
			}
			close(f.incomingFileCh)
			var starts []int64
			for s := range files {
				starts = append(starts, s)
			}
			sort.Slice(starts, func(i, j int) bool { return starts[i] < starts[j] })
			h.Case(fmt.Sprint(desc, limit))
			for s := int64(-1); s < 80; s++ {
				var want []rg
				for c, ok := files[s]; ok; c, ok = files[c.e+1] {
					want = append(want, c)
				}
				chain := f.achievableStateMap[s]
				bad := len(chain) != len(want)
				for i := 0; !bad && i < len(chain); i++ {
					bad = chain[i].start != want[i].s || chain[i].end != want[i].e
				}
				if bad {
					h.Fail("local-chain", "files %s: chain from %d is %v, want %v", desc, s, chain, want)
				}
				if s < 0 {
					continue
				}
				st, err := f.GetCurrentState(context.Background(), State{Size: uint64(s)})
				if err != nil {
					h.Fail("local-state", "files %s: %v", desc, err)
					continue
				}
				target := uint64(s)
				for i, w := range want {
					if i > 0 && uint64(w.e-s+1) > limit {
						break
					}
					target = uint64(w.e + 1)
				}
				if st.Size != target {
					h.Fail("local-state", "files %s limit %d: next state from %d is %d, want %d", desc, limit, s, st.Size, target)
				}
			}
			os.RemoveAll(dir)
		}
		// Names.
		for k := 0; k < h.N(3000, 30000); k++ {
			s, e := r.Int63(), r.Int63()
			if r.Intn(2) == 0 {
				s, e = int64(r.Intn(20)), int64(r.Intn(20))
			}
			gz := r.Intn(2) == 0
			ext := map[bool]string{true: ".gz", false: ".csv"}[gz]
			name := fmt.Sprintf("%d-%d%s", s, e, ext)
			h.Case(name)
			fi, err := getFileInfo("p/"+name, name, gz)
			if s > e {
				if err == nil && fi != nil {
					h.Fail("name-inverted", "%s accepted as %v", name, fi)
				}
				continue
			}
			if err != nil || fi == nil || fi.start != s || fi.end != e || fi.isGzipped != gz || fi.path != "p/"+name {
				h.Fail("name", "%s: %+v, %v", name, fi, err)
			}
			if fi, err := getFileInfo(name, name, !gz); err != nil || fi != nil {
				h.Fail("name-other", "%s taken as the other kind: %v %v", name, fi, err)
			}
		}
		for _, bad := range []string{"a-1.gz", "1-b.gz", "9223372036854775808-1.gz", "1-.gz", "-1.gz"} {
			if fi, err := getFileInfo(bad, bad, true); err == nil && fi != nil {
				h.Fail("name-malformed", "%q accepted: %v", bad, fi)
			}
		}
	})
}

func zzRow(der []byte, chain [][]byte, exp string) string {
	c := ""
	for i, d := range chain {
		if i > 0 {
			c += ";"
		}
		c += base64.StdEncoding.EncodeToString(d)
	}
	return fmt.Sprintf("0,1,2,%s,%s,5,6,%s\n", base64.StdEncoding.EncodeToString(der), c, exp)
}

func TestVerifC22LocalFetch(t *testing.T) {
	vlib.Run(t, "fetching from local CSV files: every row of every requested file is delivered exactly once (as certificate with its chain, or counted as expired)", func(h *vlib.H) {
		_, ders := zzCertEntries(24)
		n := h.N(25, 400)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			dir, err := os.MkdirTemp("", "c22")
			if err != nil {
				h.Fail("setup", "%v", err)
				return
			}
			want := map[string]int{}
			wantExp := 0
			pos, nf := int64(0), 1+r.Intn(4)
			reqEnd := int64(-1)
			stop := r.Intn(nf)
			desc := ""
			for i := 0; i < nf; i++ {
				rows := 1 + r.Intn(5)
				txt := ""
				for j := 0; j < rows; j++ {
					d := r.Intn(24)
					ch := [][]byte{ders[r.Intn(24)], ders[r.Intn(24)]}[:1+r.Intn(2)]
					exp := r.Intn(4) == 0
					e := "32503680000.0"
					if exp {
						e = "1000.5"
					}
					txt += zzRow(ders[d], ch, e)
					if i <= stop {
						if exp {
							wantExp++
						} else {
							key := string(ders[d])
							for _, c := range ch {
								key += "|" + string(c)
							}
							want[key]++
						}
					}
				}
				os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d-%d.csv", pos, pos+int64(rows)-1)), []byte(txt), 0o644)
				desc += fmt.Sprintf("%d-%d ", pos, pos+int64(rows)-1)
				pos += int64(rows)
				if i == stop {
					reqEnd = pos - 1
				}
			}
			f, _ := NewLocalLogFetcher("url", dir, 1<<40)
			f.processBatchSize = int64(1 + r.Intn(6))
			h.Case(fmt.Sprint(desc, reqEnd, f.processBatchSize))
			if err := f.Initialize(time.Now()); err != nil {
				h.Fail("localfetch-init", "%v", err)
			} else {
				got, gotExp := map[string]int{}, 0
				out := os.Stdout
				os.Stdout, _ = os.Open(os.DevNull)
				ok := h.Try("localfetch-panic", func() string { return desc }, func() {
					f.StartFetching(0, reqEnd)
					for f.NextBatch(context.Background()) {
						certs, chains, exp, _ := f.ReturnNextBatch()
						gotExp += exp
						for i := range certs {
							key := string(certs[i].Raw)
							for _, c := range chains[i] {
								key += "|" + string(c.Raw)
							}
							got[key]++
						}
					}
				})
				os.Stdout = out
				if !ok {
					return
				}
				bad := gotExp != wantExp || len(got) != len(want)
				for k, v := range want {
					bad = bad || got[k] != v
				}
				if bad {
					h.Fail("localfetch", "files %s up to %d: delivered %d distinct and %d expired, want %d and %d", desc, reqEnd, len(got), gotExp, len(want), wantExp)
				}
			}
			os.RemoveAll(dir)
		}
	})
}

func TestVerifC22Abandon(t *testing.T) {
	vlib.Run(t, "a range abandoned after some of its batches (storing one failed), with a request of the log still running, then a range started again on the same fetcher: the second range is delivered once, in order, and no more", func(h *vlib.H) {
		const N = 48
		es, ders := zzCertEntries(N)
		log := &zzLog{entry: func(i int64) ct.LeafEntry { return es[i%N] }}
		srv := httptest.NewServer(log)
		defer srv.Close()
		r := h.Rng
		for k, n := 0, h.N(40, 400); k < n && h.More(); k++ {
			f, err := NewHttpLogFetcher(srv.URL)
			if err != nil {
				h.Fail("setup", "%v", err)
				return
			}
			f.serverBatchSize = int64(1 + r.Intn(4))
			f.processBatchSize = f.serverBatchSize * int64(1+r.Intn(2))
			end1, start2 := int64(40+r.Intn(8)), int64(r.Intn(20))
			end2 := start2 + int64(r.Intn(int(N-start2)))
			slow, reqs := 1+r.Intn(8), 0
			got := r.Intn(2)
			running, release := make(chan bool, 1), make(chan bool)
			var once sync.Once
			log.mu.Lock()
			log.take = func(s, e int64) int64 {
				reqs++
				if reqs == slow {
					log.mu.Unlock()
					running <- true
					<-release
					log.mu.Lock()
				}
				return e - s + 1
			}
			log.mu.Unlock()
			in := func() string {
				return fmt.Sprintf("range 0..%d abandoned after %d batches with its request %d running, then range %d..%d; server batches of %d, batches of %d", end1, got, slow, start2, end2, f.serverBatchSize, f.processBatchSize)
			}
			ctx := context.Background()
			h.Try("abandon-panic", in, func() {
				f.StartFetching(0, end1)
				for i := 0; i < got; i++ {
					c, cancel := context.WithTimeout(ctx, 50*time.Millisecond)
					f.NextBatch(c)
					cancel()
				}
				select {
				case <-running:
				case <-time.After(30 * time.Millisecond): // it is blocked before this request
				}
				f.StartFetching(start2, end2)
				go func() {
					time.Sleep(5 * time.Millisecond)
					once.Do(func() { close(release) })
				}()
				pos := start2
				for f.NextBatch(ctx) {
					certs, _, _, err := f.ReturnNextBatch()
					if err != nil {
						h.Fail("abandon-error", "%s: %v", in(), err)
						break
					}
					for i := range certs {
						if pos > end2 || !bytes.Equal(certs[i].Raw, ders[pos]) {
							h.Fail("abandoned-range-mixed-in", "%s: at position %d another certificate", in(), pos)
							return
						}
						pos++
					}
				}
				if pos != end2+1 {
					h.Fail("abandon-missing", "%s: delivered up to %d", in(), pos-1)
				}
			})
			once.Do(func() { close(release) })
			h.Case(in())
		}
	})
}
