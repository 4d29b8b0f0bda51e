package mapserver

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

type zzID = common.SHA256Output

var errZZ = errors.New("injected failure")

// zzWorld is the logs and the database, which fail now and then.
type zzWorld struct {
	db.Conn
	h       *vlib.H
	key     string
	trace   []string
	rate    int // one call in rate fails
	hits    int
	maybe   bool
	failed  bool
	logs    []*zzLog
	active  *zzLog
	certs   map[zzID]string // ID -> parent and expiration
	assoc   map[zzID]map[zzID]bool
	names   map[zzID]string
	dirty   map[zzID]bool
	payload map[zzID][]byte
	root    *zzID
	nodes   map[zzID][]byte
	sizes   map[string]int64
	heads   map[string]string
}

func (w *zzWorld) fail(kind, format string, a ...any) {
	if w.failed {
		return
	}
	w.failed = true
	tail := w.trace
	if len(tail) > 40 {
		tail = tail[len(tail)-40:]
	}
	w.h.Fail(kind, "%s: %s; last events: %s", w.key, fmt.Sprintf(format, a...), strings.Join(tail, "; "))
}

func (w *zzWorld) note(format string, a ...any) { w.trace = append(w.trace, fmt.Sprintf(format, a...)) }

// do runs one database call: it may fail, before or after it has its effect.
func (w *zzWorld) do(what string, f func()) error {
	if w.rate > 0 && w.h.Rng.Intn(w.rate) == 0 {
		w.hits++
		kept := w.h.Rng.Intn(2) == 0
		w.note("%s fails (effect kept: %v)", what, kept)
		if kept {
			f()
		}
		return errZZ
	}
	f()
	return nil
}

type zzEntry struct {
	cert     ctx509.Certificate
	chain    []*ctx509.Certificate
	excluded bool
}

type zzLog struct {
	w        *zzWorld
	url      string
	entries  []zzEntry
	reported map[int64]bool
	next     int64
	end      int64
	started  int
}

func zzHead(url string, size int64) string { return fmt.Sprintf("head-%s-%d", url, size) }

func (l *zzLog) Initialize(time.Time) error { return l.w.do("Initialize "+l.url, func() {}) }
func (l *zzLog) URL() string                { return l.url }
func (l *zzLog) GetCurrentState(_ context.Context, _ logfetcher.State) (s logfetcher.State, err error) {
	if l.w.rate >= 0 && l.w.h.Rng.Intn(4) == 0 {
		l.grow(l.w.h.Rng.Intn(3))
	}
	hits := l.w.hits
	err = l.w.do("GetCurrentState "+l.url, func() {})
	if l.w.active == l {
		l.w.maybe = l.w.maybe || l.w.hits > hits // asked only to print progress
		l.w.hits = hits
	}
	if err != nil {
		return
	}
	n := int64(len(l.entries))
	l.reported[n] = true
	return logfetcher.State{Size: uint64(n), STH: []byte(zzHead(l.url, n))}, nil
}
func (l *zzLog) StartFetching(start, end int64) {
	w := l.w
	w.note("fetch %s from %d to %d", l.url, start, end)
	if start != w.sizes[l.url] {
		w.fail("start", "log %s fetched from %d although its recorded size is %d", l.url, start, w.sizes[l.url])
	}
	if !l.reported[end+1] {
		w.fail("target", "log %s fetched up to %d, never reported as its size", l.url, end+1)
	}
	w.active = l
	l.next, l.end = start, end+1
	l.started++
}
func (l *zzLog) StopFetching()                  {}
func (l *zzLog) NextBatch(context.Context) bool { return l.next < l.end }
func (l *zzLog) ReturnNextBatch() (cs []ctx509.Certificate, ch [][]*ctx509.Certificate, excluded int, err error) {
	if err = l.w.do("ReturnNextBatch "+l.url, func() {}); err != nil {
		l.next = l.end
		return nil, nil, 0, err
	}
	n := int64(1 + l.w.h.Rng.Intn(4))
	if n > l.end-l.next {
		n = l.end - l.next
	}
	for _, e := range l.entries[l.next : l.next+n] {
		if e.excluded {
			excluded++
			continue
		}
		cs = append(cs, e.cert)
		ch = append(ch, e.chain)
	}
	l.w.note("batch %d-%d of %s, %d excluded", l.next, l.next+n, l.url, excluded)
	l.next += n
	return
}

// grow appends entries, some of them known from other logs.
func (l *zzLog) grow(n int) {
	r := l.w.h.Rng
	for ; n > 0; n-- {
		if r.Intn(5) == 0 {
			o := l.w.logs[r.Intn(len(l.w.logs))]
			if len(o.entries) > 0 {
				l.entries = append(l.entries, o.entries[r.Intn(len(o.entries))])
				continue
			}
		}
		e := zzEntry{excluded: r.Intn(6) == 0}
		e.cert.Raw = l.w.h.Bytes(8)
		e.cert.NotAfter = time.Unix(5e9+int64(r.Intn(1e6)), 0)
		for k := r.Intn(3); k > 0; k-- {
			e.cert.DNSNames = append(e.cert.DNSNames, fmt.Sprintf("n%d.com", r.Intn(12)))
		}
		for k := r.Intn(3); k > 0; k-- {
			x := byte(r.Intn(3))
			e.chain = append(e.chain, &ctx509.Certificate{Raw: []byte{byte(k), x}, NotAfter: time.Unix(6e9+100*int64(k)+int64(x), 0)})
		}
		l.entries = append(l.entries, e)
	}
}

func (w *zzWorld) CheckCertsExist(_ context.Context, ids []zzID) (m []bool, err error) {
	err = w.do("CheckCertsExist", func() {})
	if err != nil {
		return nil, err
	}
	for _, x := range ids {
		_, ok := w.certs[x]
		m = append(m, ok)
	}
	return
}
func (w *zzWorld) CheckPoliciesExist(_ context.Context, ids []zzID) ([]bool, error) {
	return make([]bool, len(ids)), w.do("CheckPoliciesExist", func() {})
}
func zzRow(parent *zzID, exp time.Time, payload []byte) string {
	p := "none"
	if parent != nil {
		p = fmt.Sprintf("%x", *parent)
	}
	return fmt.Sprintf("parent %s expires %d payload %x", p, exp.Unix(), payload)
}
func (w *zzWorld) UpdateCerts(_ context.Context, ids []zzID, parents []*zzID, exp []time.Time, payloads [][]byte) error {
	return w.do("UpdateCerts", func() {
		for i := range ids {
			w.certs[ids[i]] = zzRow(parents[i], exp[i], payloads[i])
		}
	})
}
func (w *zzWorld) InsertDomainsIntoDirty(_ context.Context, ids []zzID) error {
	return w.do("InsertDomainsIntoDirty", func() {
		for _, x := range ids {
			w.dirty[x] = true
		}
	})
}
func (w *zzWorld) UpdateDomains(_ context.Context, ids []zzID, names []string) error {
	return w.do("UpdateDomains", func() {
		for i, x := range ids {
			w.names[x] = names[i]
		}
	})
}
func (w *zzWorld) UpdateDomainCerts(_ context.Context, d, c []zzID) error {
	return w.do("UpdateDomainCerts", func() {
		for i, x := range d {
			if w.assoc[x] == nil {
				w.assoc[x] = map[zzID]bool{}
			}
			w.assoc[x][c[i]] = true
		}
	})
}
func (w *zzWorld) LastCTlogServerState(_ context.Context, url string) (int64, []byte, error) {
	return w.sizes[url], []byte(w.heads[url]), w.do("LastCTlogServerState", func() {})
}
func (w *zzWorld) UpdateLastCTlogServerState(_ context.Context, url string, size int64, sth []byte) error {
	l := w.active
	w.note("record %s size %d", url, size)
	if l == nil || l.url != url {
		w.fail("record", "a size is recorded for %s, which is not the log being fetched", url)
		return errZZ
	}
	if !l.reported[size] || string(sth) != zzHead(url, size) {
		w.fail("record", "%s: recorded size %d with head %q, never reported together", url, size, sth)
	}
	for i := int64(0); i < size && i < int64(len(l.entries)); i++ {
		if m := w.missing(l.entries[i]); m != "" {
			w.fail("record", "size %d is recorded for %s while its entry %d %s", size, url, i, m)
		}
	}
	return w.do("UpdateLastCTlogServerState", func() { w.sizes[url], w.heads[url] = size, string(sth) })
}

// missing tells what of an entry is not stored.
func (w *zzWorld) missing(e zzEntry) string {
	if e.excluded {
		return ""
	}
	all := append([]*ctx509.Certificate{&e.cert}, e.chain...)
	for k, c := range all {
		var parent *zzID
		if k+1 < len(all) {
			p := common.SHA256Hash32Bytes(all[k+1].Raw)
			parent = &p
		}
		got, ok := w.certs[common.SHA256Hash32Bytes(c.Raw)]
		if !ok {
			return fmt.Sprintf("is not stored (certificate %d of its chain)", k)
		}
		// elements of chains occur in several chains: only the leaf has one parent
		if k == 0 && got != zzRow(parent, c.NotAfter, c.Raw) {
			return fmt.Sprintf("is stored as %s, not %s", got, zzRow(parent, c.NotAfter, c.Raw))
		}
	}
	for _, n := range e.cert.DNSNames {
		d := common.SHA256Hash32Bytes([]byte(n))
		if !w.assoc[d][common.SHA256Hash32Bytes(e.cert.Raw)] || w.names[d] != n {
			return "is stored without its name " + n
		}
	}
	return ""
}
func (w *zzWorld) PruneCerts(context.Context, time.Time) error { return w.do("PruneCerts", func() {}) }

func (w *zzWorld) compute(d zzID) []byte {
	var l []string
	for c := range w.assoc[d] {
		if _, ok := w.certs[c]; ok {
			l = append(l, string(c[:]))
		}
	}
	sort.Strings(l)
	return []byte(strings.Join(l, ""))
}
func (w *zzWorld) RecomputeDirtyDomainsCertAndPolicyIDs(context.Context) error {
	return w.do("Recompute", func() {
		for d := range w.dirty {
			w.payload[d] = w.compute(d)
		}
	})
}
func (w *zzWorld) DirtyCount(context.Context) (uint64, error) {
	return uint64(len(w.dirty)), w.do("DirtyCount", func() {})
}
func (w *zzWorld) LoadRoot(context.Context) (*zzID, error) {
	return w.root, w.do("LoadRoot", func() {})
}
func (w *zzWorld) SaveRoot(_ context.Context, r *zzID) error {
	x := *r
	return w.do("SaveRoot", func() { w.root = &x })
}
func (w *zzWorld) RetrieveTreeNode(_ context.Context, k zzID) ([]byte, error) {
	return append([]byte{}, w.nodes[k]...), nil
}
func (w *zzWorld) UpdateTreeNodes(_ context.Context, r []*db.TreeNodeRecord) (int, error) {
	return len(r), w.do("UpdateTreeNodes", func() {
		for _, x := range r {
			w.nodes[x.Key] = append([]byte{}, x.Value...)
		}
	})
}
func (w *zzWorld) DeleteTreeNodes(_ context.Context, k []zzID) (int, error) {
	return len(k), w.do("DeleteTreeNodes", func() {
		for _, x := range k {
			delete(w.nodes, x)
		}
	})
}
func (w *zzWorld) RetrieveDomainEntriesDirtyBundle(_ context.Context, c *db.DirtyDomainEntriesCursor, max uint64) (e []db.DomainEntryRecord, n *db.DirtyDomainEntriesCursor, done bool, err error) {
	var all []zzID
	for d := range w.dirty {
		all = append(all, d)
	}
	sort.Slice(all, func(i, j int) bool { return bytes.Compare(all[i][:], all[j][:]) < 0 })
	from := 0
	if c != nil {
		from = c.NextPartition
	}
	to := from + 1 + w.h.Rng.Intn(5)
	if to > len(all) {
		to = len(all)
	}
	if from > to {
		from = to
	}
	for _, d := range all[from:to] {
		e = append(e, db.DomainEntryRecord{DomainID: d, Payload: w.payload[d]})
	}
	return e, &db.DirtyDomainEntriesCursor{NextPartition: to}, to == len(all), w.do("RetrieveDomainEntriesDirtyBundle", func() {})
}

// behind tells which domain is not in the stored tree with its certificates.
func (w *zzWorld) behind(ds map[zzID]bool) string {
	if len(ds) == 0 {
		return ""
	}
	var root []byte
	if w.root != nil {
		root = w.root[:]
	}
	rate := w.rate
	w.rate = -1
	defer func() { w.rate = rate }()
	t, err := trie.NewTrie(root, common.SHA256Hash, w)
	if err != nil {
		return err.Error()
	}
	for d := range ds {
		v, err := t.Get(context.Background(), append([]byte{}, d[:]...))
		if err != nil {
			return err.Error()
		}
		if !bytes.Equal(v, common.SHA256Hash(w.compute(d))) {
			return fmt.Sprintf("%s (%d certificates)", w.names[d], len(w.compute(d))/32)
		}
	}
	return ""
}
func (w *zzWorld) CleanupDirty(context.Context) error {
	if m := w.behind(w.dirty); m != "" {
		w.fail("cleanup", "the dirty marks are dropped while the stored tree lacks the current content of %s", m)
	}
	return w.do("CleanupDirty", func() { w.dirty = map[zzID]bool{} })
}

// TestVerifC30Cycles runs histories of update cycles of the real map server.
func TestVerifC30Cycles(t *testing.T) {
	vlib.Run(t, "random histories of update cycles of the real MapServer and MapUpdater over growing logs with excluded entries, with random failures of the logs and of the database (with and without effect), then a cycle without failures; a case is one cycle", func(h *vlib.H) {
		for n := 0; n < h.N(400, 20000) && h.More(); n++ {
			r := h.Rng
			w := &zzWorld{h: h, certs: map[zzID]string{}, assoc: map[zzID]map[zzID]bool{}, names: map[zzID]string{}, dirty: map[zzID]bool{},
				payload: map[zzID][]byte{}, nodes: map[zzID][]byte{}, sizes: map[string]int64{}, heads: map[string]string{}}
			u := &updater.MapUpdater{Conn: w}
			for i := 0; i < 1+r.Intn(3); i++ {
				l := &zzLog{w: w, url: fmt.Sprintf("log%d", i), reported: map[int64]bool{}}
				w.logs = append(w.logs, l)
				u.Fetchers = append(u.Fetchers, l)
			}
			for _, l := range w.logs {
				l.grow(r.Intn(10))
			}
			s := &MapServer{Updater: u, Conn: w}
			cycles := 1 + r.Intn(5)
			rate := 6 + r.Intn(40)
			for c := 0; c <= cycles && !w.failed; c++ {
				w.rate, w.hits, w.maybe, w.active = rate, 0, false, nil
				if c == cycles || r.Intn(4) == 0 {
					w.rate = 0
				}
				for _, l := range w.logs {
					l.started = 0
					if c > 0 {
						l.grow(r.Intn(4))
					}
				}
				w.key = fmt.Sprintf("history %d, %d logs, cycle %d", n, len(w.logs), c)
				h.Case(w.key)
				before := map[string]int64{}
				for k, v := range w.sizes {
					before[k] = v
				}
				w.note("cycle %d", c)
				var err error
				if !h.Try("cycle", func() string { return w.key }, func() {
					ctx := context.Background()
					if r.Intn(2) == 0 {
						err = s.prune(ctx)
					}
					if err == nil {
						err = s.update(ctx)
					}
				}) {
					return
				}
				for _, l := range w.logs {
					if w.sizes[l.url] < before[l.url] {
						w.fail("record", "the recorded size of %s went from %d back to %d", l.url, before[l.url], w.sizes[l.url])
					}
				}
				if err != nil {
					if w.hits == 0 && !w.maybe {
						w.fail("error", "error without a failure: %v", err)
					}
					continue
				}
				if w.hits > 0 {
					w.fail("error", "no error although %d calls failed", w.hits)
				}
				for _, l := range w.logs {
					if l.started != 1 {
						w.fail("order", "log %s was fetched %d times in one cycle", l.url, l.started)
					}
					if l.end > w.sizes[l.url] && l.next == l.end {
						w.fail("stuck", "log %s was fetched up to %d but its recorded size is %d", l.url, l.end, w.sizes[l.url])
					}
					if l.next != l.end && l.next < l.end {
						w.fail("stuck", "log %s was fetched only up to %d of %d", l.url, l.next, l.end)
					}
					for i := int64(0); i < l.end; i++ {
						if m := w.missing(l.entries[i]); m != "" {
							w.fail("lost", "after a successful cycle entry %d of %s %s", i, l.url, m)
						}
					}
				}
				if len(w.dirty) != 0 {
					w.fail("dirty", "a successful cycle leaves %d domains marked", len(w.dirty))
				}
				all := map[zzID]bool{}
				for d := range w.assoc {
					all[d] = true
				}
				if m := w.behind(all); m != "" {
					w.fail("tree", "after a successful cycle the stored tree lacks the current content of %s", m)
				}
			}
		}
	})
}
