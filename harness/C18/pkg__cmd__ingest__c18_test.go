package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// zz18expect computes the events of one run from the statement of the property:
// "R<files>" ingest a batch, "C" coalesce, "U" update the tree; fail = index of the event that fails.
func zz18expect(strategy string, pending []string, batch int, fail int) (events []string, done []string, failed bool) {
	ev := func(s string) bool {
		events = append(events, s)
		return len(events)-1 != fail
	}
	co := strategy == "" || strategy == "skipingest"
	up := co || strategy == "onlysmtupdate"
	if strategy == "" || strategy == "onlyingest" {
		if batch <= 0 {
			batch = len(pending)
		}
		for len(pending) > 0 {
			n := batch
			if n > len(pending) {
				n = len(pending)
			}
			b := pending[:n]
			pending = pending[n:]
			if !ev("R"+strings.Join(b, ",")) || co && !ev("C") || up && !ev("U") {
				return events, done, true
			}
			done = append(done, b...)
		}
		return events, done, false
	}
	if co && !ev("C") || up && !ev("U") {
		return events, done, true
	}
	return events, done, false
}

func TestVerifC18(t *testing.T) {
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	so := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = so }()
	vlib.Run(t, "0..7 files, some completed before, batch sizes -1..9, all strategies, a failure or a cancellation at every event, batch-start failures, journal write failures; the run is repeated until it succeeds; compared: event sequence, error, recorded ranges and pending files; non-trivial: at least two batches", func(h *vlib.H) {
		r := h.Rng
		n := h.N(1200, 20000)
		for k := 0; k < n && h.More(); k++ {
			root, err := os.MkdirTemp("", "c18")
			if err != nil {
				t.Fatal(err)
			}
			func() {
				defer os.RemoveAll(root)
				dir := filepath.Join(root, "log")
				sub := filepath.Join(dir, "bundled")
				os.MkdirAll(sub, 0o755)
				nf := r.Intn(8)
				var names []string
				for i := 0; i < nf; i++ {
					f := filepath.Join(sub, fmt.Sprintf("%d-%d.gz", i*10, i*10+9))
					os.WriteFile(f, nil, 0o644)
					names = append(names, f)
				}
				cfg := RunConfig{Directory: dir, JournalFile: filepath.Join(root, "j", "journal.json"), FileBatch: r.Intn(11) - 1,
					Strategy: []string{"", "", "onlyingest", "onlyingest", "skipingest", "onlysmtupdate"}[r.Intn(6)]}
				os.MkdirAll(filepath.Dir(cfg.JournalFile), 0o755)
				done := map[string]bool{}
				trace := fmt.Sprintf("strategy %q, %d files, batch %d", cfg.Strategy, nf, cfg.FileBatch)
				for attempt := 0; attempt < 3; attempt++ {
					var pending []string
					for _, f := range names {
						if !done[f] {
							pending = append(pending, f)
						}
					}
					fail := -1
					if attempt < 2 {
						fail = r.Intn(2+3*nf+1) - 1
					}
					mode := r.Intn(4) // 0,1: error, 2: cancellation during the event, 3: journal cannot be written after it
					events, wdone, wfail := zz18expect(cfg.Strategy, pending, cfg.FileBatch, fail)
					if fail >= len(events) {
						fail = -1
					}
					if mode == 3 && fail >= 0 {
						mode = 1
						// the journal write after the batch fails: only meaningful for the last event of a batch
						if cfg.Strategy == "onlyingest" {
							mode = 3
						}
					}
					var got []string
					ctx, cancel := context.WithCancel(context.Background())
					jdir := filepath.Dir(cfg.JournalFile)
					broken := false
					hook := func(s string) error {
						got = append(got, s)
						if len(got)-1 == fail {
							switch mode {
							case 2:
								cancel()
								return context.Canceled
							case 3:
								os.Rename(jdir, jdir+".away")
								broken = true
								return nil
							}
							return errors.New("injected")
						}
						return nil
					}
					var bb []string
					deps := RunDependencies{
						NewJournal: func(c RunConfig, jc journal.JobConfiguration) (*journal.Journal, error) {
							return journal.NewJournal(c.JournalFile, jc, c.Directory)
						},
						NewStatistics:     func() *statistics.Stats { return nil },
						EstimateCertCount: func(string) (uint, error) { return 1, nil },
						BeforeBatch:       func(a, b int) error { bb = append(bb, fmt.Sprintf("%d/%d", a, b)); return nil },
						RunBatch: func(_ *statistics.Stats, files []string) error {
							return hook("R" + strings.Join(files, ","))
						},
						Coalesce:  func() error { return hook("C") },
						UpdateSMT: func() error { return hook("U") },
					}
					trace += fmt.Sprintf("; pending %d fail at %d mode %d", len(pending), fail, mode)
					var rerr error
					ok := h.Try("panic", func() string { return trace }, func() { rerr = runIngest(ctx, cfg, deps) })
					cancel()
					if broken {
						os.Rename(jdir+".away", jdir)
					}
					if !ok {
						return
					}
					strip := func(l []string) string {
						return strings.ReplaceAll(strings.Join(l, " | "), sub+"/", "")
					}
					if strip(got) != strip(events) {
						h.Fail("events", "%s: calls\n %s\nwant\n %s", trace, strip(got), strip(events))
						return
					}
					if (rerr != nil) != wfail {
						h.Fail("error", "%s: returned %v, failure expected: %v", trace, rerr, wfail)
						return
					}
					for i := range bb {
						want := fmt.Sprintf("%d/%d", i+1, func() int {
							b := cfg.FileBatch
							if b <= 0 || b > len(pending) {
								b = len(pending)
							}
							return (len(pending) + b - 1) / b
						}())
						if bb[i] != want {
							h.Fail("batch-number", "%s: batch announced as %s want %s", trace, bb[i], want)
						}
					}
					for _, f := range wdone {
						done[f] = true
					}
					// read the record back
					j, err := journal.NewJournal(cfg.JournalFile, journal.JobConfiguration{IngestFiles: true}, dir)
					if err != nil {
						h.Fail("journal", "%s: %v", trace, err)
						return
					}
					p, err := j.PendingFiles()
					j.Close()
					var wp []string
					for _, f := range names {
						if !done[f] {
							wp = append(wp, f)
						}
					}
					if err != nil || strings.Join(p, ",") != strings.Join(wp, ",") {
						h.Fail("recorded", "%s: pending afterwards %v (%v) want %v", trace, p, err, wp)
						return
					}
				}
				key := ""
				if cfg.FileBatch > 0 && nf > cfg.FileBatch {
					key = trace
				}
				h.Case(key)
			}()
		}
	})
}
