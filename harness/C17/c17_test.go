package c17

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

func TestVerifC17Journal(t *testing.T) {
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	so := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = so }()
	vlib.Run(t, "journal files: random sequences of completed files committed for two directories, with the journal re-opened at random points; after each step the recorded ranges and the pending files are compared with the reference", func(h *vlib.H) {
		r := h.Rng
		n := h.N(250, 4000)
		for k := 0; k < n && h.More(); k++ {
			root, err := os.MkdirTemp("", "c17")
			if err != nil {
				t.Fatal(err)
			}
			func() {
				defer os.RemoveAll(root)
				jf := filepath.Join(root, "journal.json")
				dirs := []string{filepath.Join(root, "logA"), filepath.Join(root, "logB")}
				ref := map[string][]iv{}
				files := map[string]map[string]iv{}
				for _, d := range dirs {
					sub := filepath.Join(d, fmt.Sprint("y", r.Intn(2)), "bundled")
					os.MkdirAll(sub, 0o755)
					files[d] = map[string]iv{}
					for m := r.Intn(7); m > 0; m-- {
						x := genIv(r)
						if x.End > 1<<62 {
							x = iv{Start: uint(r.Intn(20)), End: uint(20 + r.Intn(10))}
						}
						f := filepath.Join(sub, x.String()+".gz")
						os.WriteFile(f, nil, 0o644)
						files[d][f] = x
					}
				}
				cur := 0
				cfg := journal.JobConfiguration{IngestFiles: true}
				j, err := journal.NewJournal(jf, cfg, dirs[cur])
				trace := ""
				for step := 1 + r.Intn(6); step > 0 && err == nil; step-- {
					if r.Intn(3) == 0 {
						cur = r.Intn(2)
						j.Close()
						j, err = journal.NewJournal(jf, cfg, dirs[cur])
						trace += fmt.Sprintf("reopen(%d) ", cur)
						if err != nil {
							h.Fail("reopen", "%s: %v", trace, err)
							return
						}
					}
					d := filepath.Base(dirs[cur])
					var fs []string
					for m := r.Intn(4); m > 0; m-- {
						x := genIv(r)
						ext := []string{".gz", ".csv"}[r.Intn(2)]
						fs = append(fs, filepath.Join(dirs[cur], x.String()+ext))
						ref[d] = append(ref[d], x)
					}
					for f, x := range files[dirs[cur]] {
						if r.Intn(3) == 0 {
							fs = append(fs, f)
							ref[d] = append(ref[d], x)
						}
					}
					trace += fmt.Sprintf("commit(%s:%v) ", d, ref[d])
					ok := h.Try("journal-panic", func() string { return trace }, func() {
						if e := j.CommitProgress(fs, false, false); e != nil {
							h.Fail("commit", "%s: %v", trace, e)
							return
						}
						ci := j.Jobs[len(j.Jobs)-1].CompletedIndices
						for _, dd := range dirs {
							b := filepath.Base(dd)
							w := canon(ref[b])
							if len(w)+len(ci[b]) > 0 && fmt.Sprint(ci[b]) != fmt.Sprint(w) {
								h.Fail("recorded", "%s: directory %s recorded %v want %v", trace, b, ci[b], w)
							}
						}
						var want []string
						for f, x := range files[dirs[cur]] {
							if !covered(canon(ref[d]), x) {
								want = append(want, f)
							}
						}
						got, e := j.PendingFiles()
						if e != nil {
							h.Fail("pending-error", "%s: %v", trace, e)
							return
						}
						for i := 1; i < len(got); i++ {
							if files[dirs[cur]][got[i-1]].Start > files[dirs[cur]][got[i]].Start {
								h.Fail("pending-order", "%s: pending files %v not in ascending order", trace, got)
							}
						}
						got = append([]string{}, got...)
						sort.Strings(got)
						sort.Strings(want)
						if fmt.Sprint(got) != fmt.Sprint(want) {
							h.Fail("pending", "%s: pending %v want %v", trace, got, want)
						}
					})
					if !ok {
						return
					}
				}
				h.Case(trace)
				if err == nil {
					j.Close()
				}
			}()
		}
	})
}
