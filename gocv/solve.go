package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Solver struct {
	cacheDir string
	sem      chan struct{}
	mu       sync.Mutex
	ms       int64
	queries  int
	hits     int
	timeout  int // seconds for single obligations
	dump     string
}

func newSolver(cache string) *Solver {
	if cache != "" {
		os.MkdirAll(cache, 0o755)
	}
	return &Solver{cacheDir: cache, sem: make(chan struct{}, 8), timeout: 15}
}

func hash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:16])
}

func (s *Solver) cached(key string) (string, bool) {
	if s.cacheDir == "" {
		return "", false
	}
	b, err := os.ReadFile(filepath.Join(s.cacheDir, key))
	if err != nil {
		return "", false
	}
	s.mu.Lock()
	s.hits++
	s.mu.Unlock()
	return string(b), true
}

func (s *Solver) store(key, val string) {
	if s.cacheDir != "" {
		tmp := filepath.Join(s.cacheDir, key+fmt.Sprintf(".tmp%d", os.Getpid()))
		if os.WriteFile(tmp, []byte(val), 0o644) == nil {
			os.Rename(tmp, filepath.Join(s.cacheDir, key))
		}
	}
}

// run executes a solver on a script and returns its output.
func (s *Solver) run(timeout time.Duration, script string, name string, args ...string) string {
	return s.runCtx(context.Background(), timeout, script, name, args...)
}

func (s *Solver) runCtx(parent context.Context, timeout time.Duration, script string, name string, args ...string) string {
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	if parent.Err() != nil {
		return ""
	}
	ctx, cancel := context.WithTimeout(parent, timeout)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	s.mu.Lock()
	s.ms += time.Since(t0).Milliseconds()
	s.queries++
	s.mu.Unlock()
	return out.String()
}

func z3Head(ms int) string {
	return fmt.Sprintf("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :timeout %d)\n(set-option :smt.random_seed 1)\n", ms)
}

func (v *VC) script(nItems int) string {
	var b strings.Builder
	b.WriteString(prelude)
	for _, g := range v.globals {
		b.WriteString(g)
		b.WriteByte('\n')
	}
	for _, g := range v.items[:nItems] {
		b.WriteString(g)
		b.WriteByte('\n')
	}
	return b.String()
}

// checkMany decides, for each goal, whether the current assumptions entail it (quick check).
func (s *Solver) checkMany(v *VC, goals []Term) []bool {
	res := make([]bool, len(goals))
	var b strings.Builder
	n := 0
	for i, g := range goals {
		if g.S == "true" {
			res[i] = true
			continue
		}
		n++
		fmt.Fprintf(&b, "(echo \"g %d\")\n(push)\n(assert (not %s))\n(check-sat)\n(pop)\n", i, g.S)
	}
	if n == 0 {
		return res
	}
	q := v.script(len(v.items)) + b.String()
	key := "m" + hash(q)
	out, ok := s.cached(key)
	if !ok {
		out = s.run(90*time.Second, z3Head(1500)+q, "z3", "-in")
		s.store(key, out)
	}
	cur := -1
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "g ") {
			fmt.Sscanf(l, "g %d", &cur)
		} else if l == "unsat" && cur >= 0 {
			res[cur] = true
		} else if strings.HasPrefix(l, "(error") {
			v.notes = append(v.notes, "solver error: "+trunc(l, 300))
			if os.Getenv("GOCV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver error:", trunc(l, 300))
				os.WriteFile("/tmp/gocv_err.smt2", []byte(q), 0o644)
			}
		}
	}
	return res
}

// discharge proves the obligations of one target.
func (s *Solver) discharge(v *VC) {
	var todo []*Oblig
	for _, o := range v.obls {
		if o.Status == "" {
			todo = append(todo, o)
		}
	}
	if len(todo) == 0 {
		return
	}
	// 1. one incremental run over all obligations, split in chunks for parallelism
	chunks := 8
	if len(todo) < 16 {
		chunks = (len(todo) + 1) / 2
	}
	var wg sync.WaitGroup
	for c := 0; c < chunks; c++ {
		lo, hi := c*len(todo)/chunks, (c+1)*len(todo)/chunks
		part := todo[lo:hi]
		if len(part) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var b strings.Builder
			b.WriteString(prelude)
			for _, g := range v.globals {
				b.WriteString(g + "\n")
			}
			n := 0
			for i, o := range part {
				for ; n < o.nItems; n++ {
					b.WriteString(v.items[n] + "\n")
				}
				fmt.Fprintf(&b, "(echo \"g %d\")\n(push)\n(assert (not %s))\n(check-sat)\n(pop)\n", i, o.goal.S)
			}
			q := b.String()
			key := "i" + hash(q)
			t0 := time.Now()
			out, ok := s.cached(key)
			if !ok {
				out = s.run(120*time.Second, z3Head(3000)+q, "z3", "-in")
				s.store(key, out)
			}
			el := time.Since(t0).Milliseconds()
			cur := -1
			for _, l := range strings.Split(out, "\n") {
				if strings.HasPrefix(l, "g ") {
					fmt.Sscanf(l, "g %d", &cur)
				} else if l == "unsat" && cur >= 0 && cur < len(part) {
					part[cur].Status = "proved"
					part[cur].Solver = "z3 4.8.12"
					part[cur].MS = el / int64(len(part))
				} else if strings.HasPrefix(l, "(error") {
					s.mu.Lock()
					v.notes = append(v.notes, "solver error: "+trunc(l, 300))
					s.mu.Unlock()
					if os.Getenv("GOCV_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "solver error:", trunc(l, 300))
						os.WriteFile("/tmp/gocv_err.smt2", []byte(q), 0o644)
					}
				}
			}
		}()
	}
	wg.Wait()
	// 2. the rest individually with a portfolio
	for _, o := range todo {
		if o.Status != "" || o.cover {
			continue
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.single(v, o)
		}()
	}
	wg.Wait()
	for _, o := range todo {
		if o.cover {
			// a path that must be reachable: "proved unreachable" is a failure
			if o.Status == "proved" {
				o.Status = "failed"
				o.Detail = "assumptions are contradictory: this point is unreachable"
				if s.dump != "" {
					os.MkdirAll(s.dump, 0o755)
					q := v.script(o.nItems) + fmt.Sprintf("(assert (not %s))\n(check-sat)\n", o.goal.S)
					os.WriteFile(filepath.Join(s.dump, sanitize(v.target+"_"+o.Name)+".smt2"), []byte(z3Head(30000)+q), 0o644)
				}
			} else {
				o.Status = "proved"
				o.Solver = "z3 4.8.12 (not refuted)"
			}
		}
	}
}

// answer is the first line of a solver's output that is not a warning.
func answer(out string) string {
	for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
		if !strings.HasPrefix(l, "WARNING") {
			return l
		}
	}
	return ""
}

func (s *Solver) single(v *VC, o *Oblig) {
	q := v.script(o.nItems) + fmt.Sprintf("(assert (not %s))\n(check-sat)\n", o.goal.S)
	qs := ""
	if g := skolemGoal(o.goal.S); g != "" {
		qs = v.script(o.nItems) + g
	}
	key := "s" + hash(q+qs) + fmt.Sprint(s.timeout)
	if out, ok := s.cached(key); ok {
		p := strings.SplitN(out, "\n", 2)
		o.Status, o.Solver = p[0], p[1]
		return
	}
	t0 := time.Now()
	type tool struct {
		name, desc string
		head       string
		args       []string
		touch      bool          // the skolemized goal with its trigger terms
		delay      time.Duration // the less likely ones only if the others do not answer quickly
	}
	ms := s.timeout * 1000
	const nomb = "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"
	tools := []tool{
		{"z3", "z3 4.8.12", z3Head(ms), []string{"-in"}, false, 0},
		{"z3-new", "z3-new", z3Head(ms), []string{"-in"}, false, 0},
		{"z3", "z3 4.8.12", z3Head(ms), []string{"-in"}, true, 200 * time.Millisecond},
		{"z3-new", "z3-new", z3Head(ms), []string{"-in"}, true, 300 * time.Millisecond},
		{"z3", "z3 4.8.12", nomb + "(set-option :smt.arith.solver 2)\n", []string{"-in"}, false, 500 * time.Millisecond},
		{"z3-new", "z3-new", "", []string{"-in"}, false, 1500 * time.Millisecond},
		{"cvc5", "cvc5 1.1.2", "(set-logic ALL)\n", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}, true, 2 * time.Second},
		{"z3", "z3 4.8.12 (mbqi)", fmt.Sprintf("(set-option :timeout %d)\n", ms), []string{"-in"}, false, 2 * time.Second},
		{"z3", "z3 4.8.12", nomb, []string{"-in"}, true, 4 * time.Second},
		{"z3", "z3 4.8.12", nomb + "(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 7)\n", []string{"-in"}, true, 6 * time.Second},
		{"z3-new", "z3-new", nomb + "(set-option :smt.random_seed 7)\n", []string{"-in"}, true, 6 * time.Second},
	}
	type res struct{ out, desc string }
	ch := make(chan res, len(tools))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel() // the first answer stops the other solvers
	for _, t := range tools {
		t := t
		go func() {
			if t.delay > 0 {
				select {
				case <-ctx.Done():
				case <-time.After(t.delay):
				}
			}
			q := q
			if t.touch && qs != "" {
				q = qs
			}
			if t.name == "cvc5" {
				q = constArrays(q)
			}
			out := s.runCtx(ctx, time.Duration(s.timeout+2)*time.Second, t.head+q, t.name, t.args...)
			ch <- res{out, t.desc}
		}()
	}
	o.Status = "failed"
	var det []string
	for range tools {
		r := <-ch
		l := answer(r.out)
		if l == "unsat" {
			o.Status, o.Solver = "proved", r.desc
			break
		}
		det = append(det, r.desc+": "+trunc(l, 100))
	}
	o.Detail = strings.Join(det, "; ")
	o.MS = time.Since(t0).Milliseconds()
	if o.Status == "proved" {
		s.store(key, o.Status+"\n"+o.Solver)
	}
	if (o.Status == "failed" || os.Getenv("GOCV_DUMPALL") != "") && s.dump != "" {
		os.MkdirAll(s.dump, 0o755)
		os.WriteFile(filepath.Join(s.dump, sanitize(v.target+"_"+o.Name)+".smt2"), []byte(z3Head(30000)+q), 0o644)
		if qs != "" {
			os.WriteFile(filepath.Join(s.dump, sanitize(v.target+"_"+o.Name)+".sk.smt2"), []byte(z3Head(30000)+qs), 0o644)
		}
	}
}
