// Package vlib is the harness library: it runs executable contracts on the real code
// with generated inputs, and reports failing inputs and coverage to the check driver.
package vlib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"testing"
	"time"
)

type Failure struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

type report struct {
	Test     string    `json:"test"`
	Rule     string    `json:"rule"`
	Cases    int       `json:"cases"`
	Distinct int       `json:"distinct"`
	Samples  []string  `json:"samples"`
	Failures []Failure `json:"failures"`
	Notes    []string  `json:"notes"`
	Done     bool      `json:"done"`
}

// H is the state of one harness test.
type H struct {
	T        *testing.T
	Rng      *rand.Rand
	Thorough bool
	rep      report
	seen     map[uint64]bool
	perKey   map[string]int
	deadline time.Time
	kept     []kept
}

type kept struct {
	input, was string
	f          func() string
}

// Keep remembers a result of the code under test by a text of its content: later calls on other
// inputs must not change it (results that share storage they should not share). The last ones are
// looked at again with every further Keep.
func (h *H) Keep(input string, f func() string) {
	for i, k := range h.kept {
		if now := k.f(); now != k.was {
			h.Fail("earlier-result-changed", "the result for %s\nwas   %.1500s\nand became, by the call for %s,\n      %.1500s", k.input, k.was, input, now)
			h.kept[i].was = now
		}
	}
	if len(h.kept) >= 6 {
		h.kept = h.kept[1:]
	}
	h.kept = append(h.kept, kept{input, f(), f})
}

func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

// Run executes one harness test. rule says how cases are made and what makes one non-trivial.
func Run(t *testing.T, rule string, fn func(h *H)) {
	h := &H{T: t, Rng: rand.New(rand.NewSource(Seed())), Thorough: os.Getenv("VERIF_TIER") == "thorough",
		seen: map[uint64]bool{}, perKey: map[string]int{}}
	h.rep.Test, h.rep.Rule = t.Name(), rule
	h.rep.Samples, h.rep.Failures = []string{}, []Failure{}
	budget := 12 * time.Second
	if h.Thorough {
		budget = 240 * time.Second
	}
	h.deadline = time.Now().Add(budget)
	defer h.write()
	defer func() {
		if r := recover(); r != nil {
			if r == errStop {
				return
			}
			h.Fail("panic", "harness or code under test panicked: %v\n%s", r, debug.Stack())
		}
	}()
	fn(h)
	h.rep.Done = true
}

var errStop = fmt.Errorf("stop")

func (h *H) write() {
	h.rep.Distinct = len(h.seen)
	if dir := os.Getenv("VERIF_OUT"); dir != "" {
		b, _ := json.MarshalIndent(h.rep, "", " ")
		os.WriteFile(filepath.Join(dir, h.rep.Test+".json"), b, 0o644)
	}
}

// N picks the number of cases for the tier.
func (h *H) N(quick, thorough int) int {
	if h.Thorough {
		return thorough
	}
	return quick
}

// More reports whether the time budget of the test is not used up.
func (h *H) More() bool { return time.Now().Before(h.deadline) }

// Case counts one case; key identifies it for the distinct count ("" = trivial).
func (h *H) Case(key string) {
	h.rep.Cases++
	if key == "" {
		return
	}
	f := fnv.New64a()
	f.Write([]byte(key))
	s := f.Sum64()
	if !h.seen[s] {
		h.seen[s] = true
		n := len(h.seen)
		if n <= 2 || (n&(n-1) == 0 && len(h.rep.Samples) < 8) {
			if len(key) > 300 {
				key = key[:300] + "..."
			}
			h.rep.Samples = append(h.rep.Samples, key)
		}
	}
}

func (h *H) Note(f string, a ...any) { h.rep.Notes = append(h.rep.Notes, fmt.Sprintf(f, a...)) }

// Fail records a failing input; key names the violated clause (stable across runs).
func (h *H) Fail(key, f string, a ...any) {
	h.perKey[key]++
	if h.perKey[key] > 2 {
		return
	}
	d := fmt.Sprintf(f, a...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	h.rep.Failures = append(h.rep.Failures, Failure{key, d})
	h.T.Errorf("VERIF-FAIL %s: %s", key, d)
}

// Failed reports whether the clause failed before.
func (h *H) Failed(key string) bool { return h.perKey[key] > 0 }

// Stop ends the test early.
func (h *H) Stop() { panic(errStop) }

// Panics runs fn and returns the panic value, if any.
func Panics(fn func()) (r any) {
	defer func() { r = recover() }()
	fn()
	return nil
}

// Try runs fn with a panic and time guard; it reports key if fn panics or does not return.
func (h *H) Try(key string, input func() string, fn func()) bool {
	type res struct {
		p any
		s string
	}
	c := make(chan res, 1)
	go func() {
		var r res
		defer func() {
			if p := recover(); p != nil {
				r.p, r.s = p, string(debug.Stack())
			}
			c <- r
		}()
		fn()
	}()
	tm := time.NewTimer(20 * time.Second)
	defer tm.Stop()
	select {
	case r := <-c:
		if r.p != nil {
			if len(r.s) > 1500 {
				r.s = r.s[:1500]
			}
			h.Fail(key, "panic: %v\ninput: %s\n%s", r.p, input(), r.s)
			return false
		}
		return true
	case <-tm.C:
		h.Fail(key, "did not return within 20 s\ninput: %s", input())
		h.Stop()
		return false
	}
}

// Bytes returns n random bytes; small alphabets make collisions likely.
func (h *H) Bytes(n int) []byte {
	b := make([]byte, n)
	h.Rng.Read(b)
	return b
}

// ID returns a 32-byte identifier, with a small random alphabet now and then.
func (h *H) ID() (id [32]byte) {
	switch h.Rng.Intn(4) {
	case 0:
		id[h.Rng.Intn(32)] = byte(h.Rng.Intn(256))
	case 1:
		for i := range id {
			id[i] = []byte{0, 1, 0x7f, 0x80, 0xff}[h.Rng.Intn(5)]
		}
	default:
		h.Rng.Read(id[:])
	}
	return
}
