package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Clause is one specification expression.
type Clause struct {
	Name string
	Text string
	E    ast.Expr
	Args []ast.Expr // hints: lemma arguments
	File string
	Line int
}

func (c *Clause) label(i int) string {
	if c.Name != "" {
		return c.Name
	}
	return fmt.Sprintf("#%d (%s)", i, trunc(c.Text, 70))
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type Contract struct {
	Key        string
	Params     []string
	Results    []string
	Requires   []*Clause
	Ensures    []*Clause
	Modifies   []*Clause
	Loops      map[int]*loopSpec
	Sorts      map[int]*sortSpec
	Searches   map[int]*Clause
	Hints      []*Clause // at entry
	EndHints   []*Clause
	AtHints    map[string][]*Clause // hints at the snapshots of when()
	Props      []string             // properties served
	Extern     bool
	InlineOnly bool
	NoReturn   bool
	MayPanic   bool
	Values     bool
	NoFrame    bool
	Bounded    string
	File       string
	Timeout    int
	Ghosts     []string
	Inst       []string // "T type": type parameters verified at this instance
	IfMissing  bool     // target may be absent (helper that may be inlined away)
}

type SpecFn struct {
	Name   string
	Params []string
	Sorts  []string
	Res    string
	Body   ast.Expr
	Text   string
	Rec    bool
	Line   int
	File   string
	Uses   map[string]bool
	Axioms []*Clause
}

type Lemma struct {
	Name    string
	Params  []string
	Sorts   []string
	Hyps    []*Clause
	Concl   []*Clause
	Induct  string
	Trigger []ast.Expr
	TrigTxt string
	File    string
	Auto    bool
	Uses    []*Clause
	Props   []string
}

type Contracts struct {
	By     map[string]*Contract
	Order  []string
	Fns    map[string]*SpecFn
	FnOrd  []string
	Lemmas map[string]*Lemma
	LemOrd []string
	Smt    []string
	GhostS map[string]string
	Assume []string
}

func (cs *Contracts) find(k string) *Contract { return cs.By[k] }

// onlyChan is the contract of the only channel parameter of a function (nil if there are several).
func (cs *Contracts) onlyChan(prefix, op string) *Contract {
	var c *Contract
	for k, x := range cs.By {
		if strings.HasPrefix(k, prefix) && strings.HasSuffix(k, op) && !strings.Contains(strings.TrimSuffix(k[len(prefix):], op), "#") {
			if c != nil {
				return nil
			}
			c = x
		}
	}
	return c
}

var impRE = regexp.MustCompile(`==>`)

// preprocess turns "a ==> b" and "a <==> b" into calls, respecting parentheses and commas.
func preprocess(s string) string {
	var out []string // segments at this level
	i := 0
	var parse func() string
	parse = func() string { // until matching ')' or end; handles commas
		var parts []string
		var cur strings.Builder
		flush := func() {
			parts = append(parts, implies(cur.String()))
			cur.Reset()
		}
		for i < len(s) {
			c := s[i]
			switch {
			case c == '"' || c == '`':
				j := i + 1
				for j < len(s) && s[j] != c {
					if s[j] == '\\' && c == '"' {
						j++
					}
					j++
				}
				cur.WriteString(s[i : j+1])
				i = j + 1
			case c == '\'':
				j := i + 1
				for j < len(s) && s[j] != '\'' {
					if s[j] == '\\' {
						j++
					}
					j++
				}
				cur.WriteString(s[i : j+1])
				i = j + 1
			case c == '(' || c == '[' || c == '{':
				i++
				inner := parse()
				cl := map[byte]byte{'(': ')', '[': ']', '{': '}'}[c]
				cur.WriteByte(c)
				cur.WriteString(inner)
				cur.WriteByte(cl)
			case c == ')' || c == ']' || c == '}':
				i++
				flush()
				return strings.Join(parts, ",")
			case c == ',':
				i++
				flush()
			default:
				cur.WriteByte(c)
				i++
			}
		}
		flush()
		return strings.Join(parts, ",")
	}
	_ = out
	return parse()
}

func implies(s string) string {
	// lowest precedence: <==>, then ==> (right associative); nested groups are already processed
	if p := topIndex(s, "<==>"); p >= 0 {
		return " iff(" + implies(s[:p]) + "," + implies(s[p+4:]) + ")"
	}
	if p := topIndex(s, "==>"); p >= 0 {
		return " imp(" + implies(s[:p]) + "," + implies(s[p+3:]) + ")"
	}
	return s
}

func topIndex(s, op string) int {
	d := 0
	for i := 0; i+len(op) <= len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"', '`':
			q := s[i]
			i++
			for i < len(s) && s[i] != q {
				if s[i] == '\\' && q == '"' {
					i++
				}
				i++
			}
			continue
		}
		if d == 0 && s[i:i+len(op)] == op {
			if op == "==>" && i > 0 && s[i-1] == '<' {
				continue
			}
			return i
		}
	}
	return -1
}

func parseSpec(s, file string, line int) (ast.Expr, error) {
	p := preprocess(s)
	p = ghostRE.ReplaceAllString(p, "ghost__$1")
	e, err := parser.ParseExpr(p)
	if err != nil {
		return nil, fmt.Errorf("%s:%d: %v in %q", file, line, err, p)
	}
	return e, nil
}

var ghostRE = regexp.MustCompile(`\$([A-Za-z])`)

var nameRE = regexp.MustCompile(`^\[([^\]]*)\]\s*`)

func newClause(s, file string, line int) (*Clause, error) {
	c := &Clause{File: file, Line: line}
	s = strings.TrimSpace(s)
	if m := nameRE.FindStringSubmatch(s); m != nil {
		c.Name = m[1]
		s = s[len(m[0]):]
	}
	c.Text = s
	e, err := parseSpec(s, file, line)
	if err != nil {
		return nil, err
	}
	c.E = e
	return c, nil
}

var funcRE = regexp.MustCompile(`^(func|extern|inline)\s+(\S+?)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)
var specRE = regexp.MustCompile(`^spec\s+(rec\s+)?(\w+)\s*\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)\s*(\((?:[^()]|\([^()]*\))*\)|\w+|@[^\s=]+)\s*(?:=\s*(.*))?$`)
var lemRE = regexp.MustCompile(`^(lemma|autolemma)\s+(\w+)\s*\((.*)\)\s*$`)

const modPath = "github.com/netsec-ethz/fpki/"

func splitList(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			r = append(r, x)
		}
	}
	return r
}

// splitParams parses "a Int, b (Array Int Int)".
func splitParams(s string) (names, sorts []string) {
	d, st := 0, 0
	var parts []string
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ',':
			if d == 0 {
				parts = append(parts, s[st:i])
				st = i + 1
			}
		}
	}
	parts = append(parts, s[st:])
	for _, p := range parts {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		i := strings.IndexByte(p, ' ')
		if i < 0 {
			names = append(names, p)
			sorts = append(sorts, "Int")
			continue
		}
		names = append(names, p[:i])
		sorts = append(sorts, strings.TrimSpace(p[i+1:]))
	}
	return
}

func loadContracts(files []string) (*Contracts, error) {
	cs := &Contracts{By: map[string]*Contract{}, Fns: map[string]*SpecFn{}, Lemmas: map[string]*Lemma{}, GhostS: map[string]string{}}
	seen := map[string]bool{}
	var load func(f string) error
	load = func(f string) error {
		ab, _ := filepath.Abs(f)
		if seen[ab] {
			return nil
		}
		seen[ab] = true
		data, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		lines := strings.Split(string(data), "\n")
		// join continuation lines (deeper indented, starting with "..." or open parens)
		type ln struct {
			s string
			n int
		}
		var ls []ln
		for i, l := range lines {
			if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") {
				l = l[:k]
			}
			t := strings.TrimSpace(l)
			if t == "" {
				continue
			}
			if strings.HasPrefix(t, "| ") && len(ls) > 0 {
				ls[len(ls)-1].s += " " + t[2:]
				continue
			}
			ls = append(ls, ln{t, i + 1})
		}
		base := ""
		var c *Contract
		var lem *Lemma
		for _, l := range ls {
			errf := func(f2 string, a ...any) error {
				return fmt.Errorf("%s:%d: %s", f, l.n, fmt.Sprintf(f2, a...))
			}
			w := l.s
			rest := ""
			if k := strings.IndexAny(l.s, " \t"); k >= 0 {
				w, rest = l.s[:k], strings.TrimSpace(l.s[k:])
			}
			cl := func() (*Clause, error) { return newClause(rest, f, l.n) }
			switch w {
			case "package":
				base = rest
				if !strings.Contains(base, "/") || strings.HasPrefix(base, "pkg/") || strings.HasPrefix(base, "cmd/") {
					base = modPath + base
				}
			case "include":
				if err := load(filepath.Join(filepath.Dir(f), rest)); err != nil {
					return err
				}
			case "func", "extern", "inline":
				m := funcRE.FindStringSubmatch(l.s)
				if m == nil {
					return errf("bad func line %q", l.s)
				}
				key := m[2]
				if w != "extern" && base != "" {
					key = base + "." + key
				}
				c = &Contract{Key: key, Params: splitList(m[3]), Results: splitList(m[4]), Loops: map[int]*loopSpec{}, Extern: w == "extern", InlineOnly: w == "inline", File: f}
				if cs.By[key] != nil {
					return errf("duplicate contract for %s", key)
				}
				cs.By[key] = c
				cs.Order = append(cs.Order, key)
				lem = nil
			case "requires", "ensures", "modifies":
				x, err := cl()
				if err != nil {
					return err
				}
				if lem != nil {
					switch w {
					case "requires":
						lem.Hyps = append(lem.Hyps, x)
					case "ensures":
						lem.Concl = append(lem.Concl, x)
					}
					continue
				}
				if c == nil {
					return errf("clause outside a contract")
				}
				switch w {
				case "requires":
					c.Requires = append(c.Requires, x)
				case "ensures":
					c.Ensures = append(c.Ensures, x)
				default:
					c.Modifies = append(c.Modifies, x)
				}
			case "loop":
				p := strings.SplitN(rest, " ", 3)
				n, err := strconv.Atoi(p[0])
				if err != nil || len(p) < 2 {
					return errf("bad loop clause")
				}
				ls := c.Loops[n]
				if ls == nil {
					ls = &loopSpec{}
					c.Loops[n] = ls
				}
				if p[1] == "unroll" {
					ls.Unroll = true
					continue
				}
				x, err := newClause(p[2], f, l.n)
				if err != nil {
					return err
				}
				switch p[1] {
				case "invariant":
					ls.Invs = append(ls.Invs, x)
				case "decreases":
					ls.Dec = append(ls.Dec, x)
				case "use":
					ls.Hints = append(ls.Hints, x)
				case "enduse":
					x.Name = "end" + x.Name
					ls.Hints = append(ls.Hints, x)
				default:
					return errf("loop %s", p[1])
				}
			case "search":
				p := strings.SplitN(rest, " ", 3)
				n, err := strconv.Atoi(p[0])
				if err != nil || len(p) < 3 || c == nil || p[1] != "before" {
					return errf("bad search clause")
				}
				x, err := newClause(p[2], f, l.n)
				if err != nil {
					return errf("bad search clause %v", err)
				}
				if c.Searches == nil {
					c.Searches = map[int]*Clause{}
				}
				c.Searches[n] = x
			case "sort":
				p := strings.SplitN(rest, " ", 3)
				n, err := strconv.Atoi(p[0])
				if err != nil || len(p) < 3 || c == nil {
					return errf("bad sort clause")
				}
				if c.Sorts == nil {
					c.Sorts = map[int]*sortSpec{}
				}
				if c.Sorts[n] == nil {
					c.Sorts[n] = &sortSpec{}
				}
				if p[1] == "keeps" {
					c.Sorts[n].Keeps = append(c.Sorts[n].Keeps, p[2])
					continue
				}
				x, err := newClause(p[2], f, l.n)
				if err != nil || p[1] != "less" {
					return errf("bad sort clause %v", err)
				}
				c.Sorts[n].Less = x
			case "use":
				x, err := cl()
				if err != nil {
					return err
				}
				if lem != nil {
					lem.Uses = append(lem.Uses, x)
				} else {
					c.Hints = append(c.Hints, x)
				}
			case "at": // at Callee#n[:pre] use assert(...)
				p := strings.SplitN(rest, " use ", 2)
				if len(p) != 2 {
					return errf("at NAME use HINT")
				}
				x, err := newClause(strings.TrimSpace(p[1]), f, l.n)
				if err != nil {
					return err
				}
				nm := strings.TrimSpace(p[0])
				x.Name = "at " + nm + x.Name
				if c.AtHints == nil {
					c.AtHints = map[string][]*Clause{}
				}
				c.AtHints[nm] = append(c.AtHints[nm], x)
			case "enduse":
				x, err := cl()
				if err != nil {
					return err
				}
				c.EndHints = append(c.EndHints, x)
			case "values":
				c.Values = true
			case "instantiate":
				c.Inst = append(c.Inst, rest)
			case "noframe":
				c.NoFrame = true
			case "maypanic":
				c.MayPanic = true
			case "noreturn":
				c.NoReturn = true
			case "optional":
				c.IfMissing = true
			case "timeout":
				c.Timeout, _ = strconv.Atoi(rest)
			case "props":
				if lem != nil {
					lem.Props = strings.Fields(rest)
				} else {
					c.Props = strings.Fields(rest)
				}
			case "ghost":
				p := strings.SplitN(rest, " ", 2)
				cs.GhostS[p[0]] = p[1]
			case "assumption":
				cs.Assume = append(cs.Assume, rest)
			case "axiom": // axiom f expr: defining axiom of the bodyless specification function f
				p := strings.SplitN(rest, " ", 2)
				if len(p) < 2 || cs.Fns[p[0]] == nil {
					return errf("bad axiom clause")
				}
				x, err := newClause(p[1], f, l.n)
				if err != nil {
					return err
				}
				cs.Fns[p[0]].Axioms = append(cs.Fns[p[0]].Axioms, x)
			case "smt":
				cs.Smt = append(cs.Smt, rest)
			case "spec":
				m := specRE.FindStringSubmatch(l.s)
				if m == nil {
					return errf("bad spec line %q", l.s)
				}
				fn := &SpecFn{Name: m[2], Res: m[4], Rec: m[1] != "", Text: m[5], File: f, Line: l.n}
				fn.Params, fn.Sorts = splitParams(m[3])
				if m[5] != "" {
					e, err := parseSpec(m[5], f, l.n)
					if err != nil {
						return err
					}
					fn.Body = e
				}
				cs.Fns[fn.Name] = fn
				cs.FnOrd = append(cs.FnOrd, fn.Name)
				c, lem = nil, nil
			case "lemma", "autolemma":
				m := lemRE.FindStringSubmatch(l.s)
				if m == nil {
					return errf("bad lemma line")
				}
				lem = &Lemma{Name: m[2], File: f, Auto: w == "autolemma"}
				lem.Params, lem.Sorts = splitParams(m[3])
				cs.Lemmas[lem.Name] = lem
				cs.LemOrd = append(cs.LemOrd, lem.Name)
				c = nil
			case "induction":
				lem.Induct = rest
			case "trigger":
				for _, t := range splitTop(rest) {
					e, err := parseSpec(t, f, l.n)
					if err != nil {
						return err
					}
					lem.Trigger = append(lem.Trigger, e)
				}
			default:
				return errf("unknown directive %q", w)
			}
		}
		return nil
	}
	sort.Strings(files)
	for _, f := range files {
		if err := load(f); err != nil {
			return nil, err
		}
	}
	return cs, nil
}

func splitTop(s string) []string {
	d, st := 0, 0
	var r []string
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(r, strings.TrimSpace(s[st:]))
}
