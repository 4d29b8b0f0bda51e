package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"
)

// Term is an SMT-LIB expression with its sort.
type Term struct {
	S    string
	Sort string
}

func (t Term) ok() bool { return t.S != "" }

var (
	tTrue  = Term{"true", "Bool"}
	tFalse = Term{"false", "Bool"}
)

func tInt(n int64) Term { return tBig(big.NewInt(n)) }
func tBig(n *big.Int) Term {
	if n.Sign() < 0 {
		return Term{"(- " + new(big.Int).Neg(n).String() + ")", "Int"}
	}
	return Term{n.String(), "Int"}
}

func app(sort, op string, args ...Term) Term {
	if len(args) == 0 {
		return Term{op, sort}
	}
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range args {
		b.WriteString(" " + a.S)
	}
	b.WriteString(")")
	return Term{b.String(), sort}
}

func tNot(a Term) Term {
	switch a.S {
	case "true":
		return tFalse
	case "false":
		return tTrue
	}
	if strings.HasPrefix(a.S, "(not ") {
		return Term{a.S[5 : len(a.S)-1], "Bool"}
	}
	return app("Bool", "not", a)
}
func tAnd(as ...Term) Term {
	var r []Term
	for _, a := range as {
		if a.S == "false" {
			return tFalse
		}
		if a.S == "true" || a.S == "" {
			continue
		}
		dup := false
		for _, x := range r {
			if x.S == a.S {
				dup = true
			}
		}
		if !dup {
			r = append(r, a)
		}
	}
	if len(r) == 0 {
		return tTrue
	}
	if len(r) == 1 {
		return r[0]
	}
	return app("Bool", "and", r...)
}
func tOr(as ...Term) Term {
	var r []Term
	for _, a := range as {
		if a.S == "true" {
			return tTrue
		}
		if a.S == "false" || a.S == "" {
			continue
		}
		r = append(r, a)
	}
	if len(r) == 0 {
		return tFalse
	}
	if len(r) == 1 {
		return r[0]
	}
	return app("Bool", "or", r...)
}
func tImp(a, b Term) Term {
	if a.S == "true" {
		return b
	}
	if a.S == "false" || b.S == "true" {
		return tTrue
	}
	if b.S == "false" {
		return tNot(a)
	}
	return app("Bool", "=>", a, b)
}
func tEq(a, b Term) Term {
	if a.S == b.S {
		return tTrue
	}
	if a.Sort == "Str" {
		return app("Bool", "seq_eq", a, b)
	}
	if isIntLit(a.S) && isIntLit(b.S) {
		return tFalse
	}
	if a.Sort == "Bool" {
		if b.S == "true" {
			return a
		}
		if a.S == "true" {
			return b
		}
		if b.S == "false" {
			return tNot(a)
		}
		if a.S == "false" {
			return tNot(b)
		}
	}
	return app("Bool", "=", a, b)
}

// iteSorts: the sorts of the conditionals built so far.
var iteSorts sync.Map

func tIte(c, a, b Term) Term {
	if c.S == "true" || a.S == b.S {
		return a
	}
	if c.S == "false" {
		return b
	}
	r := app(a.Sort, "ite", c, a, b)
	iteSorts.Store(r.S, a.Sort)
	return r
}

var litRE = regexp.MustCompile(`^(\d+|\(- \d+\))$`)

func isIntLit(s string) bool { return litRE.MatchString(s) }
func litVal(s string) (*big.Int, bool) {
	if !isIntLit(s) {
		return nil, false
	}
	neg := strings.HasPrefix(s, "(")
	s = strings.Trim(s, "(-) ")
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	if neg {
		n.Neg(n)
	}
	return n, true
}

func arith(op string, a, b Term) Term {
	x, ok1 := litVal(a.S)
	y, ok2 := litVal(b.S)
	if ok1 && ok2 {
		switch op {
		case "+":
			return tBig(new(big.Int).Add(x, y))
		case "-":
			return tBig(new(big.Int).Sub(x, y))
		case "*":
			return tBig(new(big.Int).Mul(x, y))
		}
	}
	if ok2 && y.Sign() == 0 && (op == "+" || op == "-") {
		return a
	}
	if ok1 && x.Sign() == 0 && op == "+" {
		return b
	}
	if ok2 && op == "*" && y.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if ok1 && op == "*" && x.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	return app("Int", op, a, b)
}
func tAdd(a, b Term) Term { return arith("+", a, b) }
func tSub(a, b Term) Term { return arith("-", a, b) }
func tMul(a, b Term) Term { return arith("*", a, b) }
func cmp(op string, a, b Term) Term {
	x, ok1 := litVal(a.S)
	y, ok2 := litVal(b.S)
	if ok1 && ok2 {
		c := x.Cmp(y)
		r := false
		switch op {
		case "<":
			r = c < 0
		case "<=":
			r = c <= 0
		case ">":
			r = c > 0
		case ">=":
			r = c >= 0
		}
		if r {
			return tTrue
		}
		return tFalse
	}
	if a.S == b.S {
		if op == "<=" || op == ">=" {
			return tTrue
		}
		return tFalse
	}
	return app("Bool", op, a, b)
}
func tLe(a, b Term) Term { return cmp("<=", a, b) }
func tLt(a, b Term) Term { return cmp("<", a, b) }

func arrElem(sort string) string { // "(Array K V)" -> V
	d := 0
	body := sort[len("(Array ") : len(sort)-1]
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[i+1:]
			}
		}
	}
	panic("arrElem " + sort)
}
func arrKey(sort string) string {
	e := arrElem(sort)
	return strings.TrimSpace(sort[len("(Array ") : len(sort)-1-len(e)])
}
func tSel(a, i Term) Term { return app(arrElem(a.Sort), "select", a, i) }
func tSto(a, i, v Term) Term {
	if strings.HasPrefix(v.S, "(select "+a.S+" "+i.S+")") {
		return a
	}
	return app(a.Sort, "store", a, i, v)
}

func mkSlice(base, off, ln, cp Term) Term {
	return app("Slice", "mk_slice", base, off, ln, cp)
}
func splitArgs(s string) []string {
	// s = "(op a b c)" -> [op a b c]
	if !strings.HasPrefix(s, "(") {
		return nil
	}
	var out []string
	d, st := 0, 1
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			if d == 0 {
				out = append(out, s[st:i])
				return out
			}
			d--
		case ' ':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return out
}
func sliceField(s Term, n int, f string) Term {
	if strings.HasPrefix(s.S, "(mk_slice ") {
		return Term{splitArgs(s.S)[n], "Int"}
	}
	return app("Int", f, s)
}

// tAt is the position of element i of a slice starting at off (a function symbol of its own, so
// that quantified facts about elements have matchable patterns).
func tAt(off, i Term) Term {
	if off.S == "0" {
		return i
	}
	return app("Int", "at", off, i)
}
func sBase(s Term) Term { return sliceField(s, 1, "s_base") }
func sOff(s Term) Term  { return sliceField(s, 2, "s_off") }
func sLen(s Term) Term  { return sliceField(s, 3, "s_len") }
func sCap(s Term) Term  { return sliceField(s, 4, "s_cap") }

// ---------------------------------------------------------------- sorts

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
			b.WriteRune(c)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func unsup(f string, a ...any)      { panic(unsupported{fmt.Sprintf(f, a...)}) }

func isByteArray(t types.Type) (int64, bool) {
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Uint8 {
		return 0, false
	}
	return a.Len(), true
}
func isByteSlice(t types.Type) bool {
	a, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	one := big.NewInt(1)
	p := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	s := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), one), true
	}
	u := func(n uint) (*big.Int, *big.Int, bool) {
		return big.NewInt(0), new(big.Int).Sub(p(n), one), true
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return s(64)
	case types.Int32, types.UntypedRune:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil, false
}
