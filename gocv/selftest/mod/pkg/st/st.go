// Package st holds one small function per language feature gocv gives a meaning to. good.gcv
// states what each does (every obligation must be discharged), bad.gcv states something each
// does not do (every function must have an obligation that fails).
package st

import (
	"errors"
	"sort"
)

type P struct{ A, B int }
type Node struct {
	V    int
	Next *Node
	In   P
}
type Shape interface{ Area() int }
type Sq struct{ S int }
type Rc struct{ W, H int }

func (s Sq) Area() int  { return s.S * s.S }
func (r *Rc) Area() int { return r.W * r.H }

func Wrap8(x uint8) uint8           { return x + 1 }
func Trunc(x int64) int8            { return int8(x) }
func Shift(x uint32, k uint) uint32 { return x << k }
func Shr(x int32, k uint) int32     { return x >> k }
func Div(a, b int) int              { return a / b }
func Mod(a, b int) int              { return a % b }
func Index(s []int, i int) int      { return s[i] }
func Slice3(s []int) []int          { return s[1:2:2] }
func Deref(p *Node) int             { return p.V }

// append into spare capacity overwrites what a longer alias sees.
func AppendAlias(s []int) int {
	t := s[:1]
	_ = append(t, 77)
	return s[1]
}

// append without spare capacity copies.
func AppendCopy(s []int) int {
	t := s[:1:1]
	u := append(t, 77)
	u[0] = 5
	return s[0]
}

// two names for one element
func ElemAlias(s []int) int {
	t := s[1:]
	t[0] = 9
	return s[1]
}

func PtrAlias(p, q *Node) int {
	p.V = 1
	q.V = 2
	return p.V
}

func StructCopy(p *Node) int {
	in := p.In
	in.A = 100
	return p.In.A
}

func FieldPtr(p *Node) int {
	q := &p.In
	q.A = 100
	return p.In.A
}

func LocalPtr(x int) int {
	p := &x
	*p += 1
	return x
}

func ArrayCopy(a [3]int) int {
	b := a
	b[0] = 42
	return a[0]
}

func Overlap(s []int) int {
	copy(s[1:], s)
	return s[2]
}

// the range expression is evaluated once, the variable is a copy
func RangeCopy(s []P) int {
	for _, p := range s {
		p.A = 7
	}
	return s[0].A
}

func RangeLen(s []int) int {
	n := 0
	for range s {
		s = append(s, 1)
		n++
	}
	return n
}

func Sum(n int) int {
	s := 0
	for i := 1; i <= n; i++ {
		s += i
	}
	return s
}

func Labelled(s []int, k int) int {
	n := 0
outer:
	for i := 0; i < 3; i++ {
		for _, x := range s {
			if x == k {
				break outer
			}
			n++
		}
	}
	return n
}

func Switch(x int) int {
	r := 0
	switch {
	case x > 10:
		r = 1
		fallthrough
	case x > 5:
		r += 10
	default:
		r = 100
	}
	return r
}

func DeferOrder() (r int) {
	defer func() { r *= 2 }()
	defer func() { r += 3 }()
	return 1
}

func Capture(x int) int {
	f := func(d int) { x += d }
	f(2)
	f(3)
	return x
}

func Dyn(s Shape) int {
	if q, ok := s.(Sq); ok {
		return q.S
	}
	return -1
}

func DynPanics(s Shape) int { return s.(*Rc).W }

func MapPut(m map[string]int, k, l string) int {
	m[k] = 1
	m[l] = 2
	return m[k]
}

func MapMissing(m map[string]int, k string) (int, bool) {
	v, ok := m[k]
	return v, ok
}

func MapDelete(m map[string]int, k string) int {
	delete(m, k)
	return len(m)
}

func StrCat(a, b string) int { return len(a + b) }
func StrByte(s string) byte  { return s[0] }

func ByteStr(b []byte) string {
	s := string(b)
	b[0] = 'x'
	return s
}

func Err(x int) (int, error) {
	if x < 0 {
		return 0, errors.New("negative")
	}
	return x, nil
}

func Callee(p *Node, x int) { p.V = x }

func Caller(p, q *Node) int {
	v := q.V
	Callee(p, 5)
	return q.V - v
}

// writes q although its frame says p only
func Frame(p, q *Node) { q.V = 1 }

func FrameElems(s []int, i int) { s[i] = 0 }

func Early(s []int) int {
	for i, x := range s {
		if x < 0 {
			return i
		}
	}
	return -1
}

func Shadow(x int) int {
	y := x
	if x > 0 {
		y := 3
		_ = y
	}
	return y
}

func Swap(a, b int) (int, int) {
	a, b = b, a
	return a, b
}

// the index is evaluated before the assignment
func Parallel(s []int) int {
	i := 0
	i, s[i] = 1, 9
	return s[0]
}

func ShortCircuit(s []int) bool { return len(s) > 2 && s[2] == 1 }

func Sorted(s []int) { sort.Slice(s, func(i, j int) bool { return s[i] < s[j] }) }

func NilSlice() int {
	var s []int
	s = append(s, 4)
	return s[0]
}

func Make(n int) int {
	s := make([]int, 2, n)
	return s[1] + len(s)
}

func New() *Node {
	a := &Node{V: 1}
	b := &Node{V: 2}
	a.V = 3
	return b
}

func Unsigned(a, b uint) uint { return a - b }
func Mul(a, b int32) int32    { return a * b }
func Neg(a int8) int8         { return -a }
func And(a uint8) uint8       { return a & 0x0f }
func Cond(a, b bool) bool     { return a != b }

func Nested(p **Node) int {
	q := *p
	*p = &Node{V: 8}
	return q.V
}

func Decreasing(n int) int {
	for n > 0 {
		n--
	}
	return n
}

func ForkJoin(s []int) {
	done := make(chan struct{})
	go func() {
		s[0] = 1
		close(done)
	}()
	<-done
}

func RangeArr(a [3]int) int {
	n := 0
	for i, x := range a {
		a[2] = 50
		if i == 2 {
			n = x
		}
	}
	return n
}

func RangeArrPtr(a *[3]int) int {
	n := 0
	for i, x := range a {
		a[2] = 50
		if i == 2 {
			n = x
		}
	}
	return n
}

func TypeSwitch(s Shape) int {
	switch x := s.(type) {
	case Sq:
		return x.S
	case *Rc:
		if x == nil {
			return -3
		}
		return x.W
	}
	return -2
}

func variadic(xs ...int) int {
	if len(xs) > 0 {
		xs[0] = 7
	}
	return len(xs)
}

func VariadicFresh(a, b int) int { return variadic(a, b) + a }

func VariadicShare(s []int) int {
	variadic(s...)
	return s[0]
}

type holder struct {
	p  P
	xs []int
	m  map[int]int
}

func StructSlices(h holder) int {
	g := h
	g.xs[0] = 1
	g.p.A = 1
	return h.xs[0] + h.p.A
}

func LoopClosure(s []int) int {
	n := 0
	add := func(x int) { n += x }
	for range s {
		add(2)
	}
	return n
}

func PtrInSlice(s []P) int {
	p := &s[0]
	p.A = 12
	return s[0].A
}

// the pointer stays with the old array after append grew it
func PtrStale(s []P) int {
	s = s[:1:1]
	p := &s[0]
	s = append(s, P{})
	p.A = 12
	return s[0].A
}

func MapOfSlices(m map[string][]int, k string) int {
	s := m[k]
	s = append(s, 1)
	return len(m[k])
}

func MapStruct(m map[string]P, k string) int {
	p := m[k]
	p.A = 3
	return m[k].A
}

func StrCmp(a, b string) bool { return a < b }

func ContinueOuter(s []int) int {
	n := 0
outer:
	for i := 0; i < len(s); i++ {
		for j := 0; j < 2; j++ {
			if j == 1 {
				continue outer
			}
			n++
		}
		n = 1000
	}
	return n
}

func NamedDefer(p *Node) (err error) {
	defer func() {
		if err != nil {
			p.V = 1
		}
	}()
	return errors.New("x")
}

func MethodVal(q Sq) int {
	f := q.Area
	q.S = 0
	return f()
}

func Xor(a, b uint8) uint8 { return a ^ b }

func CopyLen(a, b []byte) int { return copy(a, b) }

func NilMapRead() int {
	var m map[string]int
	return m["x"]
}

func NilMapWrite(k string) {
	var m map[string]int
	m[k] = 1
}

func SliceUp(s []int) int { return len(s[:cap(s)]) }

func MinInt(a int64) int64 { return a / -1 }

func Recur(n int) int {
	if n <= 0 {
		return 0
	}
	return Recur(n-1) + 2
}

func Gen[T any](s []T, i int) T { return s[i] }

func IfaceEq(a, b Shape) bool { return a == b }
func IfaceNil(p *Rc) bool {
	var s Shape = p
	return s == nil
}
