package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"
)

// Val is a symbolic Go (or spec) value.
type Val struct {
	t     Term
	gt    types.Type // nil for pure spec values
	lv    *LVal      // statically known pointer target (gt is a pointer type)
	fn    *Closure   // statically known function value
	dyn   *Val       // statically known dynamic value of an interface
	list  []Val      // statically known variadic / composite slice elements
	tuple []Val
	pois  string // set when static information was lost in a merge
	boxed bool   // (variables only) t is the reference of a boxed variable
}

type Closure struct {
	lit  *ast.FuncLit
	fobj *types.Func
	recv *Val
	pkg  *Pkg
	ts   map[*types.TypeParam]types.Type
	id   int
}

type lvKind int

const (
	lvVar lvKind = iota
	lvField
	lvElem    // slice element
	lvArrElem // element of array lvalue
	lvDeref
	lvMap
	lvSeqElem // element of a slice value only this function can reach
)

type LVal struct {
	kind   lvKind
	obj    types.Object
	parent *LVal
	field  int
	slice  Term
	idx    Term
	ptr    Term
	m      Val
	key    Val
	gt     types.Type
}

// State is a symbolic program state.
type State struct {
	vars  map[types.Object]Val
	heap  map[string]Term
	alloc Term
	pc    Term
	dead  bool
	// identity of the branch this state stems from, as long as no path left it
	origPC string
}

func (s *State) clone() *State {
	n := &State{vars: make(map[types.Object]Val, len(s.vars)), heap: make(map[string]Term, len(s.heap)), alloc: s.alloc, pc: s.pc, dead: s.dead, origPC: s.origPC}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) set(o *State) { *s = *o }

// Oblig is one proof obligation.
type Oblig struct {
	Name   string
	Pos    string
	nItems int
	goal   Term // already guarded by the path condition
	Status string
	Solver string
	MS     int64
	Detail string
	cover  bool // must be satisfiable (reachability check)
}

type exit struct {
	st   *State
	vals []Val
}

type frameCtx struct { // one function activation (target or inlined)
	src     *FuncSrc
	lit     *ast.FuncLit
	pkg     *Pkg
	ts      map[*types.TypeParam]types.Type
	sig     *types.Signature
	results []types.Object // named results
	returns []exit
	defers  []deferred
	brk     []*jumpCtx
	killed  bool
	pseudo  bool
	site    string // "@n": inlined at the n-th call in the verified function's body
	callPos token.Pos
}

type deferred struct {
	pc      Term
	call    *ast.CallExpr
	args    []Val
	fun     Val
	fobj    *types.Func
	recv    *Val
	sig     *types.Signature
	builtin string
}

type jumpCtx struct {
	label  string
	isLoop bool
	breaks []*State
	conts  []*State
}

// VC generates the verification conditions of one target function.
type VC struct {
	p         *Prog
	cs        *Contracts
	target    string
	items     []string
	globals   []string
	declared  map[string]int // symbol -> index in items
	sorts     map[string]bool
	sortInfo  map[string]*structInfo
	obls      []*Oblig
	ctr       int
	muted     int
	frames    []*frameCtx
	entry     *State
	cur       *Contract
	loopOrd   int
	strLits   map[string]Term
	callSite  string
	catTails  map[string]catTail // concatenations ending in a constant
	closures  []*Closure
	nameCount map[string]int
	writes    *[]writeRec
	inlined   map[string]bool
	assumed   map[string]bool // keys of contracts used at call sites
	trusted   map[string]bool
	owned     map[*types.Var]string
	imm       map[string]bool // immutable slice element sorts
	solver    *Solver
	depth     int
	loopDepth int
	notes     []string
	paramVals []Val
	resVals   []Val
	defs      map[string]string // names given to terms
	tails     map[ast.Stmt]bool
	snaps     map[string]snap // states before and after calls of the verified function
	typeArgs  map[*types.TypeParam]types.Type
	axDone    map[string]bool
	specDone  map[string]string
	specMacro map[string]bool // specification functions that read memory
	ghostAxs  []string
	mode      int // 0 real, 1 trial (Houdini), 2 dry run
	lrStack   []*loopRun
	ghosts    map[string]*types.Var
	enumOf    map[ast.Node]enumInfo
	modsCache map[modKey]*loopMods
	dropped   map[modKey]map[string]bool
	noterm    map[string]bool
	seqElems  map[string]string
}

type writeRec struct {
	heap string
	base Term
}

type structInfo struct {
	name   string
	fields []*types.Var
	sorts  []string
	opaque bool
}

func (v *VC) top() *frameCtx { return v.frames[len(v.frames)-1] }

func (v *VC) item(s string)  { v.items = append(v.items, s) }
func (v *VC) gitem(s string) { v.globals = append(v.globals, s) }

// mark / rollback undo local items (used for trial runs of loop bodies).
func (v *VC) mark() (int, int) { return len(v.items), v.ctr }
func (v *VC) rollback(n, ctr int) {
	v.items = v.items[:n]
	_ = ctr // names are never reused
	for k, i := range v.declared {
		if i >= n {
			delete(v.declared, k)
		}
	}
}

func (v *VC) declFun(name, args, res string) {
	if _, ok := v.declared[name]; ok {
		return
	}
	v.declared[name] = -1
	v.gitem(fmt.Sprintf("(declare-fun %s (%s) %s)", name, args, res))
}

func (v *VC) fresh(prefix, sort string) Term {
	v.ctr++
	n := fmt.Sprintf("%s!%d", sanitize(prefix), v.ctr)
	v.declared[n] = len(v.items)
	v.item(fmt.Sprintf("(declare-fun %s () %s)", n, sort))
	return Term{n, sort}
}

// def names a term to keep expressions small.
func (v *VC) def(prefix string, t Term) Term {
	if len(t.S) < 40 {
		return t
	}
	c := v.fresh(prefix, t.Sort)
	v.item(fmt.Sprintf("(assert (= %s %s))", c.S, t.S))
	if v.defs == nil {
		v.defs = map[string]string{}
	}
	v.defs[c.S] = t.S
	return c
}

func (v *VC) assume(st *State, f Term) {
	f = tImp(st.pc, f)
	if f.S == "true" {
		return
	}
	v.item("(assert " + f.S + ")")
}
func (v *VC) axiom(f string) { v.gitem("(assert " + f + ")") }

func (v *VC) pos(n token.Pos) string {
	if !n.IsValid() {
		return ""
	}
	p := v.p.Fset.Position(n)
	return strings.TrimPrefix(p.Filename, v.p.RepoDir+"/") + ":" + fmt.Sprint(p.Line)
}

func (v *VC) oblig(st *State, name string, pos token.Pos, goal Term) {
	if st.dead || v.mode == 2 {
		return
	}
	if v.muted > 0 {
		v.assume(st, goal)
		return
	}
	g := tImp(st.pc, goal)
	v.nameCount[name]++
	if c := v.nameCount[name]; c > 1 {
		name = fmt.Sprintf("%s (%d)", name, c)
	}
	o := &Oblig{Name: name, Pos: v.pos(pos), nItems: len(v.items), goal: g}
	if g.S == "true" {
		o.Status = "proved"
		o.Solver = "simplifier"
	}
	v.obls = append(v.obls, o)
	// a proved obligation may be used afterwards (standard: assert then assume)
	v.assume(st, goal)
}

func (v *VC) cover(st *State, name string) {
	if v.muted > 0 || st.dead {
		return
	}
	v.obls = append(v.obls, &Oblig{Name: name, nItems: len(v.items), goal: tNot(st.pc), cover: true})
}

// ------------------------------------------------------------------ sorts

func (v *VC) tsub(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		for i := len(v.frames) - 1; i >= 0; i-- {
			if r, ok := v.frames[i].ts[tp]; ok {
				if r == t {
					return t
				}
				return v.tsub(r)
			}
		}
		if r, ok := v.typeArgs[tp]; ok {
			return r
		}
	}
	switch t := t.(type) {
	case *types.Slice:
		if e := v.tsub(t.Elem()); e != t.Elem() {
			return types.NewSlice(e)
		}
	case *types.Pointer:
		if e := v.tsub(t.Elem()); e != t.Elem() {
			return types.NewPointer(e)
		}
	case *types.Array:
		if e := v.tsub(t.Elem()); e != t.Elem() {
			return types.NewArray(e, t.Len())
		}
	case *types.Map:
		k, e := v.tsub(t.Key()), v.tsub(t.Elem())
		if k != t.Key() || e != t.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Named:
		if ta := t.TypeArgs(); ta != nil && ta.Len() > 0 {
			ch := false
			var as []types.Type
			for i := 0; i < ta.Len(); i++ {
				e := v.tsub(ta.At(i))
				if e != ta.At(i) {
					ch = true
				}
				as = append(as, e)
			}
			if ch {
				if n, err := types.Instantiate(nil, t.Origin(), as, false); err == nil {
					return n
				}
			}
		}
	}
	return t
}

var byteRE = regexp.MustCompile(`\bbyte\b`)
var runeRE = regexp.MustCompile(`\brune\b`)

var anyRE = regexp.MustCompile(`\bany\b`)

func typeName(t types.Type) string {
	return sanitize(canonType(t, func(p *types.Package) string { return p.Name() }))
}

// canonType writes a type with the aliases replaced (byte, rune, any and declared ones).
func canonType(t types.Type, q types.Qualifier) string {
	s := types.TypeString(unalias(t), q)
	return anyRE.ReplaceAllString(runeRE.ReplaceAllString(byteRE.ReplaceAllString(s, "uint8"), "int32"), "interface{}")
}

func unalias(t types.Type) types.Type {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Pointer:
		if e := unalias(x.Elem()); e != x.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := unalias(x.Elem()); e != x.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := unalias(x.Elem()); e != x.Elem() {
			return types.NewArray(e, x.Len())
		}
	case *types.Chan:
		if e := unalias(x.Elem()); e != x.Elem() {
			return types.NewChan(x.Dir(), e)
		}
	case *types.Map:
		k, e := unalias(x.Key()), unalias(x.Elem())
		if k != x.Key() || e != x.Elem() {
			return types.NewMap(k, e)
		}
	}
	return t
}

func (v *VC) declSort(n string) {
	if !v.sorts[n] {
		v.sorts[n] = true
		v.gitem("(declare-sort " + n + " 0)")
	}
}

var opaqueStructs = map[string]bool{"time.Time": true, "math/big.Int": true}

func (v *VC) sortOf(t types.Type) string {
	t = v.tsub(t)
	switch t := t.(type) {
	case *types.TypeParam:
		n := "T_" + t.Obj().Name()
		v.declSort(n)
		return n
	case *types.Named, *types.Alias:
		if st, ok := t.Underlying().(*types.Struct); ok {
			return v.structOf(t, st).name
		}
		return v.sortOf(t.Underlying())
	case *types.Basic:
		if _, _, ok := intRange(t); ok {
			return "Int"
		}
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return "Bool"
		case types.String, types.UntypedString:
			return "Str"
		case types.UntypedInt:
			return "Int"
		case types.UntypedNil:
			return "Int"
		case types.Float32, types.Float64, types.UntypedFloat:
			v.declSort("Float")
			return "Float"
		}
	case *types.Slice:
		if v.imm["*"] || v.imm[typeName(v.tsub(t.Elem()))] {
			return v.immSort(t)
		}
		return "Slice"
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return "Int"
	case *types.Array:
		if _, ok := isByteArray(t); ok {
			return "Str"
		}
		return "(Array Int " + v.sortOf(t.Elem()) + ")"
	case *types.Struct:
		return v.structOf(t, t).name
	}
	unsup("type %s", t)
	return ""
}

// immSort: slices of this element type are treated as immutable values (see DESIGN: value mode).
func (v *VC) immSort(t *types.Slice) string {
	e := v.sortOf(t.Elem())
	if isByteSlice(t) {
		if !v.sorts["IBytes"] {
			v.sorts["IBytes"] = true
			v.gitem("(declare-datatypes ((IBytes 0)) (((mk_ib (ib_str Str) (ib_nil Bool)))))")
		}
		return "IBytes"
	}
	n := "IS_" + sanitize(e)
	if !v.sorts[n] {
		v.sorts[n] = true
		v.gitem(fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s (%s_arr (Array Int %s)) (%s_len Int) (%s_nil Bool)))))", n, n, n, e, n, n))
		v.gitem(fmt.Sprintf("(declare-fun %s_shift ((Array Int %s) Int) (Array Int %s))", n, e, e))
		v.gitem(fmt.Sprintf("(assert (forall ((a (Array Int %s)) (k Int) (i Int)) (! (= (select (%s_shift a k) i) (select a (+ i k))) :pattern ((select (%s_shift a k) i)))))", e, n, n))
	}
	return n
}

func (v *VC) structOf(t types.Type, st *types.Struct) *structInfo {
	name := "S_" + typeName(t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		name = "S_" + sanitize(strings.TrimPrefix(n.Obj().Pkg().Path(), "github.com/netsec-ethz/fpki/")) + "_" + typeName(t)
	}
	if si, ok := v.sortInfo[name]; ok {
		return si
	}
	si := &structInfo{name: name}
	v.sortInfo[name] = si
	for i := 0; i < st.NumFields(); i++ {
		si.fields = append(si.fields, st.Field(i))
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && v.p.Pkgs[n.Obj().Pkg().Path()] == nil {
		si.opaque = true
	}
	if len(si.fields) > 0 && !si.opaque {
		for _, f := range si.fields {
			var s string
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); ok {
							v.declSort("Opaque")
							s = "Opaque"
							return
						}
						panic(r)
					}
				}()
				s = v.sortOf(f.Type())
			}()
			si.sorts = append(si.sorts, s)
		}
		var b strings.Builder
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", name, name)
		for i := range si.fields {
			fmt.Fprintf(&b, " (%s %s)", si.fld(i), si.sorts[i])
		}
		b.WriteString("))))")
		v.sorts[name] = true
		v.gitem(b.String())
	} else if si.opaque {
		v.declSort(name)
	} else {
		v.sorts[name] = true
		v.gitem(fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s))))", name, name))
	}
	return si
}

func (si *structInfo) fld(i int) string {
	return fmt.Sprintf("%s_f%d_%s", si.name, i, sanitize(si.fields[i].Name()))
}

func (v *VC) structInfoOf(t types.Type) *structInfo {
	t = v.tsub(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsup("not a struct: %s", t)
	}
	return v.structOf(t, st)
}

func (v *VC) getField(s Term, gt types.Type, i int) Val {
	si := v.structInfoOf(gt)
	ft := v.fieldType(gt, i)
	if si.opaque {
		fs := v.sortOf(ft)
		v.declFun(si.fld(i), si.name, fs)
		t := app(fs, si.fld(i), s)
		return Val{t: t, gt: ft}
	}
	if strings.HasPrefix(s.S, "(mk_"+si.name+" ") {
		return Val{t: Term{splitArgs(s.S)[i+1], si.sorts[i]}, gt: ft}
	}
	return Val{t: app(si.sorts[i], si.fld(i), s), gt: ft}
}

func (v *VC) fieldType(gt types.Type, i int) types.Type {
	gt = v.tsub(gt)
	return v.tsub(gt.Underlying().(*types.Struct).Field(i).Type())
}

func (v *VC) setField(s Term, gt types.Type, i int, nv Term) Term {
	si := v.structInfoOf(gt)
	if si.opaque {
		return v.updExternal(s, gt, si, i, nv)
	}
	args := make([]Term, len(si.fields))
	for j := range si.fields {
		if j == i {
			args[j] = nv
		} else {
			args[j] = v.getField(s, gt, j).t
		}
	}
	return app(si.name, "mk_"+si.name, args...)
}

// updExternal: a struct of another module with one exported field replaced. Only its exported
// fields are known to stay as they are.
func (v *VC) updExternal(s Term, gt types.Type, si *structInfo, i int, nv Term) Term {
	if !si.fields[i].Exported() {
		unsup("write to field of external struct %s", gt)
	}
	fn := "upd_" + si.fld(i)
	if _, ok := v.declared[fn]; !ok {
		for j, f := range si.fields {
			if f.Exported() {
				v.declFun(si.fld(j), si.name, v.sortOf(v.fieldType(gt, j)))
			}
		}
		v.declFun(fn, si.name+" "+nv.Sort, si.name)
		var eqs []string
		for j, f := range si.fields {
			if j == i {
				eqs = append(eqs, fmt.Sprintf("(= (%s (%s s x)) x)", si.fld(j), fn))
			} else if f.Exported() {
				eqs = append(eqs, fmt.Sprintf("(= (%s (%s s x)) (%s s))", si.fld(j), fn, si.fld(j)))
			}
		}
		v.axiom(fmt.Sprintf("(forall ((s %s) (x %s)) (! (and %s) :pattern ((%s s x))))", si.name, nv.Sort, strings.Join(eqs, " "), fn))
	}
	return app(si.name, fn, s, nv)
}

func (v *VC) zero(gt types.Type) Term {
	gt = v.tsub(gt)
	s := v.sortOf(gt)
	if n, ok := isByteArray(gt); ok {
		name := fmt.Sprintf("zeros_%d", n)
		if _, ok := v.declared[name]; !ok {
			v.declFun(name, "", "Str")
			v.axiom(fmt.Sprintf("(= (slen %s) %d)", name, n))
			v.axiom(fmt.Sprintf("(forall ((i Int)) (! (= (sat %s i) 0) :pattern ((sat %s i))))", name, name))
		}
		return Term{name, "Str"}
	}
	if a, ok := gt.Underlying().(*types.Array); ok {
		return Term{fmt.Sprintf("((as const %s) %s)", s, v.zero(a.Elem()).S), s}
	}
	switch s {
	case "Int":
		return tInt(0)
	case "Bool":
		return tFalse
	case "Str":
		return Term{"str_empty", "Str"}
	case "Slice":
		return mkSlice(tInt(0), tInt(0), tInt(0), tInt(0))
	case "IBytes":
		return Term{"(mk_ib str_empty true)", s}
	}
	if strings.HasPrefix(s, "IS_") {
		e := v.zero(gt.Underlying().(*types.Slice).Elem())
		return Term{fmt.Sprintf("(mk_%s ((as const (Array Int %s)) %s) 0 true)", s, e.Sort, e.S), s}
	}
	if _, ok := gt.Underlying().(*types.Struct); ok {
		si := v.structInfoOf(gt)
		if si.opaque {
			n := "zero_" + si.name
			v.declFun(n, "", si.name)
			return Term{n, si.name}
		}
		if len(si.fields) == 0 {
			return Term{"mk_" + si.name, si.name}
		}
		args := make([]Term, len(si.fields))
		for i := range si.fields {
			if si.sorts[i] == "Opaque" {
				v.declFun("zero_opaque", "", "Opaque")
				args[i] = Term{"zero_opaque", "Opaque"}
				continue
			}
			args[i] = v.zero(si.fields[i].Type())
		}
		return app(si.name, "mk_"+si.name, args...)
	}
	n := "zero_" + sanitize(s)
	v.declFun(n, "", s)
	return Term{n, s}
}

// Go's address space on 64-bit platforms has at most 48 bits; more elements exist only if they have no size.
var maxLen, maxBytes = new(big.Int).Lsh(big.NewInt(1), 62), new(big.Int).Lsh(big.NewInt(1), 48)

func (v *VC) lenMax(el types.Type) Term {
	var sized func(t types.Type) bool
	sized = func(t types.Type) bool {
		if _, ok := t.(*types.TypeParam); ok {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if sized(v.tsub(u.Field(i).Type())) {
					return true
				}
			}
			return false
		case *types.Array:
			return u.Len() > 0 && sized(v.tsub(u.Elem()))
		}
		return true
	}
	if sized(v.tsub(el)) {
		return tBig(maxBytes)
	}
	return tBig(maxLen)
}

// tinv gives facts that every value of the Go type satisfies (assumed for inputs and loads).
func (v *VC) tinv(st *State, t Term, gt types.Type, depth int) Term {
	if gt == nil {
		return tTrue
	}
	gt = v.tsub(gt)
	if n, ok := isByteArray(gt); ok {
		return tEq(app("Int", "slen", t), tInt(n))
	}
	switch u := gt.Underlying().(type) {
	case *types.Basic:
		if t.Sort == "Str" {
			return tLe(app("Int", "slen", t), tBig(maxBytes))
		}
		lo, hi, ok := intRange(u)
		if ok {
			return tAnd(tLe(tBig(lo), t), tLe(t, tBig(hi)))
		}
	case *types.Slice:
		if t.Sort == "IBytes" {
			return tAnd(tLe(app("Int", "slen", app("Str", "ib_str", t)), tBig(maxBytes)),
				tImp(app("Bool", "ib_nil", t), tEq(app("Str", "ib_str", t), Term{"str_empty", "Str"})))
		}
		if strings.HasPrefix(t.Sort, "IS_") {
			l := app("Int", t.Sort+"_len", t)
			return tAnd(tLe(tInt(0), l), tLe(l, v.lenMax(u.Elem())), tImp(app("Bool", t.Sort+"_nil", t), tEq(l, tInt(0))))
		}
		return tAnd(tLe(tInt(0), sBase(t)), tLt(sBase(t), st.alloc), tLe(tInt(0), sOff(t)), tLe(tInt(0), sLen(t)), tLe(sLen(t), sCap(t)),
			tLe(tAdd(sOff(t), sCap(t)), v.lenMax(u.Elem())),
			tImp(tEq(sBase(t), tInt(0)), tAnd(tEq(sLen(t), tInt(0)), tEq(sCap(t), tInt(0)), tEq(sOff(t), tInt(0)))))
	case *types.Pointer, *types.Map, *types.Chan:
		return tAnd(tLe(tInt(0), t), tLt(t, st.alloc))
	case *types.Interface, *types.Signature:
		if t.Sort != "Int" { // type parameter: uninterpreted sort
			return tTrue
		}
		return tLe(tInt(0), t)
	case *types.Struct:
		si := v.structInfoOf(gt)
		if si.opaque || depth <= 0 {
			return tTrue
		}
		var fs []Term
		for i := range si.fields {
			if si.sorts[i] == "Opaque" {
				continue
			}
			fs = append(fs, v.tinv(st, v.getField(t, gt, i).t, v.fieldType(gt, i), depth-1))
		}
		return tAnd(fs...)
	}
	return tTrue
}

// ------------------------------------------------------------------ heaps

func (v *VC) sliceHeapKey(elem types.Type) string { return "SH_" + typeName(v.tsub(elem)) }
func (v *VC) ptrHeapKey(elem types.Type) string   { return "PH_" + typeName(v.tsub(elem)) }

func (v *VC) heap(st *State, key, sort string) Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	// first use: same initial symbol in every state
	name := "H0_" + key
	if _, ok := v.declared[name]; !ok {
		v.declared[name] = -1
		v.gitem(fmt.Sprintf("(declare-fun %s () %s)", name, sort))
		v.heapAxiom(key, Term{name, sort})
	}
	t := Term{name, sort}
	st.heap[key] = t
	if v.entry != nil {
		if _, ok := v.entry.heap[key]; !ok {
			v.entry.heap[key] = t
		}
	}
	return t
}

func (v *VC) heapAxiom(key string, h Term) {
	if isByteHeap(key) {
		v.axiom(fmt.Sprintf("(forall ((r Int) (i Int)) (! (and (<= 0 (select (select %s r) i)) (<= (select (select %s r) i) 255)) :pattern ((select (select %s r) i))))", h.S, h.S, h.S))
	}
}

func (v *VC) sliceHeap(st *State, elem types.Type) Term {
	return v.heap(st, v.sliceHeapKey(elem), "(Array Int (Array Int "+v.sortOf(elem)+"))")
}
func (v *VC) ptrHeap(st *State, elem types.Type) Term {
	return v.heap(st, v.ptrHeapKey(elem), "(Array Int "+v.sortOf(elem)+")")
}
func (v *VC) mapHeaps(st *State, m *types.Map) (kd, kv, kc string, d, val, c Term) {
	k, e := v.sortOf(m.Key()), v.sortOf(m.Elem())
	n := typeName(v.tsub(m.Key())) + "__" + typeName(v.tsub(m.Elem()))
	kd, kv, kc = "MD_"+n, "MV_"+n, "MC_"+n
	d = v.heap(st, kd, "(Array Int (Array "+k+" Bool))")
	val = v.heap(st, kv, "(Array Int (Array "+k+" "+e+"))")
	c = v.heap(st, kc, "(Array Int Int)")
	return
}

func (v *VC) setHeap(st *State, key string, h Term) {
	st.heap[key] = v.def("h_"+key, h)
}

func (v *VC) recWrite(key string, base Term) {
	if v.writes != nil {
		*v.writes = append(*v.writes, writeRec{key, base})
	}
}

func (v *VC) newRef(st *State) Term {
	r := v.fresh("ref", "Int")
	v.item(fmt.Sprintf("(assert (= %s %s))", r.S, st.alloc.S))
	na := v.fresh("alloc", "Int")
	v.item(fmt.Sprintf("(assert (= %s (+ %s 1)))", na.S, r.S))
	st.alloc = na
	return r
}

// ------------------------------------------------------------------ merge

func (v *VC) mergeVal(c Term, a, b Val, what string) Val {
	if a.pois != "" {
		return a
	}
	if b.pois != "" {
		return b
	}
	if a.fn != nil || b.fn != nil || a.lv != nil || b.lv != nil || a.list != nil || b.list != nil {
		if sameStatic(a, b) {
			return a
		}
		fid := func(x Val) Term {
			if x.fn != nil {
				return tInt(int64(1000 + x.fn.id))
			}
			return x.t
		}
		if (a.fn != nil || b.fn != nil) && fid(a).ok() && fid(b).ok() && a.lv == nil && b.lv == nil {
			return Val{t: tIte(c, fid(a), fid(b)), gt: a.gt}
		}
		if a.t.ok() && b.t.ok() && a.lv == nil && b.lv == nil {
			return Val{t: tIte(c, a.t, b.t), gt: a.gt}
		}
		return Val{pois: "static value of " + what + " differs between branches", gt: a.gt}
	}
	if a.t.S == b.t.S && a.t.ok() {
		if a.dyn != nil && !(b.dyn != nil && sameStatic(*a.dyn, *b.dyn) && a.dyn.t.S == b.dyn.t.S) {
			a.dyn = nil
		}
		return a
	}
	if len(a.tuple) > 0 {
		r := a
		r.tuple = nil
		for i := range a.tuple {
			r.tuple = append(r.tuple, v.mergeVal(c, a.tuple[i], b.tuple[i], what))
		}
		return r
	}
	r := a
	r.dyn = nil
	r.t = tIte(c, a.t, b.t)
	if r.t.Sort == "Slice" && strings.HasPrefix(r.t.S, "(ite ") && len(r.t.S) < 40 {
		n := v.fresh(what, r.t.Sort)
		v.item(fmt.Sprintf("(assert (= %s %s))", n.S, r.t.S))
		r.t = n
	}
	return r
}

func sameStatic(a, b Val) bool {
	if (a.fn == nil) != (b.fn == nil) || (a.lv == nil) != (b.lv == nil) || len(a.list) != len(b.list) {
		return false
	}
	if a.fn != nil && a.fn.id != b.fn.id {
		return false
	}
	if a.lv != nil && !sameLV(a.lv, b.lv) {
		return false
	}
	for i := range a.list {
		if !sameStatic(a.list[i], b.list[i]) || a.list[i].t.S != b.list[i].t.S {
			return false
		}
	}
	return true
}

func sameLV(a, b *LVal) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.kind == b.kind && a.obj == b.obj && a.field == b.field && a.slice.S == b.slice.S && a.idx.S == b.idx.S &&
		a.ptr.S == b.ptr.S && sameLV(a.parent, b.parent)
}

// merge joins two states reached under disjoint path conditions.
func (v *VC) merge(a, b *State) *State {
	if a == nil || a.dead {
		return b
	}
	if b == nil || b.dead {
		return a
	}
	// discriminate with a's path condition
	r := &State{vars: map[types.Object]Val{}, heap: map[string]Term{}}
	c := v.def("pc", a.pc)
	a.pc = c
	r.pc = v.def("pc", tOr(a.pc, b.pc))
	// a static pointer to a variable in only one of the branches becomes a reference
	for _, k := range objKeys(a.vars) {
		va := a.vars[k]
		vb, ok := b.vars[k]
		if !ok || va.pois != "" || vb.pois != "" || va.boxed || vb.boxed || (va.lv == nil && vb.lv == nil) || sameStatic(va, vb) {
			continue
		}
		static := func(x Val) bool {
			return x.lv == nil && x.t.ok() || x.lv != nil && (x.lv.kind == lvDeref || x.lv.kind == lvVar)
		}
		holder := func(s *State, x Val) bool {
			if x.lv == nil || x.lv.kind != lvVar {
				return true
			}
			y, ok := s.vars[x.lv.obj]
			return ok && (y.boxed || y.fn == nil && y.lv == nil && y.list == nil && y.pois == "")
		}
		if static(va) && static(vb) && holder(a, va) && holder(b, vb) {
			a.vars[k] = Val{t: v.term(a, va), gt: va.gt}
			b.vars[k] = Val{t: v.term(b, vb), gt: vb.gt}
		}
	}
	// box variables boxed in only one of the branches
	for _, k := range objKeys(a.vars) {
		va := a.vars[k]
		vb, ok := b.vars[k]
		if !ok {
			continue
		}
		if va.boxed && !vb.boxed {
			v.box(b, k)
		} else if vb.boxed && !va.boxed {
			v.box(a, k)
		}
	}
	r.alloc = v.def("alloc", tIte(c, a.alloc, b.alloc))
	for _, k := range objKeys(a.vars) {
		va := a.vars[k]
		vb, ok := b.vars[k]
		if !ok {
			continue
		}
		m := v.mergeVal(c, va, vb, k.Name())
		if m.t.ok() {
			m.t = v.def(k.Name(), m.t)
		}
		r.vars[k] = m
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		ha, ok1 := a.heap[k]
		hb, ok2 := b.heap[k]
		if !ok1 {
			ha = v.heap(a, k, hb.Sort)
		}
		if !ok2 {
			hb = v.heap(b, k, ha.Sort)
		}
		r.heap[k] = v.def("h_"+k, tIte(c, ha, hb))
	}
	return r
}

func objKeys(m map[types.Object]Val) []types.Object {
	ks := make([]types.Object, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Pos() != ks[j].Pos() {
			return ks[i].Pos() < ks[j].Pos()
		}
		return ks[i].Name() < ks[j].Name()
	})
	return ks
}

func (v *VC) mergeAll(ss []*State) *State {
	var r *State
	for _, s := range ss {
		r = v.merge(r, s)
	}
	if r == nil {
		return &State{vars: map[types.Object]Val{}, heap: map[string]Term{}, pc: tFalse, alloc: tInt(1), dead: true}
	}
	return r
}

// ------------------------------------------------------------------ lvalues

func (v *VC) box(st *State, obj types.Object) Term {
	val := st.vars[obj]
	if val.boxed {
		return val.t
	}
	if val.fn != nil || val.lv != nil || val.list != nil {
		unsup("address of %s holding a static value escapes", obj.Name())
	}
	r := v.newRef(st)
	gt := v.tsub(obj.Type())
	key := v.ptrHeapKey(gt)
	h := v.ptrHeap(st, gt)
	v.setHeap(st, key, tSto(h, r, val.t))
	v.recWrite(key, r)
	st.vars[obj] = Val{t: r, gt: val.gt, boxed: true}
	return r
}

func (v *VC) readLV(st *State, l *LVal, n token.Pos) Val {
	switch l.kind {
	case lvVar:
		val, ok := st.vars[l.obj]
		if !ok {
			unsup("variable %s not in scope of the symbolic state", l.obj.Name())
		}
		if val.pois != "" {
			unsup("%s", val.pois)
		}
		if val.boxed {
			t := tSel(v.ptrHeap(st, v.tsub(l.obj.Type())), val.t)
			v.assume(st, v.tinv(st, t, l.obj.Type(), 2))
			return Val{t: t, gt: v.tsub(l.obj.Type())}
		}
		return val
	case lvField:
		p := v.readLV(st, l.parent, n)
		r := v.getField(p.t, l.parent.gt, l.field)
		return v.assumeInv(st, r)
	case lvElem:
		h := v.sliceHeap(st, l.gt)
		t := tSel(tSel(h, sBase(l.slice)), tAt(sOff(l.slice), l.idx))
		r := Val{t: t, gt: l.gt}
		return v.assumeInv(st, r)
	case lvArrElem:
		p := v.readLV(st, l.parent, n)
		if p.t.Sort == "Str" {
			return Val{t: app("Int", "sat", p.t, l.idx), gt: l.gt}
		}
		r := Val{t: tSel(p.t, l.idx), gt: l.gt}
		return v.assumeInv(st, r)
	case lvDeref:
		r := Val{t: tSel(v.ptrHeap(st, l.gt), l.ptr), gt: l.gt}
		return v.assumeInv(st, r)
	case lvMap:
		r, _ := v.mapGet(st, l.m, l.key)
		return r
	case lvSeqElem:
		p := v.readLV(st, l.parent, n)
		return v.assumeInv(st, Val{t: v.seqGet(p.t, l.idx, l.gt), gt: l.gt})
	}
	panic("readLV")
}

// assumeInv assumes the type invariant of a value read from memory (long terms get a name).
func (v *VC) assumeInv(st *State, r Val) Val {
	if !r.t.ok() {
		return r
	}
	if len(r.t.S) > 200 {
		r.t = v.def("rd", r.t)
	}
	v.assume(st, v.tinv(st, r.t, r.gt, 1))
	return r
}

func (v *VC) writeLV(st *State, l *LVal, val Val, n token.Pos) {
	switch l.kind {
	case lvVar:
		old, ok := st.vars[l.obj]
		if ok && old.boxed {
			key := v.ptrHeapKey(l.obj.Type())
			v.setHeap(st, key, tSto(v.ptrHeap(st, v.tsub(l.obj.Type())), old.t, v.term(st, val)))
			v.recWrite(key, old.t)
			return
		}
		if val.t.ok() {
			val.t = v.def(l.obj.Name(), val.t)
		}
		val.gt = v.tsub(l.obj.Type())
		st.vars[l.obj] = val
	case lvField:
		p := v.readLV(st, l.parent, n)
		v.writeLV(st, l.parent, Val{t: v.setField(p.t, l.parent.gt, l.field, v.term(st, val)), gt: p.gt}, n)
	case lvElem:
		key := v.sliceHeapKey(l.gt)
		h := v.sliceHeap(st, l.gt)
		row := tSel(h, sBase(l.slice))
		v.setHeap(st, key, tSto(h, sBase(l.slice), tSto(row, tAt(sOff(l.slice), l.idx), v.term(st, val))))
		v.recWrite(key, sBase(l.slice))
	case lvArrElem:
		p := v.readLV(st, l.parent, n)
		if p.t.Sort == "Str" {
			v.writeLV(st, l.parent, Val{t: app("Str", "supd", p.t, l.idx, v.term(st, val)), gt: p.gt}, n)
			return
		}
		v.writeLV(st, l.parent, Val{t: tSto(p.t, l.idx, v.term(st, val)), gt: p.gt}, n)
	case lvDeref:
		key := v.ptrHeapKey(l.gt)
		v.setHeap(st, key, tSto(v.ptrHeap(st, l.gt), l.ptr, v.term(st, val)))
		v.recWrite(key, l.ptr)
	case lvMap:
		v.mapSet(st, l.m, l.key, val)
	case lvSeqElem:
		p := v.readLV(st, l.parent, n)
		v.writeLV(st, l.parent, Val{t: v.seqSet(p.t, l.idx, v.term(st, val)), gt: p.gt}, n)
	}
}

// term turns a value into an SMT term, boxing variables whose address escapes.
func (v *VC) term(st *State, a Val) Term {
	if a.pois != "" {
		unsup("%s", a.pois)
	}
	if a.lv != nil {
		switch a.lv.kind {
		case lvVar:
			return v.box(st, a.lv.obj)
		case lvDeref:
			return a.lv.ptr
		}
		unsup("pointer into a slice element or field escapes")
	}
	if a.t.ok() {
		return a.t
	}
	if a.fn != nil {
		return tInt(int64(1000 + a.fn.id))
	}
	if a.dyn != nil {
		return v.boxIface(st, Val{t: v.term(st, *a.dyn), gt: a.dyn.gt}).t
	}
	unsup("value without a term")
	return Term{}
}

// ------------------------------------------------------------------ maps

func (v *VC) mapGet(st *State, m, key Val) (Val, Term) {
	mt := m.gt.Underlying().(*types.Map)
	_, _, _, d, val, _ := v.mapHeaps(st, mt)
	k := v.term(st, key)
	in := tAnd(tNot(tEq(m.t, tInt(0))), tSel(tSel(d, m.t), k))
	r := Val{t: tIte(in, tSel(tSel(val, m.t), k), v.zero(mt.Elem())), gt: v.tsub(mt.Elem())}
	r.t = v.def("mget", r.t)
	r = v.assumeInv(st, r)
	return r, in
}

func (v *VC) mapSet(st *State, m, key, nv Val) {
	mt := m.gt.Underlying().(*types.Map)
	kd, kv, kc, d, val, c := v.mapHeaps(st, mt)
	k := v.term(st, key)
	in := tSel(tSel(d, m.t), k)
	nc := tIte(in, tSel(c, m.t), tAdd(tSel(c, m.t), tInt(1)))
	nvt := v.term(st, nv)
	v.setHeap(st, kc, tSto(c, m.t, nc))
	v.setHeap(st, kv, tSto(val, m.t, tSto(tSel(val, m.t), k, nvt)))
	v.setHeap(st, kd, tSto(d, m.t, tSto(tSel(d, m.t), k, tTrue)))
	v.recWrite(kd, m.t)
	v.recWrite(kv, m.t)
	v.recWrite(kc, m.t)
}

func (v *VC) mapDelete(st *State, m, key Val) {
	mt := m.gt.Underlying().(*types.Map)
	kd, _, kc, d, _, c := v.mapHeaps(st, mt)
	k := v.term(st, key)
	in := tSel(tSel(d, m.t), k)
	nc := tIte(in, tSub(tSel(c, m.t), tInt(1)), tSel(c, m.t))
	v.setHeap(st, kc, tSto(c, m.t, nc))
	v.setHeap(st, kd, tSto(d, m.t, tSto(tSel(d, m.t), k, tFalse)))
	v.recWrite(kd, m.t)
	v.recWrite(kc, m.t)
}
