package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

type specEnv struct {
	v     *VC
	st    *State
	old   *State
	names map[string]Val
	// local lookup
	pos    token.Pos
	fr     *frameCtx
	con    *Contract
	lr     *loopRun
	params map[string]types.Object
	pkg    *Pkg
	rec    string // spec function being defined (recursive calls use the limited form)
	guard  string // lemma under proof
}

func (e *specEnv) with(st *State) *specEnv {
	n := *e
	n.st = st
	return &n
}

func (e *specEnv) bindNames(m map[string]Val) *specEnv {
	n := *e
	n.names = map[string]Val{}
	for k, x := range e.names {
		n.names[k] = x
	}
	for k, x := range m {
		n.names[k] = x
	}
	return &n
}

func (e *specEnv) boolExpr(x ast.Expr) Term {
	t := e.eval(x).t
	if t.Sort != "Bool" {
		unsup("specification is not boolean: %s", t.S)
	}
	return t
}

// localEnv: names of the current function's parameters and locals at the current loop.
func (v *VC) localEnv(st *State, con *Contract) *specEnv {
	e := &specEnv{v: v, st: st, old: v.entry, names: map[string]Val{}, con: con, fr: v.top(), pkg: v.top().pkg}
	if len(v.lrStack) > 0 {
		e.lr = v.lrStack[len(v.lrStack)-1]
		e.pos = e.lr.pos
	}
	e.params = v.paramObjs(con)
	return e
}

// paramObjs maps contract parameter names to the parameter objects of the function under contract.
func (v *VC) paramObjs(con *Contract) map[string]types.Object {
	m := map[string]types.Object{}
	if con == nil {
		return m
	}
	src := v.p.ByKey[con.Key]
	if src == nil {
		return m
	}
	i := 0
	add := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			if len(f.Names) == 0 {
				i++
			}
			for _, nm := range f.Names {
				if i < len(con.Params) {
					if o := src.Pkg.Info.Defs[nm]; o != nil {
						m[con.Params[i]] = o
					}
				}
				i++
			}
		}
	}
	add(src.Decl.Recv)
	add(src.Decl.Type.Params)
	// named results
	i = 0
	if src.Decl.Type.Results != nil {
		for _, f := range src.Decl.Type.Results.List {
			for _, nm := range f.Names {
				if i < len(con.Results) {
					if o := src.Pkg.Info.Defs[nm]; o != nil {
						m[con.Results[i]] = o
					}
				}
				i++
			}
		}
	}
	return m
}

func (e *specEnv) lookup(name string) (Val, bool) {
	if x, ok := e.names[name]; ok {
		return x, true
	}
	if strings.HasPrefix(name, "ghost__k") {
		n := len(e.v.lrStack) - 1
		suffix := strings.TrimPrefix(name, "ghost__k")
		for suffix == "_out" || strings.HasPrefix(suffix, "_out") {
			n--
			suffix = strings.TrimPrefix(suffix, "_out")
		}
		if n >= 0 {
			if x, ok := e.st.vars[e.v.lrStack[n].k]; ok {
				return x, true
			}
		}
		return Val{}, false
	}
	if o, ok := e.params[name]; ok {
		if x, ok := e.readVar(o); ok {
			return x, true
		}
	}
	if e.fr != nil && e.pos.IsValid() {
		var best types.Object
		for o := range e.st.vars {
			if o.Name() != name || o.Parent() == nil {
				continue
			}
			if !o.Parent().Contains(e.pos) || o.Pos() > e.pos {
				continue
			}
			if best == nil || o.Pos() > best.Pos() {
				best = o
			}
		}
		if best != nil {
			return e.readVar(best)
		}
		// a variable of an inner scope (e.g. the loop's own init variable)
		for o := range e.st.vars {
			if o.Name() == name && (best == nil || o.Pos() > best.Pos()) && o.Pos() >= e.pos-1 {
				best = o
			}
		}
		if best != nil {
			return e.readVar(best)
		}
		// a variable of the function this one is inlined into
		for i := len(e.v.frames) - 1; i > 0; i-- {
			pos := e.v.frames[i].callPos
			if !pos.IsValid() {
				continue
			}
			for o := range e.st.vars {
				if o.Name() != name || o.Parent() == nil || !o.Parent().Contains(pos) || o.Pos() > pos {
					continue
				}
				if best == nil || o.Pos() > best.Pos() {
					best = o
				}
			}
			if best != nil {
				return e.readVar(best)
			}
		}
	}
	return Val{}, false
}

func (e *specEnv) readVar(o types.Object) (Val, bool) {
	x, ok := e.st.vars[o]
	if !ok {
		return Val{}, false
	}
	if x.boxed {
		gt := e.v.tsub(o.Type())
		return Val{t: tSel(e.v.ptrHeap(e.st, gt), x.t), gt: gt}, true
	}
	if x.gt == nil {
		x.gt = e.v.tsub(o.Type())
	}
	return x, true
}

// seqSort declares the sort of mathematical sequences over an element sort.
func (v *VC) seqSort(es string) string {
	n := "IS_" + sanitize(es)
	if !v.sorts[n] {
		v.sorts[n] = true
		v.gitem(fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s (%s_arr (Array Int %s)) (%s_len Int) (%s_nil Bool)))))", n, n, n, es, n, n))
		v.gitem(fmt.Sprintf("(declare-fun %s_shift ((Array Int %s) Int) (Array Int %s))", n, es, es))
		v.gitem(fmt.Sprintf("(assert (forall ((a (Array Int %s)) (k Int) (i Int)) (! (= (select (%s_shift a k) i) (select a (+ i k))) :pattern ((select (%s_shift a k) i)))))", es, n, n))
	}
	return n
}

func (e *specEnv) resolveSort(s string) (string, types.Type) {
	s = strings.TrimSpace(s)
	switch s {
	case "Int", "Bool":
		return s, nil
	case "Str", "Slice":
		return s, nil
	case "IBytes":
		e.v.immSort(types.NewSlice(types.Typ[types.Uint8]))
		return s, types.NewSlice(types.Typ[types.Uint8])
	}
	if strings.Contains(s, "IBytes") {
		e.v.immSort(types.NewSlice(types.Typ[types.Uint8]))
	}
	for _, es := range []string{"Int", "Str", "IBytes", "Bool"} {
		if strings.Contains(s+" ", "IS_"+es+" ") || strings.Contains(s, "IS_"+es+")") {
			e.v.seqSort(es)
		}
	}
	if strings.HasPrefix(s, "@") {
		t := e.v.lookupType(s[1:])
		return e.v.sortOf(t), t
	}
	if strings.HasPrefix(s, "(Array Int ") && strings.Contains(s, "@") {
		es, gt := e.resolveSort(s[11 : len(s)-1])
		var at types.Type
		if gt != nil {
			at = types.NewArray(gt, 0)
		}
		return "(Array Int " + es + ")", at
	}
	if strings.HasPrefix(s, "(Seq ") {
		es, gt := e.resolveSort(s[5 : len(s)-1])
		var sg types.Type
		if gt != nil {
			sg = types.NewSlice(gt)
		}
		return e.v.seqSort(es), sg
	}
	return s, nil
}

// lookupType resolves "pkg/path.Type", "*pkg/path.Type", "[]...".
// lookupTypeOrNil gives nil for a type of a package of the repository that is not loaded.
func (v *VC) lookupTypeOrNil(s string) types.Type {
	if i := strings.LastIndex(s, "."); i >= 0 && strings.HasPrefix(s, "pkg/") {
		if _, ok := v.p.Pkgs[modPath+s[:i]]; !ok {
			return nil
		}
	}
	return v.lookupType(s)
}

func (v *VC) lookupType(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(v.lookupType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(v.lookupType(s[2:]))
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		for _, pre := range []string{modPath, ""} {
			if pk, ok := v.p.Pkgs[pre+s[:i]]; ok {
				if o := pk.Types.Scope().Lookup(s[i+1:]); o != nil {
					return o.Type()
				}
			}
		}
		for _, pk := range v.p.Pkgs {
			for _, im := range pk.Types.Imports() {
				if im.Path() == s[:i] {
					if o := im.Scope().Lookup(s[i+1:]); o != nil {
						return o.Type()
					}
				}
			}
		}
	} else if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	unsup("type %s not found", s)
	return nil
}

func (e *specEnv) eval(x ast.Expr) Val {
	v := e.v
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(strings.ReplaceAll(x.Value, "_", ""), 0)
			if !ok {
				unsup("literal %s", x.Value)
			}
			return Val{t: tBig(b)}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(x.Value[1:], '\'')
			return Val{t: tInt(int64(r))}
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return Val{t: v.strLit(s)}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return Val{t: tTrue}
		case "false":
			return Val{t: tFalse}
		case "nil":
			return Val{t: tInt(0), gt: types.Typ[types.UntypedNil]}
		}
		if r, ok := e.lookup(x.Name); ok {
			if r.pois != "" {
				unsup("%s", r.pois)
			}
			return r
		}
		if fn := v.cs.Fns[x.Name]; fn != nil && len(fn.Params) == 0 {
			return e.callFn(fn, nil)
		}
		if r, ok := e.pkgConst(e.pkg, x.Name); ok {
			return r
		}
		unsup("unknown name %s in specification", x.Name)
	case *ast.UnaryExpr:
		a := e.eval(x.X)
		switch x.Op {
		case token.NOT:
			return Val{t: tNot(a.t)}
		case token.SUB:
			return Val{t: tSub(tInt(0), a.t)}
		}
	case *ast.StarExpr:
		return e.deref(e.eval(x.X))
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.CallExpr:
		return e.call(x)
	case *ast.IndexExpr:
		return e.index(e.eval(x.X), e.eval(x.Index))
	case *ast.SliceExpr:
		return e.slice(x)
	case *ast.SelectorExpr:
		return e.selector(x)
	}
	unsup("specification expression %T", x)
	return Val{}
}

func (e *specEnv) pkgConst(pk *Pkg, name string) (Val, bool) {
	if pk == nil {
		return Val{}, false
	}
	return e.objVal(pk.Types.Scope().Lookup(name))
}

func (e *specEnv) objVal(o types.Object) (Val, bool) {
	switch o := o.(type) {
	case *types.Const:
		t := o.Type()
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && o.Val().Kind() == constant.Int {
			b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return Val{t: tBig(b)}, true
		}
		return e.v.constVal(o.Val(), t)
	case *types.Var:
		return e.v.globalVar(e.st, o), true
	}
	return Val{}, false
}

func (e *specEnv) deref(p Val) Val {
	v := e.v
	if p.lv != nil {
		return e.readLV(p.lv)
	}
	el, ok := deref(v.tsub(p.gt))
	if !ok {
		unsup("deref of %s", p.gt)
	}
	el = v.tsub(el)
	return Val{t: tSel(v.ptrHeap(e.st, el), p.t), gt: el}
}

func (e *specEnv) readLV(l *LVal) Val {
	v := e.v
	switch l.kind {
	case lvVar:
		x, ok := e.readVar(l.obj)
		if !ok {
			unsup("variable %s", l.obj.Name())
		}
		return x
	case lvField:
		p := e.readLV(l.parent)
		return v.getField(p.t, l.parent.gt, l.field)
	case lvElem:
		return Val{t: tSel(tSel(v.sliceHeap(e.st, l.gt), sBase(l.slice)), tAt(sOff(l.slice), l.idx)), gt: l.gt}
	case lvArrElem:
		p := e.readLV(l.parent)
		if p.t.Sort == "Str" {
			return Val{t: app("Int", "sat", p.t, l.idx), gt: l.gt}
		}
		return Val{t: tSel(p.t, l.idx), gt: l.gt}
	case lvDeref:
		return Val{t: tSel(v.ptrHeap(e.st, l.gt), l.ptr), gt: l.gt}
	}
	unsup("specification reads map element pointer")
	return Val{}
}

func (e *specEnv) index(s, i Val) Val {
	v := e.v
	if s.lv != nil {
		s = e.deref(s)
	}
	if s.list != nil {
		if n, ok := litVal(i.t.S); ok && n.Int64() < int64(len(s.list)) {
			return s.list[n.Int64()]
		}
		unsup("index into static list")
	}
	switch {
	case s.t.Sort == "Str":
		return Val{t: app("Int", "sat", s.t, i.t)}
	case s.t.Sort == "IBytes":
		return Val{t: app("Int", "sat", app("Str", "ib_str", s.t), i.t)}
	case s.t.Sort == "Slice":
		if s.gt == nil {
			unsup("index of a slice of unknown element type")
		}
		el := v.tsub(v.tsub(s.gt).Underlying().(*types.Slice).Elem())
		return Val{t: tSel(tSel(v.sliceHeap(e.st, el), sBase(s.t)), tAt(sOff(s.t), i.t)), gt: el}
	case strings.HasPrefix(s.t.Sort, "IS_"):
		a := isArr(s.t)
		var gt types.Type
		es := v.seqElem(s.t.Sort)
		if s.gt != nil {
			if sl, ok := v.tsub(s.gt).Underlying().(*types.Slice); ok {
				gt = v.tsub(sl.Elem())
			}
		}
		a.Sort = "(Array Int " + es + ")"
		return Val{t: tSel(a, i.t), gt: gt}
	case strings.HasPrefix(s.t.Sort, "(Array "):
		var gt types.Type
		if s.gt != nil {
			if at, ok := v.tsub(s.gt).Underlying().(*types.Array); ok {
				gt = v.tsub(at.Elem())
			}
		}
		return Val{t: tSel(s.t, i.t), gt: gt}
	}
	if s.gt != nil {
		if m, ok := v.tsub(s.gt).Underlying().(*types.Map); ok {
			_, _, _, d, val, _ := v.mapHeaps(e.st, m)
			k := v.term(e.st, i)
			in := tSel(tSel(d, s.t), k)
			return Val{t: tIte(in, tSel(tSel(val, s.t), k), v.zero(m.Elem())), gt: v.tsub(m.Elem())}
		}
	}
	unsup("index of sort %s in specification", s.t.Sort)
	return Val{}
}

func (v *VC) seqElem(sort string) string {
	if es, ok := v.seqElems[sort]; ok {
		return es
	}
	// find by declared sorts
	for _, g := range v.globals {
		p := "(declare-datatypes ((" + sort + " 0)) (((mk_" + sort + " (" + sort + "_arr (Array Int "
		if strings.HasPrefix(g, p) {
			rest := g[len(p):]
			d := 0
			for i := 0; i < len(rest); i++ {
				switch rest[i] {
				case '(':
					d++
				case ')':
					if d == 0 {
						v.seqElems[sort] = rest[:i]
						return rest[:i]
					}
					d--
				}
			}
		}
	}
	unsup("sequence sort %s", sort)
	return ""
}

func (e *specEnv) slice(x *ast.SliceExpr) Val {
	v := e.v
	s := e.eval(x.X)
	if s.lv != nil {
		s = e.deref(s)
	}
	lo := tInt(0)
	if x.Low != nil {
		lo = e.eval(x.Low).t
	}
	var hi Term
	if x.High != nil {
		hi = e.eval(x.High).t
	}
	switch {
	case s.t.Sort == "Str":
		if !hi.ok() {
			hi = app("Int", "slen", s.t)
		}
		return Val{t: app("Str", "ssub", s.t, lo, hi), gt: s.gt}
	case s.t.Sort == "Slice":
		if !hi.ok() {
			hi = sLen(s.t)
		}
		return Val{t: mkSlice(sBase(s.t), tAdd(sOff(s.t), lo), tSub(hi, lo), tSub(sCap(s.t), lo)), gt: s.gt}
	case s.t.Sort == "IBytes":
		str := app("Str", "ib_str", s.t)
		if !hi.ok() {
			hi = app("Int", "slen", str)
		}
		return Val{t: Term{fmt.Sprintf("(mk_ib (ssub %s %s %s) false)", str.S, lo.S, hi.S), "IBytes"}, gt: s.gt}
	case strings.HasPrefix(s.t.Sort, "IS_"):
		if !hi.ok() {
			hi = isLen(s.t)
		}
		n := s.t.Sort
		arr := isArr(s.t).S
		if lo.S != "0" {
			arr = fmt.Sprintf("(%s_shift %s %s)", n, arr, lo.S)
		}
		return Val{t: Term{fmt.Sprintf("(mk_%s %s %s (%s_nil %s))", n, arr, tSub(hi, lo).S, n, s.t.S), n}, gt: s.gt}
	}
	_ = v
	unsup("slice of sort %s in specification", s.t.Sort)
	return Val{}
}

func (e *specEnv) selector(x *ast.SelectorExpr) Val {
	v := e.v
	if id, ok := x.X.(*ast.Ident); ok {
		if _, ok := e.lookup(id.Name); !ok {
			if e.pkg != nil {
				for _, im := range e.pkg.Types.Imports() {
					if im.Name() == id.Name {
						if r, ok := e.objVal(im.Scope().Lookup(x.Sel.Name)); ok {
							return r
						}
					}
				}
			}
		}
	}
	s := e.eval(x.X)
	return e.field(s, x.Sel.Name, v)
}

func (e *specEnv) field(s Val, name string, v *VC) Val {
	if s.gt == nil {
		unsup("field %s of an untyped specification value", name)
	}
	gt := v.tsub(s.gt)
	_, idx, _ := types.LookupFieldOrMethod(gt, true, nil, name)
	if idx == nil {
		// unexported: needs the package
		base, _ := deref(gt)
		if n, ok := base.(*types.Named); ok {
			_, idx, _ = types.LookupFieldOrMethod(gt, true, n.Obj().Pkg(), name)
		}
	}
	if idx == nil {
		unsup("no field %s in %s", name, gt)
	}
	for _, i := range idx {
		if s.lv != nil {
			s = e.deref(s)
		}
		if _, isP := deref(v.tsub(s.gt)); isP {
			s = e.deref(s)
		}
		s = v.getField(s.t, s.gt, i)
	}
	return s
}

// updField: the struct value s with one (possibly promoted) field replaced.
func (e *specEnv) updField(s Val, name string, val ast.Expr) Val {
	v := e.v
	if s.gt == nil {
		unsup("upd of an untyped value")
	}
	gt := v.tsub(s.gt)
	var pkg *types.Package
	if n, ok := gt.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	o, idx, ind := types.LookupFieldOrMethod(gt, false, pkg, name)
	if _, ok := o.(*types.Var); !ok || ind {
		unsup("no field %s in %s", name, gt)
	}
	vals := []Val{s}
	for _, i := range idx {
		t := vals[len(vals)-1]
		vals = append(vals, v.getField(t.t, t.gt, i))
	}
	var nv Term
	if id, ok := val.(*ast.Ident); ok && id.Name == "nil" {
		nv = v.zero(vals[len(vals)-1].gt)
	} else {
		nv = e.eval(val).t
	}
	if nv.Sort != vals[len(vals)-1].t.Sort {
		unsup("upd: sort %s for field %s", nv.Sort, name)
	}
	for k := len(idx) - 1; k >= 0; k-- {
		nv = v.setField(vals[k].t, vals[k].gt, idx[k], nv)
	}
	return Val{t: nv, gt: s.gt}
}

// eqTerm is mathematical equality, expanding byte strings and structs holding them.
func (v *VC) eqTerm(a, b Term, gt types.Type) Term {
	if gt != nil {
		if _, ok := v.tsub(gt).Underlying().(*types.Struct); ok && v.hasStr(a.Sort) {
			si := v.structInfoOf(gt)
			if !si.opaque && len(si.fields) > 0 {
				var fs []Term
				for i := range si.fields {
					fa := v.getField(a, gt, i)
					fb := v.getField(b, gt, i)
					fs = append(fs, v.eqTerm(fa.t, fb.t, fa.gt))
				}
				return tAnd(fs...)
			}
		}
	}
	if a.Sort == "IBytes" {
		return tAnd(tEq(app("Str", "ib_str", a), app("Str", "ib_str", b)), tEq(app("Bool", "ib_nil", a), app("Bool", "ib_nil", b)))
	}
	return tEq(a, b)
}

func (v *VC) hasStr(sort string) bool {
	for _, si := range v.sortInfo {
		if si.name == sort {
			for _, s := range si.sorts {
				if s == "Str" || s == "IBytes" || v.hasStr(s) {
					return true
				}
			}
		}
	}
	return false
}

func (e *specEnv) eq(a, b Val) Term {
	v := e.v
	isNil := func(x Val) bool {
		bt, ok := x.gt.(*types.Basic)
		return ok && bt.Kind() == types.UntypedNil
	}
	if isNil(a) || isNil(b) {
		return v.eqVals(e.st, a, b)
	}
	at, bt := v.term(e.st, a), v.term(e.st, b)
	if at.Sort == "IBytes" && bt.Sort == "Str" {
		at = app("Str", "ib_str", at)
	}
	if bt.Sort == "IBytes" && at.Sort == "Str" {
		bt = app("Str", "ib_str", bt)
	}
	if at.Sort != bt.Sort {
		unsup("specification compares %s with %s", at.Sort, bt.Sort)
	}
	gt := a.gt
	if gt == nil {
		gt = b.gt
	}
	return v.eqTerm(at, bt, gt)
}

func (e *specEnv) binary(x *ast.BinaryExpr) Val {
	switch x.Op {
	case token.LAND:
		return Val{t: tAnd(e.eval(x.X).t, e.eval(x.Y).t)}
	case token.LOR:
		return Val{t: tOr(e.eval(x.X).t, e.eval(x.Y).t)}
	}
	a, b := e.eval(x.X), e.eval(x.Y)
	switch x.Op {
	case token.EQL:
		return Val{t: e.eq(a, b)}
	case token.NEQ:
		return Val{t: tNot(e.eq(a, b))}
	}
	if a.t.Sort == "Str" && x.Op == token.ADD {
		return Val{t: app("Str", "scat", a.t, b.t)}
	}
	if a.t.Sort == "Str" && x.Op == token.LSS {
		return Val{t: app("Bool", "str_lt", a.t, b.t)}
	}
	if strings.HasPrefix(a.t.Sort, "T_") {
		r := e.v.binop(e.st, x.Op, a, b, a.gt, x.Pos())
		return Val{t: r.t}
	}
	if a.t.Sort != "Int" || b.t.Sort != "Int" {
		unsup("specification operator %s on %s, %s", x.Op, a.t.Sort, b.t.Sort)
	}
	switch x.Op {
	case token.LSS:
		return Val{t: tLt(a.t, b.t)}
	case token.LEQ:
		return Val{t: tLe(a.t, b.t)}
	case token.GTR:
		return Val{t: tLt(b.t, a.t)}
	case token.GEQ:
		return Val{t: tLe(b.t, a.t)}
	case token.ADD:
		return Val{t: tAdd(a.t, b.t)}
	case token.SUB:
		return Val{t: tSub(a.t, b.t)}
	case token.MUL:
		return Val{t: tMul(a.t, b.t)}
	case token.QUO:
		return Val{t: tDiv(a.t, b.t)}
	case token.REM:
		return Val{t: tMod(a.t, b.t)}
	case token.SHL:
		if n, ok := litVal(b.t.S); ok {
			return Val{t: tMul(a.t, pow2(n.Int64()))}
		}
	}
	unsup("specification operator %s", x.Op)
	return Val{}
}

func (e *specEnv) quant(kind string, x *ast.CallExpr) Val {
	lit, ok := x.Args[0].(*ast.BasicLit)
	if !ok {
		unsup("quantifier needs a string of binders")
	}
	bs, _ := strconv.Unquote(lit.Value)
	names, sorts := splitParams(bs)
	m := map[string]Val{}
	var decl []string
	for i, n := range names {
		e.v.ctr++
		s, gt := e.resolveSort(sorts[i])
		q := fmt.Sprintf("q_%s_%d", n, e.v.ctr)
		m[n] = Val{t: Term{q, s}, gt: gt}
		decl = append(decl, fmt.Sprintf("(%s %s)", q, s))
	}
	in := e.bindNames(m)
	body := in.boolExpr(x.Args[1])
	if body.S == "true" || body.S == "false" {
		return Val{t: body}
	}
	pats := ""
	pt := func(p ast.Expr) string {
		pv := in.eval(p).t
		ps := patTerm(pv.S)
		if kind == "forall" && pv.Sort != "" {
			defer func() { patSorts.Store(ps, pv.Sort) }()
		}
		for {
			// a conditional cannot occur in a pattern: name it (if it mentions no bound variable)
			k := strings.Index(ps, "(ite ")
			if k < 0 {
				return ps
			}
			end := sexpEnd(ps, k)
			if end < 0 {
				return ps
			}
			sub := ps[k:end]
			srt, ok := iteSorts.Load(sub)
			if !ok || !strings.HasPrefix(sub, "(ite pc") || strings.Contains(sub, " q_") {
				return ps
			}
			c := e.v.fresh("pat", srt.(string))
			e.v.item("(assert (= " + c.S + " " + sub + "))")
			ps = strings.ReplaceAll(ps, sub, c.S)
			body.S = strings.ReplaceAll(body.S, sub, c.S)
		}
	}
	for _, p := range x.Args[2:] {
		// pats(a, b) is a multi-pattern
		if c, ok := p.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "pats" {
				var l []string
				for _, a := range c.Args {
					l = append(l, pt(a))
				}
				pats += " :pattern (" + strings.Join(l, " ") + ")"
				continue
			}
		}
		pats += " :pattern (" + pt(p) + ")"
	}
	if pats != "" {
		body.S = "(! " + body.S + pats + ")"
	}
	return Val{t: Term{fmt.Sprintf("(%s (%s) %s)", kind, strings.Join(decl, " "), body.S), "Bool"}}
}

// patTerm: the trigger of has(m, k) is the membership test itself.
func patTerm(ps string) string {
	if strings.HasPrefix(ps, "(and ") {
		a := splitArgs(ps)
		ps = a[len(a)-1]
	}
	return ps
}

func (e *specEnv) call(x *ast.CallExpr) Val {
	v := e.v
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		unsup("call in specification")
	}
	arg := func(i int) Val { return e.eval(x.Args[i]) }
	switch id.Name {
	case "forall", "exists":
		return e.quant(id.Name, x)
	case "imp":
		a := arg(0).t
		return Val{t: tImp(a, arg(1).t)}
	case "iff":
		return Val{t: app("Bool", "=", arg(0).t, arg(1).t)}
	case "upd": // upd(x, F, v, G, w, ...): the struct value x with fields F, G, ... replaced
		s := arg(0)
		if s.lv != nil {
			s = e.deref(s)
		}
		for i := 1; i+1 < len(x.Args); i += 2 {
			id, ok := x.Args[i].(*ast.Ident)
			if !ok {
				unsup("upd needs field names")
			}
			s = e.updField(s, id.Name, x.Args[i+1])
		}
		return s
	case "ite":
		a, b := arg(1), arg(2)
		return Val{t: tIte(arg(0).t, a.t, b.t), gt: a.gt}
	case "iflocal": // iflocal(a, b, ..., x): x if the code has the locals a, b, ... here, else true
		for _, a := range x.Args[:len(x.Args)-1] {
			id, ok := a.(*ast.Ident)
			if !ok {
				unsup("iflocal: not a name")
			}
			if _, ok := e.lookup(id.Name); !ok {
				return Val{t: tTrue}
			}
		}
		return e.eval(x.Args[len(x.Args)-1])
	case "when": // when("callee#n", x): x in the state after the n-th call of callee (":pre": before it)
		nm, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		sn, ok := v.snaps[nm]
		if !ok {
			unsup("no call %s", nm)
		}
		in := *e
		in.st, in.pos = sn.st, sn.pos
		if len(v.frames) > 0 {
			in.fr = v.frames[0]
		}
		// parameters have their current value there
		po := v.paramObjs(e.con)
		names := map[string]Val{}
		for k, x := range e.names {
			if o, ok := po[k]; ok && v.entry != nil {
				if y, ok := v.entry.vars[o]; ok && y.t.S == x.t.S {
					if _, ok := in.st.vars[o]; ok {
						continue
					}
				}
			}
			names[k] = x
		}
		in.names, in.params = names, po
		return in.eval(x.Args[1])
	case "resultof": // resultof("callee#n"[, k]): (k-th) result of the n-th call of callee
		nm, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		sn, ok := v.snaps[nm]
		if !ok {
			unsup("no call %s", nm)
		}
		if len(x.Args) > 1 {
			k, _ := strconv.Atoi(x.Args[1].(*ast.BasicLit).Value)
			if k >= len(sn.res.tuple) {
				unsup("no result %d of %s", k, nm)
			}
			return sn.res.tuple[k]
		}
		return sn.res
	case "old":
		if e.old == nil {
			unsup("old() without an old state")
		}
		return e.with(e.old).eval(x.Args[0])
	case "at": // position of element i of a slice at an offset
		return Val{t: app("Int", "at", v.term(e.st, arg(0)), v.term(e.st, arg(1))), gt: types.Typ[types.Int]}
	case "iter": // value at the start of the iteration
		if e.lr == nil || e.lr.head == nil {
			unsup("iter() outside the end of a loop body")
		}
		return e.with(e.lr.head).eval(x.Args[0])
	case "entry": // value at loop entry
		if e.lr == nil {
			unsup("entry() outside a loop")
		}
		return e.with(e.lr.entry).eval(x.Args[0])
	case "len":
		s := arg(0)
		if s.lv != nil {
			s = e.deref(s)
		}
		if s.gt == nil || s.t.Sort == "Str" || s.t.Sort == "Slice" || s.t.Sort == "IBytes" {
			switch {
			case s.list != nil:
				return Val{t: tInt(int64(len(s.list)))}
			case s.t.Sort == "Str":
				return Val{t: app("Int", "slen", s.t)}
			case s.t.Sort == "Slice":
				return Val{t: sLen(s.t)}
			case s.t.Sort == "IBytes":
				return Val{t: app("Int", "slen", app("Str", "ib_str", s.t))}
			case strings.HasPrefix(s.t.Sort, "IS_"):
				return Val{t: isLen(s.t)}
			}
			unsup("len")
		}
		if strings.HasPrefix(s.t.Sort, "IS_") {
			return Val{t: isLen(s.t)}
		}
		if m, ok := v.tsub(s.gt).Underlying().(*types.Map); ok {
			_, _, _, _, _, c := v.mapHeaps(e.st, m)
			return Val{t: tIte(tEq(s.t, tInt(0)), tInt(0), tSel(c, s.t))}
		}
		return Val{t: v.lenOf(e.st, s)}
	case "cap":
		return Val{t: sCap(arg(0).t)}
	case "base":
		return Val{t: sBase(arg(0).t)}
	case "off":
		if a := arg(0); isSeqSort(a.t.Sort) {
			return Val{t: tInt(0)}
		}
		return Val{t: sOff(arg(0).t)}
	case "onlychanged": // onlychanged("T", s...): of the []T arrays of the old state at most those under s... changed
		sT, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		var el types.Type
		if sT == "" {
			el = v.tsub(v.tsub(arg(1).gt).Underlying().(*types.Slice).Elem())
		} else {
			el = v.lookupType(sT)
		}
		o := e.old
		if o == nil {
			o = v.entry
		}
		h1, h0 := v.sliceHeap(e.st, el), v.sliceHeap(o, el)
		v.ctr++
		q := fmt.Sprintf("q_r_%d", v.ctr)
		ne := ""
		if len(x.Args) > 1 {
			ne = fmt.Sprintf(" (not (= %s 0))", q) // the nil slice has no elements
		}
		for i := range x.Args[1:] {
			ne += fmt.Sprintf(" (not (= %s %s))", q, sBase(arg(i+1).t).S)
		}
		return Val{t: Term{fmt.Sprintf("(forall ((%s Int)) (! (=> (and (< %s %s)%s) (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))", q, q, o.alloc.S, ne, h1.S, q, h0.S, q, h1.S, q), "Bool"}}
	case "fresh": // allocated since the old state
		a := arg(0)
		o := e.old
		if o == nil {
			o = v.entry
		}
		t := a.t
		if isSeqSort(t.Sort) {
			return Val{t: tTrue} // a value
		}
		o.usesAlloc()
		if a.t.Sort == "Slice" {
			t = sBase(a.t)
			return Val{t: tOr(tLe(o.alloc, t), tEq(t, tInt(0)))}
		}
		return Val{t: tLe(o.alloc, t)}
	case "allocated": // base below the current allocation mark
		a := arg(0)
		t := a.t
		if isSeqSort(t.Sort) {
			return Val{t: tTrue} // a value
		}
		if a.t.Sort == "Slice" {
			t = sBase(a.t)
		}
		e.st.usesAlloc()
		return Val{t: tLt(t, e.st.alloc)}
	case "bytes":
		a := arg(0)
		if a.lv != nil {
			a = e.deref(a)
		}
		if a.list != nil {
			a = v.materialise(e.st, a)
		}
		return Val{t: v.bytesOf(e.st, a)}
	case "row":
		a := arg(0)
		el := v.tsub(v.tsub(a.gt).Underlying().(*types.Slice).Elem())
		if isSeqSort(a.t.Sort) { // a value: its elements from 0
			if a.t.Sort == "IBytes" {
				return Val{t: Term{"(arrof (ib_str " + a.t.S + "))", "(Array Int Int)"}, gt: types.NewArray(el, 0)}
			}
			return Val{t: Term{"(" + a.t.Sort + "_arr " + a.t.S + ")", "(Array Int " + v.sortOf(el) + ")"}, gt: types.NewArray(el, 0)}
		}
		return Val{t: tSel(v.sliceHeap(e.st, el), sBase(a.t)), gt: types.NewArray(el, 0)}
	case "seq": // the sequence of elements of a slice
		a := arg(0)
		if strings.HasPrefix(a.t.Sort, "IS_") {
			return a
		}
		el := v.tsub(v.tsub(a.gt).Underlying().(*types.Slice).Elem())
		n := v.seqSort(v.sortOf(el))
		row := tSel(v.sliceHeap(e.st, el), sBase(a.t))
		arr := row.S
		if sOff(a.t).S != "0" {
			arr = fmt.Sprintf("(%s_shift %s %s)", n, row.S, sOff(a.t).S)
		}
		return Val{t: Term{fmt.Sprintf("(mk_%s %s %s false)", n, arr, sLen(a.t).S), n}, gt: types.NewSlice(el)}
	case "arr": // underlying array of a sequence
		a := isArr(arg(0).t)
		a.Sort = "(Array Int " + v.seqElem(arg(0).t.Sort) + ")"
		return Val{t: a}
	case "has":
		m, k := arg(0), arg(1)
		mt := v.tsub(m.gt).Underlying().(*types.Map)
		_, _, _, d, _, _ := v.mapHeaps(e.st, mt)
		return Val{t: tAnd(tNot(tEq(m.t, tInt(0))), tSel(tSel(d, m.t), v.term(e.st, k)))}
	case "val": // val(m, k): the value stored under k, arbitrary if there is none
		m, k := arg(0), arg(1)
		mt := v.tsub(m.gt).Underlying().(*types.Map)
		_, _, _, _, val, _ := v.mapHeaps(e.st, mt)
		return Val{t: tSel(tSel(val, m.t), v.term(e.st, k)), gt: v.tsub(mt.Elem())}
	case "ghost":
		name := x.Args[0].(*ast.Ident).Name
		k := arg(1)
		return Val{t: tSel(e.ghostHeap(name), v.term(e.st, k))}
	case "deref":
		return e.deref(arg(0))
	case "str":
		return Val{t: v.bytesOf(e.st, arg(0))}
	case "str1":
		return Val{t: app("Str", "str1", arg(0).t)}
	case "dynis": // dynis(x, "type")
		s, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		xt := v.term(e.st, arg(0))
		t := v.lookupTypeOrNil(s)
		if t == nil { // a type of a package that is not loaded: none of the values at hand has it
			v.declFun("dyntype", "Int", "Int")
			return Val{t: tAnd(tNot(tEq(xt, tInt(0))), tEq(app("Int", "dyntype", xt), tInt(int64(v.typeIDName(modPath+s)))))}
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			fn := "dyn_impl_" + typeName(t)
			v.declFun(fn, "Int", "Bool")
			return Val{t: tAnd(tNot(tEq(xt, tInt(0))), app("Bool", fn, xt))}
		}
		v.declFun("dyntype", "Int", "Int")
		return Val{t: tAnd(tNot(tEq(xt, tInt(0))), tEq(app("Int", "dyntype", xt), tInt(int64(v.typeID(t)))))}
	case "dynval":
		s, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		t := v.lookupType(s)
		so := v.sortOf(t)
		fn := "unbox_" + typeName(t)
		v.declFun(fn, "Int", so)
		return Val{t: app(so, fn, v.term(e.st, arg(0))), gt: t}
	case "enum": // enum(i): the i-th key of the innermost map range
		en := v.enumOf[v.lrStack[len(v.lrStack)-1].node]
		return Val{t: Term{fmt.Sprintf("(%s %s)", en.en, arg(0).t.S), en.sort}}
	case "closure": // closure(n): the n-th function literal of the function, in source order
		n, _ := litVal(arg(0).t.S)
		var src *FuncSrc
		for _, f := range v.frames {
			if f.src != nil {
				src = f.src
				break
			}
		}
		var lit *ast.FuncLit
		k := int64(0)
		ast.Inspect(src.Decl, func(x ast.Node) bool {
			if l, ok := x.(*ast.FuncLit); ok {
				if n != nil && k == n.Int64() {
					lit = l
				}
				k++
			}
			return true
		})
		if lit == nil {
			unsup("no function literal %s", arg(0).t.S)
		}
		for _, c := range v.closures {
			if c.lit == lit {
				return Val{t: tInt(int64(1000 + c.id))}
			}
		}
		c := &Closure{lit: lit, pkg: src.Pkg, ts: v.frames[0].ts, id: len(v.closures)}
		v.closures = append(v.closures, c)
		return Val{t: tInt(int64(1000 + c.id))}
	case "enumix":
		en := v.enumOf[v.lrStack[len(v.lrStack)-1].node]
		return Val{t: Term{fmt.Sprintf("(%s %s)", en.ix, arg(0).t.S), "Int"}}
	case "min", "max":
		a, b := arg(0).t, arg(1).t
		if id.Name == "min" {
			return Val{t: tIte(tLe(a, b), a, b)}
		}
		return Val{t: tIte(tLe(a, b), b, a)}
	case "global":
		// global("pkg/path.Name")
		s, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		i := strings.LastIndex(s, ".")
		for _, pre := range []string{modPath, ""} {
			if pk, ok := v.p.Pkgs[pre+s[:i]]; ok {
				if r, ok := e.objVal(pk.Types.Scope().Lookup(s[i+1:])); ok {
					return r
				}
			}
		}
		for _, pk := range v.p.Pkgs {
			for _, im := range pk.Types.Imports() {
				if im.Path() == s[:i] {
					if r, ok := e.objVal(im.Scope().Lookup(s[i+1:])); ok {
						return r
					}
				}
			}
		}
		unsup("global %s", s)
	case "smt": // smt("op", "Sort", args...)
		op, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		so, _ := strconv.Unquote(x.Args[1].(*ast.BasicLit).Value)
		var as []Term
		for _, a := range x.Args[2:] {
			as = append(as, e.v.term(e.st, e.eval(a)))
		}
		return Val{t: app(so, op, as...)}
	}
	if fn := v.cs.Fns[id.Name]; fn != nil {
		var as []Val
		for _, a := range x.Args {
			as = append(as, e.eval(a))
		}
		return e.callFn(fn, as)
	}
	if l := v.cs.Lemmas[id.Name]; l != nil {
		return Val{t: e.lemmaInst(l, x.Args)}
	}
	unsup("unknown specification function %s", id.Name)
	return Val{}
}

func (e *specEnv) ghostHeap(name string) Term {
	s, ok := e.v.cs.GhostS[name]
	if !ok {
		unsup("ghost %s not declared", name)
	}
	so, _ := e.resolveSort(s)
	return e.v.heap(e.st, "G_"+name, "(Array Int "+so+")")
}

// callFn applies a specification function, emitting its definition on first use.
func (e *specEnv) callFn(fn *SpecFn, args []Val) Val {
	v := e.v
	res, rgt := v.emitFn(fn)
	if len(args) != len(fn.Params) {
		unsup("specification function %s: wrong number of arguments", fn.Name)
	}
	var ts []Term
	for i, a := range args {
		t := v.term(e.st, a)
		so, _ := e.resolveSort(fn.Sorts[i])
		if t.Sort == "IBytes" && so == "Str" {
			t = app("Str", "ib_str", t)
		}
		if t.Sort != so {
			unsup("specification function %s: argument %d has sort %s, want %s", fn.Name, i, t.Sort, so)
		}
		ts = append(ts, t)
	}
	if v.specMacro[fn.Name] {
		// it reads memory: expanded in the state it is used in
		in := &specEnv{v: v, st: e.st, old: e.old, lr: e.lr, names: map[string]Val{}, pkg: e.pkg}
		for i, p := range fn.Params {
			_, gt := in.resolveSort(fn.Sorts[i])
			in.names[p] = Val{t: ts[i], gt: gt}
		}
		r := in.eval(fn.Body)
		return Val{t: v.term(e.st, r), gt: rgt}
	}
	n := "sf_" + fn.Name
	if e.rec == fn.Name {
		n += "_lim"
	}
	if len(ts) == 0 {
		return Val{t: Term{n, res}, gt: rgt}
	}
	return Val{t: app(res, n, ts...), gt: rgt}
}

func (v *VC) emitFn(fn *SpecFn) (string, types.Type) {
	env := &specEnv{v: v, st: v.specState(), names: map[string]Val{}}
	res, rgt := env.resolveSort(strings.TrimSuffix(strings.TrimPrefix(fn.Res, "()"), ""))
	if _, ok := v.specDone[fn.Name]; ok {
		return res, rgt
	}
	v.specDone[fn.Name] = res
	var decl, srt, nm []string
	for i, p := range fn.Params {
		s, gt := env.resolveSort(fn.Sorts[i])
		q := fmt.Sprintf("p_%s", sanitize(p))
		env.names[p] = Val{t: Term{q, s}, gt: gt}
		decl = append(decl, fmt.Sprintf("(%s %s)", q, s))
		srt = append(srt, s)
		nm = append(nm, q)
	}
	n := "sf_" + fn.Name
	if fn.Body == nil {
		v.gitem(fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(srt, " "), res))
		ax := &specEnv{v: v, st: v.specState(), names: map[string]Val{}}
		for _, a := range fn.Axioms {
			t := ax.boolExpr(a.E).S
			if len(ax.st.heap) > 0 {
				unsup("axiom of %s reads memory", fn.Name)
			}
			v.axiom(t)
			v.trusted["axiom of the specification function "+fn.Name+": "+a.Text] = true
		}
		return res, rgt
	}
	if !fn.Rec {
		env.old = v.specState()
		b := env.eval(fn.Body)
		bt := v.term(env.st, b)
		if len(env.st.heap) > 0 || len(env.old.heap) > 0 {
			v.specMacro[fn.Name] = true
			return res, rgt
		}
		if len(decl) == 0 {
			v.gitem(fmt.Sprintf("(define-fun %s () %s %s)", n, res, bt.S))
		} else {
			v.gitem(fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(srt, " "), res))
			call := fmt.Sprintf("(%s %s)", n, strings.Join(nm, " "))
			eq := tEq(Term{call, res}, bt)
			if res == "Str" {
				eq = Term{fmt.Sprintf("(= %s %s)", call, bt.S), "Bool"}
			}
			v.axiom(fmt.Sprintf("(forall (%s) (! %s :pattern (%s)))", strings.Join(decl, " "), eq.S, call))
		}
		return res, rgt
	}
	v.gitem(fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(srt, " "), res))
	v.gitem(fmt.Sprintf("(declare-fun %s_lim (%s) %s)", n, strings.Join(srt, " "), res))
	env.rec = fn.Name
	b := v.term(env.st, env.eval(fn.Body))
	if len(env.st.heap) > 0 {
		unsup("recursive specification function %s reads memory", fn.Name)
	}
	call := fmt.Sprintf("(%s %s)", n, strings.Join(nm, " "))
	lim := fmt.Sprintf("(%s_lim %s)", n, strings.Join(nm, " "))
	v.axiom(fmt.Sprintf("(forall (%s) (! (= %s %s) :pattern (%s)))", strings.Join(decl, " "), call, lim, call))
	v.axiom(fmt.Sprintf("(forall (%s) (! (= %s %s) :pattern (%s)))", strings.Join(decl, " "), call, b.S, call))
	return res, rgt
}

// usesAlloc marks the memory free state of a specification function as read: its body is then
// expanded where it is used.
func (st *State) usesAlloc() {
	if st.alloc.S == "1" {
		st.heap["$alloc"] = tTrue
	}
}

// specState: specification functions are heap independent.
func (v *VC) specState() *State {
	return &State{vars: map[types.Object]Val{}, heap: map[string]Term{}, alloc: tInt(1), pc: tTrue}
}

// lemmaInst: the instance hyps ==> concl of a lemma.
func (e *specEnv) lemmaInst(l *Lemma, args []ast.Expr) Term {
	m := map[string]Val{}
	for i, p := range l.Params {
		if i >= len(args) {
			unsup("lemma %s: too few arguments", l.Name)
		}
		m[p] = e.eval(args[i])
	}
	in := &specEnv{v: e.v, st: e.st, names: m}
	var hs, cs []Term
	for _, h := range l.Hyps {
		hs = append(hs, in.boolExpr(h.E))
	}
	for _, c := range l.Concl {
		cs = append(cs, in.boolExpr(c.E))
	}
	if e.guard == l.Name {
		// induction hypothesis: only for a smaller value
		cur := e.names[l.Induct].t
		nv := m[l.Induct].t
		hs = append(hs, tLt(nv, cur))
	}
	if l.Induct != "" {
		hs = append(hs, tLe(tInt(0), m[l.Induct].t))
	}
	return tImp(tAnd(hs...), tAnd(cs...))
}

func conjuncts(x ast.Expr) []ast.Expr {
	switch y := x.(type) {
	case *ast.ParenExpr:
		return conjuncts(y.X)
	case *ast.BinaryExpr:
		if y.Op == token.LAND {
			return append(conjuncts(y.X), conjuncts(y.Y)...)
		}
	}
	return []ast.Expr{x}
}

func (v *VC) invTerms(st *State, inv *Clause, con *Contract, lr *loopRun) []Term {
	env := v.localEnv(st, con)
	var r []Term
	for _, c := range conjuncts(inv.E) {
		r = append(r, env.boolExpr(c))
	}
	return r
}

// applyHint instantiates a lemma or asserts an intermediate fact.
func (v *VC) applyHint(st *State, h *Clause, con *Contract, i int) {
	if st.dead {
		return
	}
	env := v.localEnv(st, con)
	v.hintIn(st, env, h, i)
}

func (v *VC) hintIn(st *State, env *specEnv, h *Clause, i int) {
	c, ok := h.E.(*ast.CallExpr)
	if !ok {
		unsup("hint must be a call")
	}
	id := c.Fun.(*ast.Ident)
	if id.Name == "assert" {
		v.oblig(st, "assert "+h.label(i), token.NoPos, env.boolExpr(c.Args[0]))
		return
	}
	if id.Name == "forall" { // forall("x", lemma(x..), trigger): the body must be a lemma
		lc, ok := c.Args[1].(*ast.CallExpr)
		if !ok {
			unsup("quantified hint must be over a lemma")
		}
		lid, ok := lc.Fun.(*ast.Ident)
		if !ok {
			unsup("quantified hint must be over a lemma")
		}
		v.usable(env, lid.Name)
		v.assume(st, env.boolExpr(h.E))
		return
	}
	v.assume(st, env.lemmaInst(v.usable(env, id.Name), c.Args))
}

// usable returns the lemma if it may be used here: inside the proof of a lemma only earlier
// lemmas, or the lemma itself by induction.
func (v *VC) usable(env *specEnv, name string) *Lemma {
	l := v.cs.Lemmas[name]
	if l == nil {
		unsup("unknown lemma %s", name)
	}
	if env.guard != "" {
		// inside the proof of a lemma: only earlier lemmas, or itself by induction
		if l.Name == env.guard {
			if l.Induct == "" {
				unsup("lemma %s uses itself without induction", l.Name)
			}
		} else {
			for _, n := range v.cs.LemOrd {
				if n == l.Name {
					break
				}
				if n == env.guard {
					unsup("lemma %s uses the later lemma %s", env.guard, l.Name)
				}
			}
		}
	}
	return l
}

// ------------------------------------------------------------------ modifies targets

type modT struct {
	heap  string
	sort  string
	base  Term
	lo    Term
	hi    Term
	field int
	gt    types.Type
	all   bool
	inner *LVal
}

func (e *specEnv) targets(m *Clause) []modT {
	v := e.v
	switch x := m.E.(type) {
	case *ast.Ident:
		if x.Name == "nothing" {
			return nil
		}
	case *ast.CallExpr:
		id := x.Fun.(*ast.Ident)
		switch id.Name {
		case "elems", "spare", "backing": // elems: [0,len); backing: the whole underlying array
			s := e.eval(x.Args[0])
			if s.list != nil || s.t.Sort != "Slice" {
				unsup("modifies elems of %s", s.t.Sort)
			}
			if !strings.Contains(s.t.S, "q_") {
				v.assume(e.st, v.tinv(e.st, s.t, s.gt, 1))
			}
			el := v.tsub(v.tsub(s.gt).Underlying().(*types.Slice).Elem())
			t := modT{heap: v.sliceHeapKey(el), base: sBase(s.t), field: -1}
			t.sort = v.sliceHeap(e.st, el).Sort
			switch id.Name {
			case "elems":
				t.lo, t.hi = sOff(s.t), tAdd(sOff(s.t), sLen(s.t))
			case "spare":
				t.lo, t.hi = tAdd(sOff(s.t), sLen(s.t)), tAdd(sOff(s.t), sCap(s.t))
			}
			return []modT{t}
		case "deref":
			p := e.eval(x.Args[0])
			return e.ptrTarget(p, -1)
		case "mapof":
			mv := e.eval(x.Args[0])
			mt := v.tsub(mv.gt).Underlying().(*types.Map)
			kd, kv, kc, d, val, c := v.mapHeaps(e.st, mt)
			return []modT{{heap: kd, sort: d.Sort, base: mv.t, field: -1}, {heap: kv, sort: val.Sort, base: mv.t, field: -1}, {heap: kc, sort: c.Sort, base: mv.t, field: -1}}
		case "ghost":
			name := x.Args[0].(*ast.Ident).Name
			h := e.ghostHeap(name)
			return []modT{{heap: "G_" + name, sort: h.Sort, base: v.term(e.st, e.eval(x.Args[1])), field: -1}}
		case "allghost":
			name := x.Args[0].(*ast.Ident).Name
			h := e.ghostHeap(name)
			return []modT{{heap: "G_" + name, sort: h.Sort, all: true, field: -1}}
		case "allelems", "allptrs": // every slice / cell of the type
			s, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
			el := v.lookupType(s)
			if id.Name == "allelems" {
				return []modT{{heap: v.sliceHeapKey(el), sort: v.sliceHeap(e.st, el).Sort, all: true, field: -1}}
			}
			return []modT{{heap: v.ptrHeapKey(el), sort: v.ptrHeap(e.st, el).Sort, all: true, field: -1}}
		}
	case *ast.SelectorExpr:
		p := e.eval(x.X)
		if p.gt == nil {
			unsup("modifies %s", m.Text)
		}
		gt := v.tsub(p.gt)
		el, isP := deref(gt)
		if !isP {
			unsup("modifies field of a non pointer")
		}
		var pk *types.Package
		if n, ok := el.(*types.Named); ok {
			pk = n.Obj().Pkg()
		}
		_, idx, _ := types.LookupFieldOrMethod(gt, true, pk, x.Sel.Name)
		if len(idx) == 0 {
			unsup("modifies %s: no such field", m.Text)
		}
		// embedded structs by value are havocked as a whole
		return e.ptrTarget(p, idx[0])
	}
	unsup("modifies clause %s", m.Text)
	return nil
}

func (e *specEnv) ptrTarget(p Val, field int) []modT {
	v := e.v
	el, _ := deref(v.tsub(p.gt))
	el = v.tsub(el)
	if p.lv != nil && p.lv.kind != lvDeref {
		return []modT{{inner: p.lv, field: field, gt: el}}
	}
	t := p.t
	if p.lv != nil {
		t = p.lv.ptr
	}
	return []modT{{heap: v.ptrHeapKey(el), sort: v.ptrHeap(e.st, el).Sort, base: t, field: field, gt: el}}
}
