package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync"
)

func (v *VC) info() *types.Info { return v.top().pkg.Info }

func (v *VC) typeOf(e ast.Expr) types.Type {
	t := v.info().TypeOf(e)
	if t == nil {
		return nil
	}
	return v.tsub(t)
}

func (v *VC) strLit(s string) Term {
	if s == "" {
		return Term{"str_empty", "Str"}
	}
	if t, ok := v.strLits[s]; ok {
		return t
	}
	if len(s) == 1 {
		return app("Str", "str1", tInt(int64(s[0])))
	}
	n := fmt.Sprintf("strlit_%d", len(v.strLits))
	v.declFun(n, "", "Str")
	v.axiom(fmt.Sprintf("(= (slen %s) %d)", n, len(s)))
	if len(s) <= 40 {
		for i := 0; i < len(s); i++ {
			v.axiom(fmt.Sprintf("(= (sat %s %d) %d)", n, i, s[i]))
		}
	}
	t := Term{n, "Str"}
	v.strLits[s] = t
	return t
}

// litText gives the text of a string constant's term.
func (v *VC) litText(t Term) (string, bool) {
	if t.S == "str_empty" {
		return "", true
	}
	for s, l := range v.strLits {
		if l.S == t.S {
			return s, true
		}
	}
	var c int
	if n, _ := fmt.Sscanf(t.S, "(str1 %d)", &c); n == 1 && t.S == fmt.Sprintf("(str1 %d)", c) {
		return string([]byte{byte(c)}), true
	}
	return "", false
}

// concat joins two strings; constants next to each other are joined first, so that
// (x + "a") + "b" is x + "ab".
func (v *VC) concat(a, b Term) Term {
	bs, bl := v.litText(b)
	if bl {
		if bs == "" {
			return a
		}
		if as, ok := v.litText(a); ok {
			return v.strLit(as + bs)
		}
		if p, ok := v.catTails[a.S]; ok {
			return v.concat(p.left, v.strLit(p.lit+bs))
		}
	}
	r := v.def("cat", app("Str", "scat", a, b))
	if bl {
		v.catTails[r.S] = catTail{a, bs}
	}
	return r
}

type catTail struct {
	left Term
	lit  string
}

func (v *VC) constVal(c constant.Value, t types.Type) (Val, bool) {
	t = v.tsub(t)
	switch c.Kind() {
	case constant.Bool:
		if constant.BoolVal(c) {
			return Val{t: tTrue, gt: t}, true
		}
		return Val{t: tFalse, gt: t}, true
	case constant.String:
		return Val{t: v.strLit(constant.StringVal(c)), gt: t}, true
	case constant.Int:
		if v.sortOf(t) != "Int" {
			return Val{}, false
		}
		b, _ := new(big.Int).SetString(c.ExactString(), 10)
		return Val{t: tBig(b), gt: t}, true
	case constant.Float:
		if v.sortOf(t) == "Int" {
			if i := constant.ToInt(c); i.Kind() == constant.Int {
				b, _ := new(big.Int).SetString(i.ExactString(), 10)
				return Val{t: tBig(b), gt: t}, true
			}
		}
		n := "flt_" + sanitize(c.ExactString())
		v.declSort("Float")
		v.declFun(n, "", "Float")
		return Val{t: Term{n, "Float"}, gt: t}, true
	}
	return Val{}, false
}

// wrap reduces a mathematical integer to the machine type's range (exactly Go's wrap-around).
func (v *VC) wrap(t Term, gt types.Type) Term {
	b, ok := v.tsub(gt).Underlying().(*types.Basic)
	if !ok {
		return t
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return t
	}
	if n, ok := litVal(t.S); ok {
		if n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
			return t
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(n, lo)
		r.Mod(r, m)
		return tBig(r.Add(r, lo))
	}
	t = v.def("ar", t)
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	in := tAnd(tLe(tBig(lo), t), tLe(t, tBig(hi)))
	w := arith("+", tBig(lo), app("Int", "mod", tSub(t, tBig(lo)), tBig(m)))
	return v.def("w", tIte(in, t, w))
}

func pow2(n int64) Term { return tBig(new(big.Int).Lsh(big.NewInt(1), uint(n))) }

func tDiv(a, b Term) Term { return app("Int", "div", a, b) }
func tMod(a, b Term) Term { return app("Int", "mod", a, b) }

// Go's truncated division and remainder from SMT-LIB's Euclidean ones.
func goDiv(a, b Term) Term {
	if x, ok := litVal(b.S); ok && x.Sign() > 0 {
		return tIte(tLe(tInt(0), a), tDiv(a, b), app("Int", "-", tDiv(app("Int", "-", a), b)))
	}
	abs := func(t Term) Term { return tIte(tLe(tInt(0), t), t, app("Int", "-", t)) }
	q := tDiv(abs(a), abs(b))
	same := tEq(tLe(tInt(0), a), tLe(tInt(0), b))
	return tIte(same, q, app("Int", "-", q))
}
func goMod(a, b Term) Term {
	if x, ok := litVal(b.S); ok && x.Sign() > 0 {
		return tIte(tLe(tInt(0), a), tMod(a, b), app("Int", "-", tMod(app("Int", "-", a), b)))
	}
	abs := func(t Term) Term { return tIte(tLe(tInt(0), t), t, app("Int", "-", t)) }
	r := tMod(abs(a), abs(b))
	return tIte(tLe(tInt(0), a), r, app("Int", "-", r))
}

func bitWidth(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	case types.UntypedInt:
		return 0
	}
	if _, _, ok := intRange(b); ok {
		return 64
	}
	return 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// eqVals compares two Go values of the same type.
func (v *VC) eqVals(st *State, a, b Val) Term {
	isNil := func(x Val) bool {
		bt, ok := x.gt.(*types.Basic)
		return ok && bt.Kind() == types.UntypedNil
	}
	if isNil(b) || isNil(a) {
		x := a
		if isNil(a) {
			x = b
		}
		if isNil(a) && isNil(b) {
			return tTrue
		}
		if x.lv != nil && x.lv.kind != lvDeref {
			return tFalse
		}
		if x.lv != nil {
			return tEq(x.lv.ptr, tInt(0))
		}
		if x.fn != nil {
			return tFalse
		}
		if x.dyn != nil && !x.t.ok() {
			return tFalse
		}
		if x.list != nil {
			return tFalse
		}
		switch {
		case x.t.Sort == "Slice":
			return tEq(sBase(x.t), tInt(0))
		case x.t.Sort == "IBytes":
			return app("Bool", "ib_nil", x.t)
		case strings.HasPrefix(x.t.Sort, "IS_"):
			return app("Bool", x.t.Sort+"_nil", x.t)
		}
		return tEq(v.term(st, x), tInt(0))
	}
	x, y := v.term(st, a), v.term(st, b)
	if x.Sort != y.Sort {
		unsup("comparison of different sorts %s %s", x.Sort, y.Sort)
	}
	if x.Sort == "Float" {
		unsup("float comparison")
	}
	return tEq(x, y)
}

func (v *VC) eval(st *State, e ast.Expr) Val {
	if st.dead {
		// unreachable: any value will do
		t := v.typeOf(e)
		if tup, ok := t.(*types.Tuple); ok {
			r := Val{gt: t}
			for i := 0; i < tup.Len(); i++ {
				r.tuple = append(r.tuple, Val{t: v.zero(tup.At(i).Type()), gt: v.tsub(tup.At(i).Type())})
			}
			return r
		}
		if t == nil {
			return Val{t: tTrue}
		}
		return Val{t: v.zero(t), gt: t}
	}
	if tv, ok := v.info().Types[e]; ok && tv.Value != nil {
		if r, ok := v.constVal(tv.Value, tv.Type); ok {
			return r
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return v.eval(st, e.X)
	case *ast.BasicLit:
		unsup("literal %s", e.Value)
	case *ast.Ident:
		return v.evalIdent(st, e)
	case *ast.FuncLit:
		c := &Closure{lit: e, pkg: v.top().pkg, ts: v.top().ts, id: len(v.closures)}
		for _, o := range v.closures {
			if o.lit == e {
				c.id = o.id
				return Val{fn: o, gt: v.typeOf(e), t: tInt(int64(1000 + o.id))}
			}
		}
		v.closures = append(v.closures, c)
		return Val{fn: c, gt: v.typeOf(e), t: tInt(int64(1000 + c.id))}
	case *ast.UnaryExpr:
		return v.evalUnary(st, e)
	case *ast.BinaryExpr:
		return v.evalBinary(st, e)
	case *ast.StarExpr:
		l := v.lval(st, e)
		return v.readLV(st, l, e.Pos())
	case *ast.IndexExpr:
		if tv, ok := v.info().Types[e.X]; ok && tv.IsType() {
			unsup("type index")
		}
		if _, ok := v.info().TypeOf(e.X).Underlying().(*types.Signature); ok {
			return v.eval(st, e.X) // explicit instantiation
		}
		return v.evalIndex(st, e)
	case *ast.IndexListExpr:
		return v.eval(st, e.X)
	case *ast.SelectorExpr:
		return v.evalSelector(st, e)
	case *ast.SliceExpr:
		return v.evalSlice(st, e)
	case *ast.CallExpr:
		return v.evalCall(st, e)
	case *ast.CompositeLit:
		return v.evalComposite(st, e)
	case *ast.TypeAssertExpr:
		r := v.evalTypeAssert(st, e, true)
		return r
	}
	unsup("expression %T", e)
	return Val{}
}

func (v *VC) evalIdent(st *State, e *ast.Ident) Val {
	if e.Name == "nil" {
		if _, ok := v.info().Uses[e].(*types.Nil); ok {
			return Val{t: tInt(0), gt: types.Typ[types.UntypedNil]}
		}
	}
	obj := v.info().Uses[e]
	if obj == nil {
		obj = v.info().Defs[e]
	}
	switch o := obj.(type) {
	case *types.Var:
		if _, ok := st.vars[o]; ok {
			return v.readLV(st, &LVal{kind: lvVar, obj: o, gt: v.tsub(o.Type())}, e.Pos())
		}
		if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			return v.globalVar(st, o)
		}
		unsup("variable %s unknown", e.Name)
	case *types.Func:
		return v.funcVal(o, nil)
	}
	unsup("identifier %s", e.Name)
	return Val{}
}

func (v *VC) funcVal(o *types.Func, recv *Val) Val {
	for _, c := range v.closures {
		if c.fobj == o && recv == nil && c.recv == nil {
			return Val{fn: c, gt: o.Type(), t: tInt(int64(1000 + c.id))}
		}
	}
	c := &Closure{fobj: o, recv: recv, id: len(v.closures)}
	v.closures = append(v.closures, c)
	return Val{fn: c, gt: o.Type(), t: tInt(int64(1000 + c.id))}
}

// globalVar models a package level variable: variables never assigned outside their declaration
// and init functions get their initialiser when it is simple, otherwise an unknown constant.
func (v *VC) globalVar(st *State, o *types.Var) Val {
	n := "glob_" + sanitize(o.Pkg().Path()+"."+o.Name())
	gt := v.tsub(o.Type())
	key := "glob:" + n
	_ = key
	s := v.sortOf(gt)
	first := false
	if _, ok := v.declared[n]; !ok {
		first = true
	}
	v.declFun(n, "", s)
	t := Term{n, s}
	if v.assignedSomewhere(o) {
		// any value at every read
		t = v.fresh("glob_"+sanitize(o.Name()), s)
		if st.alloc.S != "1" {
			v.assume(st, v.tinv(st, t, gt, 1))
		}
		return Val{t: t, gt: gt}
	}
	if first {
		v.globalInit(o, t)
		v.notes = append(v.notes, "package variable "+o.Pkg().Name()+"."+o.Name()+" treated as constant (it is assigned only at initialisation)")
	}
	if v.entry != nil { // it existed before the call
		v.assume(v.entry, v.tinv(v.entry, t, gt, 1))
	} else if st.alloc.S != "1" { // not in the memory free state of a specification function
		v.assume(st, v.tinv(st, t, gt, 1))
	}
	return Val{t: t, gt: gt}
}

func (v *VC) pkgOf(o types.Object) *Pkg {
	if o.Pkg() == nil {
		return nil
	}
	return v.p.Pkgs[o.Pkg().Path()]
}

func (v *VC) assignedSomewhere(o *types.Var) bool {
	found := false
	for _, pk := range v.p.Pkgs {
		for _, f := range pk.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						if rootObj(pk, l) == o {
							found = true
						}
					}
				case *ast.UnaryExpr:
					if n.Op == token.AND && rootObj(pk, n.X) == o {
						found = true
					}
				case *ast.IncDecStmt:
					if rootObj(pk, n.X) == o {
						found = true
					}
				}
				return !found
			})
		}
	}
	return found
}

func rootObj(pk *Pkg, e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			if o := pk.Info.Uses[x]; o != nil {
				return o
			}
			return pk.Info.Defs[x]
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if o, ok := pk.Info.Uses[x.Sel].(*types.Var); ok && !o.IsField() {
				return o
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// globalInitCall: a package variable initialised by a call of an assumed function on constants
// has the properties its contract promises.
func (v *VC) globalInitCall(pk *Pkg, ce *ast.CallExpr, x Val) {
	se, ok := ce.Fun.(*ast.SelectorExpr)
	if !ok {
		return
	}
	f, ok := pk.Info.Uses[se.Sel].(*types.Func)
	if !ok || f.Pkg() == nil || f.Type().(*types.Signature).Recv() != nil {
		return
	}
	c := v.cs.find(f.Pkg().Path() + "." + f.Name())
	if c == nil || !c.Extern || len(c.Params) != len(ce.Args) || len(c.Results) != 1 || len(c.Requires) > 0 || len(c.Modifies) > 0 {
		return
	}
	env := &specEnv{v: v, st: v.specState(), names: map[string]Val{c.Results[0]: x}}
	for i, a := range ce.Args {
		tv := pk.Info.Types[a]
		if tv.Value == nil {
			return
		}
		r, ok := v.constVal(tv.Value, tv.Type)
		if !ok {
			return
		}
		env.names[c.Params[i]] = r
	}
	for _, r := range c.Ensures {
		v.axiom(env.boolExpr(r.E).S)
	}
	v.trusted[c.Key] = true
}

// globalInit understands byte-slice literals, which the trie uses for its default leaf.
func (v *VC) globalInit(o *types.Var, t Term) {
	pk := v.pkgOf(o)
	if pk == nil {
		return
	}
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, nm := range vs.Names {
					if pk.Info.Defs[nm] != o || i >= len(vs.Values) {
						continue
					}
					if v.sortOf(o.Type()) == "Int" && isErrorType(o.Type()) {
						v.axiom("(< 0 " + t.S + ")")
					}
					if ce, ok := vs.Values[i].(*ast.CallExpr); ok {
						v.globalInitCall(pk, ce, Val{t: t, gt: o.Type()})
						continue
					}
					cl, ok := vs.Values[i].(*ast.CompositeLit)
					if !ok {
						if tv, ok := pk.Info.Types[vs.Values[i]]; ok && tv.Value != nil {
							if r, ok := v.constVal(tv.Value, tv.Type); ok {
								v.axiom(tEq(t, r.t).S)
							}
						}
						continue
					}
					if !isByteSlice(o.Type()) {
						continue
					}
					var bs []byte
					good := true
					for _, el := range cl.Elts {
						tv := pk.Info.Types[el]
						if tv.Value == nil {
							good = false
							break
						}
						n, ok := constant.Int64Val(constant.ToInt(tv.Value))
						if !ok {
							good = false
							break
						}
						bs = append(bs, byte(n))
					}
					if !good {
						continue
					}
					lit := v.strLit(string(bs))
					if t.Sort == "IBytes" {
						v.axiom("(and (not (ib_nil " + t.S + ")) (= (ib_str " + t.S + ") " + lit.S + "))")
					} else {
						v.axiom(fmt.Sprintf("(and (> (s_base %s) 0) (= (s_len %s) %d))", t.S, t.S, len(bs)))
						// contents: the initial byte heap holds them; nothing may modify them (checked by frame)
						h := "H0_SH_uint8"
						if _, ok := v.declared[h]; !ok {
							v.declared[h] = -1
							v.gitem("(declare-fun " + h + " () (Array Int (Array Int Int)))")
							v.heapAxiom("SH_uint8", Term{h, "(Array Int (Array Int Int))"})
						}
						v.axiom(fmt.Sprintf("(seq_eq (mkstr (select %s (s_base %s)) (s_off %s) (s_len %s)) %s)", h, t.S, t.S, t.S, lit.S))
					}
				}
			}
		}
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (v *VC) evalUnary(st *State, e *ast.UnaryExpr) Val {
	switch e.Op {
	case token.ARROW:
		return v.recv(st, e)
	case token.AND:
		if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
			val := v.evalComposite(st, cl)
			return v.alloc(st, val)
		}
		l := v.lval(st, e.X)
		return Val{lv: l, gt: v.typeOf(e)}
	case token.NOT:
		x := v.eval(st, e.X)
		return Val{t: tNot(x.t), gt: x.gt}
	case token.SUB:
		x := v.eval(st, e.X)
		return Val{t: v.wrap(tSub(tInt(0), x.t), x.gt), gt: x.gt}
	case token.ADD:
		return v.eval(st, e.X)
	case token.XOR:
		x := v.eval(st, e.X)
		if isUnsigned(x.gt) {
			return Val{t: tSub(tSub(pow2(bitWidth(x.gt)), tInt(1)), x.t), gt: x.gt}
		}
		return Val{t: tSub(tSub(tInt(0), x.t), tInt(1)), gt: x.gt}
	}
	unsup("unary %s", e.Op)
	return Val{}
}

// alloc puts a value in a fresh heap cell and returns the pointer.
func (v *VC) alloc(st *State, val Val) Val {
	r := v.newRef(st)
	key := v.ptrHeapKey(val.gt)
	h := v.ptrHeap(st, val.gt)
	v.setHeap(st, key, tSto(h, r, v.term(st, val)))
	v.recWrite(key, r)
	return Val{t: r, gt: types.NewPointer(val.gt)}
}

// withPC evaluates f under an extra path condition, merging side effects.
func (v *VC) withPC(st *State, c Term, f func(*State) Val) Val {
	sub := st.clone()
	sub.pc = v.def("pc", tAnd(st.pc, c))
	before := sub.clone()
	r := f(sub)
	changed := sub.dead || sub.alloc.S != before.alloc.S
	for k, h := range sub.heap {
		if bh, ok := before.heap[k]; !ok {
			st.heap[k] = h
			if !strings.HasPrefix(h.S, "H0_") {
				changed = true
			}
		} else if bh.S != h.S {
			changed = true
		}
	}
	for k, x := range sub.vars {
		if b, ok := before.vars[k]; ok && (b.t.S != x.t.S || b.boxed != x.boxed) {
			changed = true
		}
	}
	if changed {
		other := st.clone()
		other.pc = v.def("pc", tAnd(st.pc, tNot(c)))
		m := v.merge(sub, other)
		pc := st.pc
		st.set(m)
		_ = pc
	}
	return r
}

func (v *VC) evalBinary(st *State, e *ast.BinaryExpr) Val {
	bt := types.Typ[types.Bool]
	switch e.Op {
	case token.LAND:
		a := v.eval(st, e.X)
		at := v.def("c", a.t)
		if at.S == "false" {
			return Val{t: tFalse, gt: bt}
		}
		b := v.withPC(st, at, func(s *State) Val { return v.eval(s, e.Y) })
		return Val{t: tAnd(at, b.t), gt: bt}
	case token.LOR:
		a := v.eval(st, e.X)
		at := v.def("c", a.t)
		if at.S == "true" {
			return Val{t: tTrue, gt: bt}
		}
		b := v.withPC(st, tNot(at), func(s *State) Val { return v.eval(s, e.Y) })
		return Val{t: tOr(at, b.t), gt: bt}
	}
	a := v.eval(st, e.X)
	b := v.eval(st, e.Y)
	return v.binop(st, e.Op, a, b, v.typeOf(e), e.Pos())
}

func (v *VC) binop(st *State, op token.Token, a, b Val, rt types.Type, pos token.Pos) Val {
	bt := types.Typ[types.Bool]
	switch op {
	case token.EQL:
		return Val{t: v.eqVals(st, a, b), gt: bt}
	case token.NEQ:
		return Val{t: tNot(v.eqVals(st, a, b)), gt: bt}
	}
	if a.t.Sort == "Str" {
		switch op {
		case token.ADD:
			return Val{t: v.concat(a.t, b.t), gt: rt}
		case token.LSS:
			return Val{t: app("Bool", "str_lt", a.t, b.t), gt: bt}
		case token.GTR:
			return Val{t: app("Bool", "str_lt", b.t, a.t), gt: bt}
		case token.LEQ:
			return Val{t: tNot(app("Bool", "str_lt", b.t, a.t)), gt: bt}
		case token.GEQ:
			return Val{t: tNot(app("Bool", "str_lt", a.t, b.t)), gt: bt}
		}
	}
	if a.t.Sort == "Float" && b.t.Sort == "Float" {
		// floating point: every operator is an uninterpreted function
		fn := "f_" + map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo", token.LSS: "lt", token.GTR: "gt", token.LEQ: "le", token.GEQ: "ge"}[op]
		res, gt := "Float", rt
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			res, gt = "Bool", types.Type(bt)
		case token.ADD, token.SUB, token.MUL, token.QUO:
		default:
			unsup("operator %s on Float", op)
		}
		v.declFun(fn, "Float Float", res)
		return Val{t: app(res, fn, a.t, b.t), gt: gt}
	}
	if strings.HasPrefix(a.t.Sort, "T_") {
		// ordered type parameter: uninterpreted strict total order
		fn := "lt_" + a.t.Sort
		if _, ok := v.declared[fn]; !ok {
			v.declFun(fn, a.t.Sort+" "+a.t.Sort, "Bool")
			s := a.t.Sort
			v.axiom(fmt.Sprintf("(forall ((x %s)) (! (not (%s x x)) :pattern ((%s x x))))", s, fn, fn))
			v.axiom(fmt.Sprintf("(forall ((x %s)(y %s)(z %s)) (! (=> (and (%s x y) (%s y z)) (%s x z)) :pattern ((%s x y) (%s y z))))", s, s, s, fn, fn, fn, fn, fn))
			v.axiom(fmt.Sprintf("(forall ((x %s)(y %s)) (! (or (= x y) (%s x y) (%s y x)) :pattern ((%s x y))))", s, s, fn, fn, fn))
		}
		switch op {
		case token.LSS:
			return Val{t: app("Bool", fn, a.t, b.t), gt: bt}
		case token.GTR:
			return Val{t: app("Bool", fn, b.t, a.t), gt: bt}
		case token.LEQ:
			return Val{t: tNot(app("Bool", fn, b.t, a.t)), gt: bt}
		case token.GEQ:
			return Val{t: tNot(app("Bool", fn, a.t, b.t)), gt: bt}
		}
	}
	if a.t.Sort != "Int" || b.t.Sort != "Int" {
		unsup("operator %s on %s", op, a.t.Sort)
	}
	switch op {
	case token.LSS:
		return Val{t: tLt(a.t, b.t), gt: bt}
	case token.LEQ:
		return Val{t: tLe(a.t, b.t), gt: bt}
	case token.GTR:
		return Val{t: tLt(b.t, a.t), gt: bt}
	case token.GEQ:
		return Val{t: tLe(b.t, a.t), gt: bt}
	case token.ADD:
		return Val{t: v.wrap(tAdd(a.t, b.t), rt), gt: rt}
	case token.SUB:
		return Val{t: v.wrap(tSub(a.t, b.t), rt), gt: rt}
	case token.MUL:
		return Val{t: v.wrap(tMul(a.t, b.t), rt), gt: rt}
	case token.QUO:
		v.oblig(st, "division by zero excluded", pos, tNot(tEq(b.t, tInt(0))))
		if isUnsigned(rt) {
			return Val{t: v.def("q", tDiv(a.t, b.t)), gt: rt}
		}
		return Val{t: v.wrap(goDiv(a.t, b.t), rt), gt: rt}
	case token.REM:
		v.oblig(st, "division by zero excluded", pos, tNot(tEq(b.t, tInt(0))))
		if isUnsigned(rt) {
			return Val{t: v.def("m", tMod(a.t, b.t)), gt: rt}
		}
		return Val{t: v.def("m", goMod(a.t, b.t)), gt: rt}
	case token.SHL, token.SHR:
		return v.shift(st, op, a, b, rt, pos)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return v.bitop(op, a, b, rt)
	}
	unsup("operator %s", op)
	return Val{}
}

func (v *VC) shift(st *State, op token.Token, a, b Val, rt types.Type, pos token.Pos) Val {
	w := bitWidth(rt)
	if w == 0 {
		w = 64
	}
	if !isUnsigned(b.gt) {
		v.oblig(st, "shift count not negative", pos, tLe(tInt(0), b.t))
	}
	if n, ok := litVal(b.t.S); ok && n.IsInt64() {
		c := n.Int64()
		if c >= w {
			if op == token.SHL || isUnsigned(rt) {
				return Val{t: tInt(0), gt: rt}
			}
			return Val{t: tIte(tLe(tInt(0), a.t), tInt(0), tInt(-1)), gt: rt}
		}
		if op == token.SHL {
			return Val{t: v.wrap(tMul(a.t, pow2(c)), rt), gt: rt}
		}
		return Val{t: v.def("sh", tDiv(a.t, pow2(c))), gt: rt} // div rounds down: arithmetic shift
	}
	bt := v.def("sc", b.t)
	at := v.def("sv", a.t)
	r := tInt(0)
	if op == token.SHR && !isUnsigned(rt) {
		r = tIte(tLe(tInt(0), at), tInt(0), tInt(-1))
	}
	for c := w - 1; c >= 0; c-- {
		var x Term
		if op == token.SHL {
			x = tMul(at, pow2(c))
			if _, ok := litVal(at.S); ok || w > 8 {
				x = v.wrapT(x, rt)
			} else {
				x = v.wrapT(x, rt)
			}
		} else {
			x = tDiv(at, pow2(c))
			if c == 0 {
				x = at
			}
		}
		r = tIte(tEq(bt, tInt(c)), x, r)
	}
	return Val{t: v.def("sh", r), gt: rt}
}

// wrapT is wrap without naming (used inside ite chains).
func (v *VC) wrapT(t Term, gt types.Type) Term {
	b := v.tsub(gt).Underlying().(*types.Basic)
	lo, hi, ok := intRange(b)
	if !ok {
		return t
	}
	if n, ok := litVal(t.S); ok {
		m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		r := new(big.Int).Sub(n, lo)
		r.Mod(r, m)
		return tBig(r.Add(r, lo))
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	return arith("+", tBig(lo), tMod(tSub(t, tBig(lo)), tBig(m)))
}

func (v *VC) bitop(op token.Token, a, b Val, rt types.Type) Val {
	w := bitWidth(rt)
	if !isUnsigned(rt) && w != 0 {
		// only masks by non negative constants
		if n, ok := litVal(b.t.S); !(ok && n.Sign() >= 0 && op == token.AND) {
			unsup("bit operation on signed integers")
		}
	}
	// AND with 2^k-1 is a remainder
	if n, ok := litVal(b.t.S); ok && op == token.AND {
		m := new(big.Int).Add(n, big.NewInt(1))
		if m.Sign() > 0 && new(big.Int).And(m, n).Sign() == 0 {
			return Val{t: v.def("b", tMod(a.t, tBig(m))), gt: rt}
		}
	}
	if w == 0 || w > 8 {
		if n, ok := litVal(b.t.S); ok && op == token.AND && n.BitLen() <= 16 {
			w = int64(n.BitLen())
		} else {
			unsup("bit operation on %d-bit operands", w)
		}
	}
	at, bt := v.def("b", a.t), v.def("b", b.t)
	bit := func(t Term, k int64) Term {
		if n, ok := litVal(t.S); ok {
			if n.Bit(int(k)) == 1 {
				return tTrue
			}
			return tFalse
		}
		return tEq(tMod(tDiv(t, pow2(k)), tInt(2)), tInt(1))
	}
	// the operands as sums of their bits
	bits := map[string][]Term{}
	for _, t := range []Term{at, bt} {
		if _, ok := litVal(t.S); ok || bits[t.S] != nil {
			continue
		}
		sum := tInt(0)
		var facts []Term
		for k := int64(0); k < w; k++ {
			d := v.fresh("bit", "Int")
			bits[t.S] = append(bits[t.S], d)
			facts = append(facts, tLe(tInt(0), d), tLe(d, tInt(1)), tEq(tMod(tDiv(t, pow2(k)), tInt(2)), d))
			sum = tAdd(sum, tMul(pow2(k), d))
		}
		facts = append(facts, tEq(sum, tMod(t, pow2(w))))
		v.item("(assert " + tAnd(facts...).S + ")")
	}
	bit0 := bit
	bit = func(t Term, k int64) Term {
		if l, ok := bits[t.S]; ok {
			return tEq(l[k], tInt(1))
		}
		return bit0(t, k)
	}
	r := tInt(0)
	for k := int64(0); k < w; k++ {
		x, y := bit(at, k), bit(bt, k)
		var c Term
		switch op {
		case token.AND:
			c = tAnd(x, y)
		case token.OR:
			c = tOr(x, y)
		case token.XOR:
			c = tNot(tEq(x, y))
		case token.AND_NOT:
			c = tAnd(x, tNot(y))
		}
		r = tAdd(r, tIte(c, pow2(k), tInt(0)))
	}
	return Val{t: v.def("bits", r), gt: rt}
}

// ------------------------------------------------------------------ selectors, indexing

func deref(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

// ptrLV gives the lvalue a pointer value points to.
func (v *VC) ptrLV(st *State, p Val, pos token.Pos) *LVal {
	if p.pois != "" {
		unsup("%s", p.pois)
	}
	if p.lv != nil {
		return p.lv
	}
	el, ok := deref(v.tsub(p.gt))
	if !ok {
		unsup("dereference of non pointer %s", p.gt)
	}
	v.oblig(st, "no nil dereference", pos, tNot(tEq(p.t, tInt(0))))
	return &LVal{kind: lvDeref, ptr: p.t, gt: v.tsub(el)}
}

func (v *VC) lval(st *State, e ast.Expr) *LVal {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return v.lval(st, e.X)
	case *ast.Ident:
		obj := v.info().Uses[e]
		if obj == nil {
			obj = v.info().Defs[e]
		}
		o, ok := obj.(*types.Var)
		if !ok {
			unsup("lvalue %s", e.Name)
		}
		if _, ok := st.vars[o]; !ok {
			if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				unsup("write or address of package variable %s", e.Name)
			}
			st.vars[o] = Val{t: v.zero(o.Type()), gt: v.tsub(o.Type())}
		}
		return &LVal{kind: lvVar, obj: o, gt: v.tsub(o.Type())}
	case *ast.StarExpr:
		p := v.eval(st, e.X)
		return v.ptrLV(st, p, e.Pos())
	case *ast.SelectorExpr:
		sel := v.info().Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			unsup("lvalue selector %s", e.Sel.Name)
		}
		return v.fieldPathLV(st, e.X, sel.Index(), e.Pos())
	case *ast.IndexExpr:
		xt := v.typeOf(e.X)
		switch u := xt.Underlying().(type) {
		case *types.Slice:
			s := v.eval(st, e.X)
			i := v.eval(st, e.Index)
			if s.list != nil {
				unsup("lvalue in static list")
			}
			if s.t.Sort != "Slice" {
				return v.seqElemLV(st, e.X, s, i, v.tsub(u.Elem()), e.Pos())
			}
			s.t = v.def("sl", s.t)
			v.boundsCheck(st, i.t, sLen(s.t), e.Pos())
			return &LVal{kind: lvElem, slice: s.t, idx: v.def("i", i.t), gt: v.tsub(u.Elem())}
		case *types.Array:
			p := v.lval(st, e.X)
			i := v.eval(st, e.Index)
			v.boundsCheck(st, i.t, tInt(u.Len()), e.Pos())
			return &LVal{kind: lvArrElem, parent: p, idx: v.def("i", i.t), gt: v.tsub(u.Elem())}
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			p := v.ptrLV(st, v.eval(st, e.X), e.Pos())
			i := v.eval(st, e.Index)
			v.boundsCheck(st, i.t, tInt(a.Len()), e.Pos())
			return &LVal{kind: lvArrElem, parent: p, idx: v.def("i", i.t), gt: v.tsub(a.Elem())}
		case *types.Map:
			m := v.eval(st, e.X)
			k := v.eval(st, e.Index)
			v.oblig(st, "no write to nil map", e.Pos(), tNot(tEq(m.t, tInt(0))))
			return &LVal{kind: lvMap, m: m, key: v.convert(st, k, u.Key()), gt: v.tsub(u.Elem())}
		}
	case *ast.CompositeLit:
		// addressable only through &T{}; used for method calls on literals
		val := v.alloc(st, v.evalComposite(st, e))
		return &LVal{kind: lvDeref, ptr: val.t, gt: v.typeOf(e)}
	}
	unsup("lvalue %T", e)
	return nil
}

func (v *VC) boundsCheck(st *State, i, n Term, pos token.Pos) {
	v.oblig(st, "index in bounds", pos, tAnd(tLe(tInt(0), i), tLt(i, n)))
}

// fieldPathLV resolves x.f1.f2... (with embedded fields and pointers) to an lvalue.
func (v *VC) fieldPathLV(st *State, x ast.Expr, path []int, pos token.Pos) *LVal {
	xt := v.typeOf(x)
	var l *LVal
	if _, isPtr := deref(xt); isPtr {
		l = v.ptrLV(st, v.eval(st, x), pos)
	} else {
		l = v.lval(st, x)
	}
	return v.walkFields(st, l, path, pos)
}

func (v *VC) walkFields(st *State, l *LVal, path []int, pos token.Pos) *LVal {
	for _, i := range path {
		if _, isPtr := deref(v.tsub(l.gt)); isPtr {
			l = v.ptrLV(st, v.readLV(st, l, pos), pos)
		}
		l = &LVal{kind: lvField, parent: l, field: i, gt: v.fieldType(l.gt, i)}
	}
	return l
}

func (v *VC) evalSelector(st *State, e *ast.SelectorExpr) Val {
	sel := v.info().Selections[e]
	if sel == nil { // qualified identifier
		switch o := v.info().Uses[e.Sel].(type) {
		case *types.Var:
			return v.globalVar(st, o)
		case *types.Func:
			return v.funcVal(o, nil)
		}
		unsup("qualified %s", e.Sel.Name)
	}
	switch sel.Kind() {
	case types.FieldVal:
		if xt := v.typeOf(e.X); true {
			if _, isPtr := deref(xt); !isPtr && !v.addressable(e.X) {
				x := v.eval(st, e.X)
				return v.walkFieldVals(st, x, sel.Index(), e.Pos())
			}
		}
		l := v.fieldPathLV(st, e.X, sel.Index(), e.Pos())
		return v.readLV(st, l, e.Pos())
	case types.MethodVal:
		f := sel.Obj().(*types.Func)
		r := v.methodRecv(st, e, sel)
		return v.funcVal(f, &r)
	}
	unsup("selector kind")
	return Val{}
}

func (v *VC) walkFieldVals(st *State, x Val, path []int, pos token.Pos) Val {
	for n, i := range path {
		if _, isPtr := deref(v.tsub(x.gt)); isPtr {
			l := v.walkFields(st, v.ptrLV(st, x, pos), path[n:], pos)
			return v.readLV(st, l, pos)
		}
		x = v.getField(v.term(st, x), x.gt, i)
		x = v.assumeInv(st, x)
	}
	return x
}

func (v *VC) addressable(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		o, ok := v.info().Uses[e].(*types.Var)
		return ok && !(o.Pkg() != nil && o.Parent() == o.Pkg().Scope())
	case *ast.ParenExpr:
		return v.addressable(e.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if sel := v.info().Selections[e]; sel != nil && sel.Kind() == types.FieldVal {
			if _, isPtr := deref(v.typeOf(e.X)); isPtr {
				return true
			}
			return v.addressable(e.X)
		}
		return false
	case *ast.IndexExpr:
		switch v.typeOf(e.X).Underlying().(type) {
		case *types.Slice:
			return !(v.imm["*"] || v.imm[typeName(v.typeOf(e))])
		case *types.Array:
			return v.addressable(e.X)
		case *types.Pointer:
			return true
		}
	}
	return false
}

func (v *VC) evalIndex(st *State, e *ast.IndexExpr) Val {
	xt := v.typeOf(e.X)
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		s := v.eval(st, e.X)
		i := v.eval(st, e.Index)
		if s.list != nil {
			n, ok := litVal(i.t.S)
			if !ok || !n.IsInt64() || n.Int64() >= int64(len(s.list)) {
				unsup("symbolic index into a static argument list")
			}
			return s.list[n.Int64()]
		}
		if s.t.Sort == "IBytes" {
			v.boundsCheck(st, i.t, app("Int", "slen", app("Str", "ib_str", s.t)), e.Pos())
			return Val{t: app("Int", "sat", app("Str", "ib_str", s.t), i.t), gt: v.typeOf(e)}
		}
		if s.t.Sort != "Slice" {
			v.boundsCheck(st, i.t, app("Int", s.t.Sort+"_len", s.t), e.Pos())
			el := v.sortOf(u.Elem())
			r := Val{t: tSel(app("(Array Int "+el+")", s.t.Sort+"_arr", s.t), i.t), gt: v.tsub(u.Elem())}
			r = v.assumeInv(st, r)
			return r
		}
		s.t = v.def("sl", s.t)
		i.t = v.def("i", i.t)
		v.boundsCheck(st, i.t, sLen(s.t), e.Pos())
		return v.readLV(st, &LVal{kind: lvElem, slice: s.t, idx: i.t, gt: v.tsub(u.Elem())}, e.Pos())
	case *types.Array:
		i := v.eval(st, e.Index)
		v.boundsCheck(st, i.t, tInt(u.Len()), e.Pos())
		if v.addressable(e.X) {
			l := v.lval(st, e.X)
			return v.readLV(st, &LVal{kind: lvArrElem, parent: l, idx: i.t, gt: v.tsub(u.Elem())}, e.Pos())
		}
		a := v.eval(st, e.X)
		if a.t.Sort == "Str" {
			return Val{t: app("Int", "sat", a.t, i.t), gt: v.tsub(u.Elem())}
		}
		r := Val{t: tSel(a.t, i.t), gt: v.tsub(u.Elem())}
		r = v.assumeInv(st, r)
		return r
	case *types.Pointer:
		l := v.lval(st, e)
		return v.readLV(st, l, e.Pos())
	case *types.Map:
		m := v.eval(st, e.X)
		k := v.convert(st, v.eval(st, e.Index), u.Key())
		r, in := v.mapGet(st, m, k)
		if tup, ok := v.info().TypeOf(e).(*types.Tuple); ok {
			_ = tup
			return Val{tuple: []Val{r, {t: in, gt: types.Typ[types.Bool]}}, gt: tup}
		}
		return r
	case *types.Basic: // string
		s := v.eval(st, e.X)
		i := v.eval(st, e.Index)
		v.boundsCheck(st, i.t, app("Int", "slen", s.t), e.Pos())
		return Val{t: app("Int", "sat", s.t, i.t), gt: types.Typ[types.Uint8]}
	}
	unsup("index of %s", xt)
	return Val{}
}

func (v *VC) evalSlice(st *State, e *ast.SliceExpr) Val {
	xt := v.typeOf(e.X)
	var x Val
	var pl *Val
	if p, isPtr := deref(xt); isPtr {
		pv := v.readLV(st, v.ptrLV(st, v.eval(st, e.X), e.Pos()), e.Pos())
		pl, xt = &pv, v.tsub(p)
	}
	if a, ok := xt.Underlying().(*types.Array); ok {
		// arr[:] gives a slice aliasing the array: a fresh snapshot is exact as long as nobody
		// writes through it or to the array while both live; only read-only uses are supported.
		var l Val
		if pl != nil {
			l = *pl
		} else {
			l = v.eval(st, e.X)
		}
		n, isB := isByteArray(xt)
		if !isB {
			_ = a
			unsup("slicing an array of %s", a.Elem())
		}
		lo, hi := tInt(0), tInt(n)
		if e.Low != nil {
			lo = v.eval(st, e.Low).t
		}
		if e.High != nil {
			hi = v.eval(st, e.High).t
		}
		v.oblig(st, "slice bounds in range", e.Pos(), tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, tInt(n))))
		str := l.t
		if lo.S != "0" || hi.S != fmt.Sprint(n) {
			str = app("Str", "ssub", l.t, lo, hi)
		}
		v.notes = append(v.notes, "a slice of an array is a snapshot (no write through it is modelled)")
		return v.bytesFromStr(st, str, types.NewSlice(types.Typ[types.Uint8]))
	}
	x = v.eval(st, e.X)
	var lo Term = tInt(0)
	var hi Term
	var mx Term
	if e.Low != nil {
		lo = v.def("lo", v.eval(st, e.Low).t)
	}
	if e.High != nil {
		hi = v.def("hi", v.eval(st, e.High).t)
	}
	if e.Max != nil {
		mx = v.def("mx", v.eval(st, e.Max).t)
	}
	if x.list != nil {
		n, ok := litVal(lo.S)
		if ok && e.High == nil && n.IsInt64() && n.Int64() <= int64(len(x.list)) {
			r := x
			r.list = x.list[n.Int64():]
			return r
		}
		unsup("slice of static list")
	}
	x.t = v.def("sl", x.t)
	return v.sliceOf(st, x, lo, hi, mx, e.Pos())
}

func (v *VC) sliceOf(st *State, x Val, lo, hi, mx Term, pos token.Pos) Val {
	switch {
	case x.t.Sort == "Str":
		if !hi.ok() {
			hi = app("Int", "slen", x.t)
		}
		v.oblig(st, "slice bounds in range", pos, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, app("Int", "slen", x.t))))
		return Val{t: v.def("sub", app("Str", "ssub", x.t, lo, hi)), gt: x.gt}
	case x.t.Sort == "IBytes":
		str := app("Str", "ib_str", x.t)
		if !hi.ok() {
			hi = app("Int", "slen", str)
		}
		// beyond len up to cap is legal Go; here it must stay within len
		v.oblig(st, "slice bounds in range", pos, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, app("Int", "slen", str))))
		return Val{t: v.def("sub", Term{fmt.Sprintf("(mk_ib (ssub %s %s %s) (ib_nil %s))", str.S, lo.S, hi.S, x.t.S), "IBytes"}), gt: x.gt}
	case strings.HasPrefix(x.t.Sort, "IS_"):
		n := x.t.Sort
		ln := app("Int", n+"_len", x.t)
		if !hi.ok() {
			hi = ln
		}
		v.oblig(st, "slice bounds in range", pos, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, ln)))
		arr := fmt.Sprintf("(%s_shift (%s_arr %s) %s)", n, n, x.t.S, lo.S)
		if lo.S == "0" {
			arr = fmt.Sprintf("(%s_arr %s)", n, x.t.S)
		}
		return Val{t: v.def("sub", Term{fmt.Sprintf("(mk_%s %s %s (%s_nil %s))", n, arr, tSub(hi, lo).S, n, x.t.S), n}), gt: x.gt}
	}
	if !hi.ok() {
		hi = sLen(x.t)
	}
	cp := sCap(x.t)
	if !mx.ok() {
		v.oblig(st, "slice bounds in range", pos, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, cp)))
		mx = cp
	} else {
		v.oblig(st, "slice bounds in range", pos, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, mx), tLe(mx, cp)))
	}
	return Val{t: mkSlice(sBase(x.t), v.subOff(sOff(x.t), lo), tSub(hi, lo), tSub(mx, lo)), gt: x.gt}
}

// subOff is the offset of a subslice; positions in the slice and in the subslice are related.
func (v *VC) subOff(off, lo Term) Term {
	if lo.S == "0" {
		return off
	}
	if off.S == "0" {
		return lo
	}
	o := v.fresh("off", "Int")
	v.item(fmt.Sprintf("(assert (= %s (+ %s %s)))", o.S, off.S, lo.S))
	v.item(fmt.Sprintf("(assert (forall ((i Int)) (! (= (at %s i) (at %s (- i %s))) :pattern ((at %s i)))))", off.S, o.S, lo.S, off.S))
	v.item(fmt.Sprintf("(assert (forall ((i Int)) (! (= (at %s i) (at %s (+ i %s))) :pattern ((at %s i)))))", o.S, off.S, lo.S, o.S))
	return o
}

// bytesFromStr makes a fresh byte slice with the given contents.
func (v *VC) bytesFromStr(st *State, s Term, gt types.Type) Val {
	if v.imm["*"] || v.imm["uint8"] {
		v.sortOf(gt)
		return Val{t: Term{"(mk_ib " + s.S + " false)", "IBytes"}, gt: gt}
	}
	s = v.def("bs", s)
	r := v.newRef(st)
	el := gt.Underlying().(*types.Slice).Elem()
	key := v.sliceHeapKey(el)
	h := v.sliceHeap(st, el)
	v.setHeap(st, key, tSto(h, r, Term{"(arrof " + s.S + ")", "(Array Int Int)"}))
	v.recWrite(key, r)
	ln := app("Int", "slen", s)
	cp := v.fresh("cap", "Int")
	v.assume(st, tAnd(tLe(ln, cp), tLe(cp, tBig(maxBytes))))
	sl := v.def("bsl", mkSlice(r, tInt(0), ln, cp))
	v.assume(st, app("Bool", "seq_eq", v.bytesOf(st, Val{t: sl, gt: gt}), s))
	return Val{t: sl, gt: gt}
}

// bytesOf is the content of a byte slice, byte array or string as a Str.
func (v *VC) bytesOf(st *State, x Val) Term {
	switch x.t.Sort {
	case "Str":
		return x.t
	case "IBytes":
		if strings.HasPrefix(x.t.S, "(mk_ib ") {
			return Term{splitArgs(x.t.S)[1], "Str"}
		}
		return app("Str", "ib_str", x.t)
	case "Slice":
		el := v.tsub(x.gt).Underlying().(*types.Slice).Elem()
		h := v.sliceHeap(st, el)
		return app("Str", "mkstr", tSel(h, sBase(x.t)), sOff(x.t), sLen(x.t))
	}
	unsup("bytes of %s", x.t.Sort)
	return Term{}
}

func (v *VC) evalComposite(st *State, e *ast.CompositeLit) Val {
	gt := v.typeOf(e)
	if p, ok := deref(gt); ok {
		// elided &T in a composite of pointers
		inner := v.compositeOf(st, e, p)
		return v.alloc(st, inner)
	}
	return v.compositeOf(st, e, gt)
}

func (v *VC) evalElem(st *State, e ast.Expr, t types.Type) Val {
	return v.convert(st, v.eval(st, e), t)
}

func (v *VC) compositeOf(st *State, e *ast.CompositeLit, gt types.Type) Val {
	switch u := gt.Underlying().(type) {
	case *types.Struct:
		si := v.structInfoOf(gt)
		if si.opaque {
			if len(e.Elts) == 0 {
				return Val{t: v.zero(gt), gt: gt}
			}
			// external struct: fresh value with the given fields
			t := v.fresh("ext", si.name)
			for _, el := range e.Elts {
				kv, ok := el.(*ast.KeyValueExpr)
				if !ok {
					unsup("positional external struct literal")
				}
				for i, f := range si.fields {
					if f.Name() == kv.Key.(*ast.Ident).Name {
						x := v.evalElem(st, kv.Value, f.Type())
						v.assume(st, tEq(v.getField(t, gt, i).t, v.term(st, x)))
					}
				}
			}
			return Val{t: t, gt: gt}
		}
		if len(si.fields) == 0 {
			return Val{t: Term{"mk_" + si.name, si.name}, gt: gt}
		}
		args := make([]Term, len(si.fields))
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j, f := range si.fields {
					if f.Name() == kv.Key.(*ast.Ident).Name {
						args[j] = v.term(st, v.evalElem(st, kv.Value, v.tsub(u.Field(j).Type())))
					}
				}
			} else {
				args[i] = v.term(st, v.evalElem(st, el, v.tsub(u.Field(i).Type())))
			}
		}
		for j := range args {
			if !args[j].ok() {
				if si.sorts[j] == "Opaque" {
					v.declFun("zero_opaque", "", "Opaque")
					args[j] = Term{"zero_opaque", "Opaque"}
				} else {
					args[j] = v.zero(u.Field(j).Type())
				}
			}
		}
		return Val{t: v.def("st", app(si.name, "mk_"+si.name, args...)), gt: gt}
	case *types.Slice, *types.Array:
		var el types.Type
		n := int64(0)
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
		} else {
			el = u.(*types.Array).Elem()
			n = u.(*types.Array).Len()
		}
		vals := map[int64]Val{}
		idx := int64(0)
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				k, ok := constant.Int64Val(constant.ToInt(v.info().Types[kv.Key].Value))
				if !ok {
					unsup("composite key")
				}
				idx = k
				x = kv.Value
			}
			vals[idx] = v.evalElem(st, x, v.tsub(el))
			idx++
			if idx > n {
				n = idx
			}
		}
		if _, ok := u.(*types.Array); ok {
			z := v.zero(gt)
			for i := int64(0); i < n; i++ {
				if x, ok := vals[i]; ok {
					if z.Sort == "Str" {
						z = app("Str", "supd", z, tInt(i), v.term(st, x))
					} else {
						z = tSto(z, tInt(i), v.term(st, x))
					}
				}
			}
			return Val{t: v.def("arr", z), gt: gt}
		}
		var list []Val
		for i := int64(0); i < n; i++ {
			if x, ok := vals[i]; ok {
				list = append(list, x)
			} else {
				list = append(list, Val{t: v.zero(el), gt: v.tsub(el)})
			}
		}
		return v.sliceLit(st, list, gt)
	case *types.Map:
		m := v.makeMap(st, gt)
		for _, x := range e.Elts {
			kv := x.(*ast.KeyValueExpr)
			v.mapSet(st, m, v.evalElem(st, kv.Key, u.Key()), v.evalElem(st, kv.Value, u.Elem()))
		}
		return m
	}
	unsup("composite of %s", gt)
	return Val{}
}

// sliceLit allocates a slice with the given elements.
func (v *VC) sliceLit(st *State, list []Val, gt types.Type) Val {
	el := v.tsub(gt.Underlying().(*types.Slice).Elem())
	s := v.sortOf(gt)
	if s == "IBytes" {
		str := v.fresh("lit", "Str")
		v.assume(st, tEq(app("Int", "slen", str), tInt(int64(len(list)))))
		for i, x := range list {
			v.assume(st, tEq(app("Int", "sat", str, tInt(int64(i))), x.t))
		}
		if len(list) == 1 {
			v.assume(st, Term{fmt.Sprintf("(seq_eq %s (str1 %s))", str.S, list[0].t.S), "Bool"})
		}
		return Val{t: Term{"(mk_ib " + str.S + " false)", "IBytes"}, gt: gt}
	}
	if strings.HasPrefix(s, "IS_") {
		es := v.sortOf(el)
		arr := Term{fmt.Sprintf("((as const (Array Int %s)) %s)", es, v.zero(el).S), "(Array Int " + es + ")"}
		for i, x := range list {
			arr = tSto(arr, tInt(int64(i)), v.term(st, x))
		}
		return Val{t: v.def("lit", Term{fmt.Sprintf("(mk_%s %s %d false)", s, arr.S, len(list)), s}), gt: gt}
	}
	r := v.newRef(st)
	key := v.sliceHeapKey(el)
	es := v.sortOf(el)
	row := Term{fmt.Sprintf("((as const (Array Int %s)) %s)", es, v.zero(el).S), "(Array Int " + es + ")"}
	for i, x := range list {
		row = tSto(row, tInt(int64(i)), v.term(st, x))
	}
	h := v.sliceHeap(st, el)
	v.setHeap(st, key, tSto(h, r, row))
	v.recWrite(key, r)
	n := tInt(int64(len(list)))
	return Val{t: mkSlice(r, tInt(0), n, n), gt: gt}
}

func (v *VC) makeMap(st *State, gt types.Type) Val {
	r := v.newRef(st)
	mt := gt.Underlying().(*types.Map)
	kd, kv, kc, d, _, c := v.mapHeaps(st, mt)
	_ = kv
	k := v.sortOf(mt.Key())
	v.setHeap(st, kd, tSto(d, r, Term{"((as const (Array " + k + " Bool)) false)", "(Array " + k + " Bool)"}))
	v.setHeap(st, kc, tSto(c, r, tInt(0)))
	v.recWrite(kd, r)
	v.recWrite(kc, r)
	return Val{t: r, gt: gt}
}

func (v *VC) evalTypeAssert(st *State, e *ast.TypeAssertExpr, single bool) Val {
	x := v.eval(st, e.X)
	t := v.typeOf(e.Type)
	isTuple := false
	if _, ok := v.info().TypeOf(e).(*types.Tuple); ok {
		isTuple = true
	}
	is, val := v.dynIs(st, x, t)
	if isTuple {
		return Val{tuple: []Val{val, {t: is, gt: types.Typ[types.Bool]}}}
	}
	v.oblig(st, "type assertion holds", e.Pos(), is)
	return val
}

// dynIs: does interface x hold dynamic type t, and the value if so.
func (v *VC) dynIs(st *State, x Val, t types.Type) (Term, Val) {
	if x.dyn != nil {
		if types.Identical(v.tsub(x.dyn.gt), t) {
			return tTrue, *x.dyn
		}
		if _, ok := t.Underlying().(*types.Interface); !ok {
			return tFalse, Val{t: v.zero(t), gt: t}
		}
	}
	xt := v.term(st, x)
	if _, ok := t.Underlying().(*types.Interface); ok {
		fn := "dyn_impl_" + typeName(t)
		v.declFun(fn, "Int", "Bool")
		is := tAnd(tNot(tEq(xt, tInt(0))), app("Bool", fn, xt))
		return is, Val{t: tIte(is, xt, tInt(0)), gt: t}
	}
	v.declFun("dyntype", "Int", "Int")
	id := v.typeID(t)
	is := tAnd(tNot(tEq(xt, tInt(0))), tEq(app("Int", "dyntype", xt), tInt(int64(id))))
	fn := "unbox_" + typeName(t)
	s := v.sortOf(t)
	v.declFun(fn, "Int", s)
	r := Val{t: v.def("dyn", tIte(is, app(s, fn, xt), v.zero(t))), gt: t}
	r = v.assumeInv(st, r)
	return is, r
}

var typeIDs = map[string]int{}
var typeIDMu sync.Mutex

func (v *VC) typeID(t types.Type) int {
	return v.typeIDName(canonType(t, nil))
}

func (v *VC) typeIDName(n string) int {
	typeIDMu.Lock()
	defer typeIDMu.Unlock()
	if _, ok := typeIDs[n]; !ok {
		typeIDs[n] = len(typeIDs) + 1
	}
	return typeIDs[n]
}

// convert implements assignability conversions (concrete value to interface, nil to typed nil).
func (v *VC) convert(st *State, x Val, to types.Type) Val {
	to = v.tsub(to)
	if x.gt == nil {
		x.gt = to
		return x
	}
	if b, ok := x.gt.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return Val{t: v.zero(to), gt: to}
	}
	_, toIf := to.Underlying().(*types.Interface)
	if _, isTP := to.(*types.TypeParam); isTP {
		toIf = false
	}
	_, fromIf := v.tsub(x.gt).Underlying().(*types.Interface)
	if _, isTP := v.tsub(x.gt).(*types.TypeParam); isTP {
		fromIf = false
	}
	if toIf && !fromIf {
		c := x
		r := v.boxIface(st, x)
		r.gt = to
		r.dyn = &c
		return r
	}
	if x.lv != nil || x.fn != nil || x.list != nil || x.dyn != nil {
		x.gt = to
		return x
	}
	x.gt = to
	return x
}

// boxIface gives the interface value holding x: an injective boxing function per dynamic type.
func (v *VC) boxIface(st *State, x Val) Val {
	var xt Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
			}
		}()
		if x.lv != nil && x.lv.kind == lvVar {
			return // keep static pointers unboxed until needed
		}
		xt = v.term(st, x)
	}()
	if !xt.ok() {
		return Val{}
	}
	n := typeName(x.gt)
	s := xt.Sort
	bx, ub := "box_"+n, "unbox_"+n
	if _, ok := v.declared[bx]; !ok {
		v.declFun("dyntype", "Int", "Int")
		v.declFun(bx, s, "Int")
		v.declFun(ub, "Int", s)
		v.axiom(fmt.Sprintf("(forall ((x %s)) (! (and (= (%s (%s x)) x) (> (%s x) 0) (= (dyntype (%s x)) %d)) :pattern ((%s x))))", s, ub, bx, bx, bx, v.typeID(x.gt), bx))
	}
	return Val{t: app("Int", bx, xt)}
}

func isIntegral(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// conversion T(x)
func (v *VC) evalConversion(st *State, e *ast.CallExpr, to types.Type) Val {
	x := v.eval(st, e.Args[0])
	from := v.tsub(x.gt)
	to = v.tsub(to)
	fs, ts := x.t.Sort, ""
	if x.lv == nil && x.fn == nil {
		ts = v.sortOf(to)
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return Val{t: v.zero(to), gt: to}
	}
	switch {
	case fs == "Int" && ts == "Float":
		v.declSort("Float")
		v.declFun("f_of_int", "Int", "Float")
		return Val{t: app("Float", "f_of_int", x.t), gt: to}
	case fs == "Float" && ts == "Int" && isIntegral(to):
		// the value is not known: any integer of the type
		v.declFun("f_to_int", "Float", "Int")
		return Val{t: v.wrap(app("Int", "f_to_int", x.t), to), gt: to}
	case fs == "Int" && ts == "Int":
		if _, isIf := to.Underlying().(*types.Interface); isIf {
			return v.convert(st, x, to)
		}
		_, ok1 := from.Underlying().(*types.Basic)
		_, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 {
			return Val{t: v.wrap(x.t, to), gt: to}
		}
		x.gt = to
		return x
	case fs == "Str" && ts == "Slice":
		if isByteSlice(to) {
			return v.bytesFromStr(st, x.t, to)
		}
	case fs == "Str" && ts == "IBytes":
		return Val{t: Term{"(mk_ib " + x.t.S + " false)", "IBytes"}, gt: to}
	case (fs == "Slice" || fs == "IBytes") && ts == "Str":
		if n, ok := isByteArray(to); ok { // slice to array
			s := v.bytesOf(st, x)
			v.oblig(st, "slice long enough for array conversion", e.Pos(), tLe(tInt(n), app("Int", "slen", s)))
			return Val{t: v.def("arr", app("Str", "ssub", s, tInt(0), tInt(n))), gt: to}
		}
		return Val{t: v.def("str", v.bytesOf(st, x)), gt: to}
	case fs == "Slice" || fs == "IBytes":
		if p, ok := deref(to); ok { // slice to array pointer: only for immediate reads
			if n, ok := isByteArray(p); ok {
				s := v.bytesOf(st, x)
				v.oblig(st, "slice long enough for array conversion", e.Pos(), tLe(tInt(n), app("Int", "slen", s)))
				a := Val{t: v.def("arr", app("Str", "ssub", s, tInt(0), tInt(n))), gt: p}
				v.notes = append(v.notes, "a slice converted to an array pointer is a snapshot (not written through)")
				return v.alloc(st, a)
			}
		}
	}
	return v.convert(st, x, to)
}
