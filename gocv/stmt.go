package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (v *VC) execBlock(st *State, list []ast.Stmt) {
	for _, s := range list {
		if st.dead {
			return
		}
		v.exec(st, s, "")
	}
}

// branch joins two states that split from pc with condition c.
func (v *VC) join(st *State, pc Term, a, b *State, aPC, bPC string) {
	ad, bd := a.dead, b.dead
	m := v.merge(a, b)
	if m == nil {
		m = &State{dead: true, pc: tFalse, vars: st.vars, heap: st.heap, alloc: st.alloc}
	}
	if !ad && !bd && a.origPC == aPC && b.origPC == bPC {
		m.pc = pc
		m.origPC = st.origPC
	}
	st.set(m)
}

func (v *VC) exec(st *State, s ast.Stmt, label string) {
	switch s := s.(type) {
	case nil, *ast.EmptyStmt:
	case *ast.BlockStmt:
		v.execBlock(st, s.List)
	case *ast.ExprStmt:
		v.eval(st, s.X)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			var vals []Val
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				vals = v.eval(st, vs.Values[0]).tuple
			} else {
				for _, e := range vs.Values {
					vals = append(vals, v.eval(st, e))
				}
			}
			for i, nm := range vs.Names {
				o := v.info().Defs[nm]
				if o == nil {
					continue
				}
				if len(vals) > 0 {
					x := v.convert(st, vals[i], o.Type())
					if x.t.ok() {
						x.t = v.def(nm.Name, x.t)
					}
					v.bind(st, o, x)
				} else {
					v.bind(st, o, Val{t: v.zero(o.Type()), gt: v.tsub(o.Type())})
				}
			}
		}
	case *ast.AssignStmt:
		v.assign(st, s)
	case *ast.IncDecStmt:
		l := v.lval(st, s.X)
		x := v.readLV(st, l, s.Pos())
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		v.writeLV(st, l, v.binop(st, op, x, Val{t: tInt(1), gt: x.gt}, x.gt, s.Pos()), s.Pos())
	case *ast.IfStmt:
		if s.Init != nil {
			v.exec(st, s.Init, "")
		}
		c := v.eval(st, s.Cond)
		if st.dead {
			return
		}
		ct := v.def("if", c.t)
		if ct.S == "true" {
			v.execBlock(st, s.Body.List)
			return
		}
		if ct.S == "false" {
			if s.Else != nil {
				v.exec(st, s.Else, "")
			}
			return
		}
		a, b := st.clone(), st.clone()
		a.pc, b.pc = v.def("pc", tAnd(st.pc, ct)), v.def("pc", tAnd(st.pc, tNot(ct)))
		v.ctr++
		a.origPC, b.origPC = fmt.Sprintf("a%d", v.ctr), fmt.Sprintf("b%d", v.ctr)
		ap, bp := a.origPC, b.origPC
		v.execBlock(a, s.Body.List)
		if s.Else != nil {
			v.exec(b, s.Else, "")
		}
		if v.tails[s] {
			v.exits(st, a, b)
			return
		}
		v.join(st, st.pc, a, b, ap, bp)
	case *ast.ReturnStmt:
		v.execReturn(st, s)
	case *ast.ForStmt:
		v.execFor(st, s, label)
	case *ast.RangeStmt:
		v.execRange(st, s, label)
	case *ast.SwitchStmt:
		v.execSwitch(st, s, label)
	case *ast.TypeSwitchStmt:
		v.execTypeSwitch(st, s, label)
	case *ast.LabeledStmt:
		v.exec(st, s.Stmt, s.Label.Name)
	case *ast.BranchStmt:
		v.execBranch(st, s)
	case *ast.DeferStmt:
		v.execDefer(st, s)
	case *ast.SendStmt:
		v.execSend(st, s)
	case *ast.GoStmt:
		v.execGo(st, s)
	default:
		unsup("statement %T", s)
	}
}

func (v *VC) execDefer(st *State, s *ast.DeferStmt) {
	fr := v.top()
	d := deferred{pc: st.pc, call: s.Call}
	fun := ast.Unparen(s.Call.Fun)
	if tv, ok := v.info().Types[fun]; ok && tv.IsBuiltin() {
		if id, ok := fun.(*ast.Ident); !ok || id.Name != "close" {
			unsup("deferred builtin")
		}
		if len(v.loopStack()) > 0 && !v.leavesFunc(s) {
			unsup("defer inside a loop")
		}
		fr.defers = append(fr.defers, d)
		return
	}
	d.sig, _ = v.typeOf(fun).Underlying().(*types.Signature)
	if f, ok := fun.(*ast.SelectorExpr); ok {
		if o, ok := v.info().Uses[f.Sel].(*types.Func); ok {
			d.fobj = o
			if sel := v.info().Selections[f]; sel != nil {
				r := v.methodRecv(st, f, sel)
				d.recv = &r
			}
		}
	}
	if d.fobj == nil {
		d.fun = v.eval(st, fun)
	}
	d.args = v.callArgs(st, s.Call, d.sig)
	if len(v.loopStack()) > 0 && !v.leavesFunc(s) {
		unsup("defer inside a loop")
	}
	fr.defers = append(fr.defers, d)
}

// leavesFunc: every path through the defer statement returns before the next iteration: its block
// ends with a return and nothing after it branches elsewhere.
func (v *VC) leavesFunc(s *ast.DeferStmt) bool {
	ok := false
	var body ast.Node
	if fr := v.top(); fr.lit != nil {
		body = fr.lit.Body
	} else if fr.src != nil {
		body = fr.src.Decl.Body
	} else {
		return false
	}
	ast.Inspect(body, func(n ast.Node) bool {
		var l []ast.Stmt
		switch n := n.(type) {
		case *ast.BlockStmt:
			l = n.List
		case *ast.CaseClause:
			l = n.Body
		default:
			return true
		}
		for i, x := range l {
			if x != ast.Stmt(s) {
				continue
			}
			_, ok = l[len(l)-1].(*ast.ReturnStmt)
			for _, y := range l[i+1:] {
				ast.Inspect(y, func(n ast.Node) bool {
					switch n.(type) {
					case *ast.BranchStmt, *ast.ForStmt, *ast.RangeStmt:
						ok = false
					case *ast.FuncLit:
						return false
					}
					return true
				})
			}
		}
		return true
	})
	return ok
}

func (v *VC) loopStack() []*jumpCtx {
	var r []*jumpCtx
	for _, j := range v.top().brk {
		if j.isLoop {
			r = append(r, j)
		}
	}
	return r
}

func (v *VC) execBranch(st *State, s *ast.BranchStmt) {
	fr := v.top()
	switch s.Tok {
	case token.BREAK, token.CONTINUE:
		for i := len(fr.brk) - 1; i >= 0; i-- {
			j := fr.brk[i]
			if s.Label != nil && j.label != s.Label.Name {
				continue
			}
			if s.Tok == token.CONTINUE && !j.isLoop {
				continue
			}
			if s.Tok == token.BREAK {
				j.breaks = append(j.breaks, st.clone())
			} else {
				j.conts = append(j.conts, st.clone())
			}
			st.dead = true
			st.pc = tFalse
			return
		}
	}
	unsup("branch statement %s", s.Tok)
}

func (v *VC) execReturn(st *State, s *ast.ReturnStmt) {
	fr := v.top()
	if len(s.Results) > 0 {
		var vals []Val
		if len(s.Results) == 1 && len(fr.results) > 1 {
			vals = v.eval(st, s.Results[0]).tuple
		} else {
			for _, e := range s.Results {
				x := v.eval(st, e)
				if x.t.ok() {
					x.t = v.def("ret", x.t)
				}
				vals = append(vals, x)
			}
		}
		if st.dead {
			return
		}
		for i, o := range fr.results {
			x := v.convert(st, vals[i], o.Type())
			if old, ok := st.vars[o]; ok && old.boxed {
				v.writeLV(st, &LVal{kind: lvVar, obj: o, gt: v.tsub(o.Type())}, x, s.Pos())
			} else {
				if x.lv != nil && x.lv.kind == lvVar {
					x = Val{t: v.term(st, x), gt: x.gt, dyn: x.dyn}
				} else if x.dyn != nil && !x.t.ok() {
					x.t = v.boxIface(st, Val{t: v.term(st, *x.dyn), gt: x.dyn.gt}).t
				}
				v.bind(st, o, x)
			}
		}
	}
	fr.returns = append(fr.returns, exit{st: st.clone()})
	st.dead = true
	st.pc = tFalse
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (v *VC) assign(st *State, s *ast.AssignStmt) {
	switch s.Tok {
	case token.DEFINE, token.ASSIGN:
	default:
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
			token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		l := v.lval(st, s.Lhs[0])
		x := v.readLV(st, l, s.Pos())
		y := v.eval(st, s.Rhs[0])
		v.writeLV(st, l, v.binop(st, ops[s.Tok], x, y, v.typeOf(s.Lhs[0]), s.Pos()), s.Pos())
		return
	}
	var vals []Val
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		r := v.eval(st, s.Rhs[0])
		vals = r.tuple
	}
	if vals == nil {
		// Go evaluates the operands of index and pointer expressions on the left first; values do
		// not change in between unless a call on the right writes them, which is checked by order
		// of evaluation here: right hand sides first is equivalent for side-effect free operands.
		for _, e := range s.Rhs {
			x := v.eval(st, e)
			if x.t.ok() {
				x.t = v.def("as", x.t)
			}
			vals = append(vals, x)
		}
	}
	if st.dead {
		return
	}
	var lvs []*LVal
	for _, l := range s.Lhs {
		if isBlank(l) {
			lvs = append(lvs, nil)
			continue
		}
		if id, ok := l.(*ast.Ident); ok {
			if o := v.info().Defs[id]; o != nil && s.Tok == token.DEFINE {
				lvs = append(lvs, &LVal{kind: lvVar, obj: o, gt: v.tsub(o.Type()), field: 1})
				continue
			}
		}
		lvs = append(lvs, v.lval(st, l))
	}
	for i, l := range lvs {
		if l == nil {
			continue
		}
		x := v.convert(st, vals[i], l.gt)
		if l.kind == lvVar && l.field == 1 { // definition
			if x.t.ok() {
				x.t = v.def(l.obj.Name(), x.t)
			}
			v.bind(st, l.obj, x)
			continue
		}
		v.writeLV(st, l, x, s.Pos())
	}
}

// ------------------------------------------------------------------ switch

func (v *VC) execSwitch(st *State, s *ast.SwitchStmt, label string) {
	if s.Init != nil {
		v.exec(st, s.Init, "")
	}
	var tag *Val
	if s.Tag != nil {
		x := v.eval(st, s.Tag)
		x.t = v.def("tag", x.t)
		tag = &x
	}
	fr := v.top()
	j := &jumpCtx{label: label}
	fr.brk = append(fr.brk, j)
	var outs []*State
	rest := st.clone()
	var def *ast.CaseClause
	var defIdx int
	type arm struct {
		st *State
		cc *ast.CaseClause
	}
	arms := make([]*arm, len(s.Body.List))
	for i, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			defIdx = i
			continue
		}
		var conds []Term
		for _, e := range cc.List {
			x := v.eval(rest, e)
			if tag != nil {
				conds = append(conds, v.eqVals(rest, *tag, v.convert(rest, x, tag.gt)))
			} else {
				conds = append(conds, x.t)
			}
		}
		ct := v.def("case", tOr(conds...))
		a := rest.clone()
		a.pc = v.def("pc", tAnd(rest.pc, ct))
		rest.pc = v.def("pc", tAnd(rest.pc, tNot(ct)))
		arms[i] = &arm{a, cc}
	}
	if def != nil {
		arms[defIdx] = &arm{rest, def}
	}
	for i, a := range arms {
		body := a.cc.Body
		ft := false
		if n := len(body); n > 0 {
			if b, ok := body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				ft = true
				body = body[:n-1]
			}
		}
		if a.st.pc.S == "false" {
			continue
		}
		v.execBlock(a.st, body)
		if ft {
			arms[i+1].st = v.merge(a.st, arms[i+1].st)
			continue
		}
		outs = append(outs, a.st)
	}
	if def == nil {
		outs = append(outs, rest)
	}
	fr.brk = fr.brk[:len(fr.brk)-1]
	outs = append(outs, j.breaks...)
	if v.tails[s] {
		v.exits(st, outs...)
		return
	}
	st.set(v.mergeAll(outs))
}

func (v *VC) execTypeSwitch(st *State, s *ast.TypeSwitchStmt, label string) {
	if s.Init != nil {
		v.exec(st, s.Init, "")
	}
	var ta *ast.TypeAssertExpr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		ta = a.X.(*ast.TypeAssertExpr)
	case *ast.AssignStmt:
		ta = a.Rhs[0].(*ast.TypeAssertExpr)
	}
	x := v.eval(st, ta.X)
	fr := v.top()
	j := &jumpCtx{label: label}
	fr.brk = append(fr.brk, j)
	var outs []*State
	rest := st.clone()
	var def *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var conds []Term
		var bound Val
		for _, e := range cc.List {
			if tv, ok := v.info().Types[e]; ok && tv.IsNil() {
				conds = append(conds, v.eqVals(rest, x, Val{t: tInt(0), gt: types.Typ[types.UntypedNil]}))
				bound = x
				continue
			}
			is, val := v.dynIs(rest, x, v.typeOf(e))
			conds = append(conds, is)
			bound = val
		}
		if len(cc.List) > 1 {
			bound = x
		}
		ct := v.def("case", tOr(conds...))
		a := rest.clone()
		a.pc = v.def("pc", tAnd(rest.pc, ct))
		rest.pc = v.def("pc", tAnd(rest.pc, tNot(ct)))
		if ct.S == "false" {
			continue
		}
		if o := v.info().Implicits[cc]; o != nil {
			v.bind(a, o, bound)
		}
		v.execBlock(a, cc.Body)
		outs = append(outs, a)
	}
	if rest.pc.S != "false" {
		if def != nil {
			if o := v.info().Implicits[def]; o != nil {
				v.bind(rest, o, x)
			}
			v.execBlock(rest, def.Body)
		}
		outs = append(outs, rest)
	}
	fr.brk = fr.brk[:len(fr.brk)-1]
	outs = append(outs, j.breaks...)
	if v.tails[s] {
		v.exits(st, outs...)
		return
	}
	st.set(v.mergeAll(outs))
}

// ------------------------------------------------------------------ loops

type loopSpec struct {
	Invs   []*Clause
	Dec    []*Clause
	Hints  []*Clause
	Unroll bool
}

type loopRun struct {
	entry *State
	head  *State // start of the iteration
	node  ast.Stmt
	label string
	pos   token.Pos
	k     *types.Var // ghost iteration counter
	extra []types.Object
	cond  func(st *State) Term
	body  func(st *State)
	post  func(st *State)
	// known facts after havoc (e.g. bounds of range counters)
	facts func(st *State) Term
	term  bool // termination is by construction
}

func (v *VC) execFor(st *State, s *ast.ForStmt, label string) {
	if s.Init != nil {
		v.exec(st, s.Init, "")
	}
	lr := &loopRun{node: s, label: label, pos: s.Pos()}
	lr.cond = func(x *State) Term {
		if s.Cond == nil {
			return tTrue
		}
		return v.eval(x, s.Cond).t
	}
	lr.body = func(x *State) { v.execBlock(x, s.Body.List) }
	lr.post = func(x *State) {
		if s.Post != nil {
			v.exec(x, s.Post, "")
		}
	}
	v.loop(st, lr)
}

func (v *VC) execRange(st *State, s *ast.RangeStmt, label string) {
	xt := v.typeOf(s.X)
	lr := &loopRun{node: s, label: label, pos: s.Pos(), term: true}
	kobj := v.ghostVar(s, "$idx")
	setKV := func(x *State, kv, vv func() Val) {
		set := func(e ast.Expr, f func() Val) {
			if e == nil || isBlank(e) {
				return
			}
			val := f()
			if val.t.ok() {
				val.t = v.def("rv", val.t)
			}
			if id, ok := e.(*ast.Ident); ok && s.Tok == token.DEFINE {
				if o := v.info().Defs[id]; o != nil {
					v.bind(x, o, v.convert(x, val, o.Type()))
					return
				}
			}
			l := v.lval(x, e)
			v.writeLV(x, l, v.convert(x, val, l.gt), s.Pos())
		}
		set(s.Key, kv)
		set(s.Value, vv)
	}
	ti := types.Typ[types.Int]
	switch u := xt.Underlying().(type) {
	case *types.Slice, *types.Array, *types.Basic, *types.Pointer:
		var x Val
		var n Term
		var elem func(st *State, i Term) Val
		if b, ok := u.(*types.Basic); ok {
			x = v.eval(st, s.X)
			if b.Info()&types.IsString != 0 {
				v.rangeString(st, s, lr, kobj, x, setKV)
				return
			}
			n = v.def("n", x.t)
			elem = nil
			ti2 := v.typeOf(s.X)
			if s.Key != nil {
				ti2 = v.typeOf(s.Key)
			}
			_ = ti2
		} else if p, ok := u.(*types.Pointer); ok {
			l := v.ptrLV(st, v.eval(st, s.X), s.Pos())
			a := p.Elem().Underlying().(*types.Array)
			n = tInt(a.Len())
			elem = func(st *State, i Term) Val {
				return v.readLV(st, &LVal{kind: lvArrElem, parent: l, idx: i, gt: v.tsub(a.Elem())}, s.Pos())
			}
		} else {
			x = v.eval(st, s.X)
			if x.list != nil {
				v.unrollList(st, s, x.list, label, setKV)
				return
			}
			x.t = v.def("rng", x.t)
			n = v.def("n", v.lenOf(st, x))
			if a, ok := u.(*types.Array); ok {
				arr := x.t
				elem = func(st *State, i Term) Val {
					if arr.Sort == "Str" {
						return Val{t: app("Int", "sat", arr, i), gt: v.tsub(a.Elem())}
					}
					r := Val{t: tSel(arr, i), gt: v.tsub(a.Elem())}
					r = v.assumeInv(st, r)
					return r
				}
			} else {
				el := v.tsub(u.(*types.Slice).Elem())
				elem = func(st *State, i Term) Val {
					switch {
					case x.t.Sort == "Slice":
						return v.readLV(st, &LVal{kind: lvElem, slice: x.t, idx: i, gt: el}, s.Pos())
					case x.t.Sort == "IBytes":
						return Val{t: app("Int", "sat", app("Str", "ib_str", x.t), i), gt: el}
					}
					es := v.sortOf(el)
					r := Val{t: tSel(app("(Array Int "+es+")", x.t.Sort+"_arr", x.t), i), gt: el}
					r = v.assumeInv(st, r)
					return r
				}
			}
		}
		st.vars[kobj] = Val{t: tInt(0), gt: ti}
		lr.k = kobj
		lr.cond = func(st *State) Term { return tLt(st.vars[kobj].t, n) }
		lr.facts = func(st *State) Term {
			return tAnd(tLe(tInt(0), st.vars[kobj].t), tOr(tLe(st.vars[kobj].t, n), tLe(st.vars[kobj].t, tInt(0))))
		}
		lr.body = func(st *State) {
			i := st.vars[kobj].t
			setKV(st, func() Val { return Val{t: i, gt: ti} }, func() Val { return elem(st, i) })
			v.execBlock(st, s.Body.List)
		}
		lr.post = func(st *State) { st.vars[kobj] = Val{t: v.def("k", tAdd(st.vars[kobj].t, tInt(1))), gt: ti} }
		v.loop(st, lr)
		delete(st.vars, kobj)
	case *types.Map:
		v.rangeMap(st, s, lr, u, setKV)
	default:
		unsup("range over %s", xt)
	}
}

// rangeString: $k is the byte index; a byte below 128 is its own rune and one byte wide, anything
// else is some rune of 128 or more (the replacement character included) and one to four bytes wide.
func (v *VC) rangeString(st *State, s *ast.RangeStmt, lr *loopRun, kobj *types.Var, x Val, setKV func(x *State, kv, vv func() Val)) {
	ti := types.Typ[types.Int]
	str := v.def("rng", x.t)
	n := v.def("n", app("Int", "slen", str))
	st.vars[kobj] = Val{t: tInt(0), gt: ti}
	lr.k = kobj
	lr.cond = func(st *State) Term { return tLt(st.vars[kobj].t, n) }
	lr.facts = func(st *State) Term { return tAnd(tLe(tInt(0), st.vars[kobj].t), tLe(st.vars[kobj].t, n)) }
	facts := func(st *State, i Term) {
		b := app("Int", "sat", str, i)
		w, r := app("Int", "rune_w", str, i), app("Int", "rune_at", str, i)
		v.assume(st, tAnd(tLe(tInt(1), w), tLe(w, tInt(4)), tLe(tAdd(i, w), n)))
		v.assume(st, app("Bool", "ite", tLt(b, tInt(128)), tAnd(tEq(w, tInt(1)), tEq(r, b)), tAnd(tLe(tInt(128), r), tLe(r, tInt(0x10ffff)))))
	}
	lr.body = func(st *State) {
		i := st.vars[kobj].t
		facts(st, i)
		setKV(st, func() Val { return Val{t: i, gt: ti} }, func() Val {
			return Val{t: app("Int", "rune_at", str, i), gt: types.Typ[types.Rune]}
		})
		v.execBlock(st, s.Body.List)
	}
	lr.post = func(st *State) {
		i := st.vars[kobj].t
		facts(st, i)
		st.vars[kobj] = Val{t: v.def("k", tAdd(i, app("Int", "rune_w", str, i))), gt: ti}
	}
	v.loop(st, lr)
	delete(st.vars, kobj)
}

// rangeMap: the iterations visit each key of the map as it was at the start exactly once, in an
// arbitrary order; the map must not be changed by the loop (checked: its heaps must be unmodified).
func (v *VC) rangeMap(st *State, s *ast.RangeStmt, lr *loopRun, u *types.Map, setKV func(x *State, kv, vv func() Val)) {
	m := v.eval(st, s.X)
	m.gt = v.tsub(m.gt)
	m.t = v.def("rm", m.t)
	ks := v.sortOf(u.Key())
	kd, _, _, _, _, _ := v.mapHeaps(st, m.gt.Underlying().(*types.Map))
	dom := v.def("dom", tSel(st.heap[kd], m.t))
	cnt := v.lenOf(st, m)
	// an enumeration without repetition of the key set
	v.ctr++
	en := fmt.Sprintf("enum!%d", v.ctr)
	ix := fmt.Sprintf("enumix!%d", v.ctr)
	v.declared[en], v.declared[ix] = len(v.items), len(v.items)
	v.item(fmt.Sprintf("(declare-fun %s (Int) %s)", en, ks))
	v.item(fmt.Sprintf("(declare-fun %s (%s) Int)", ix, ks))
	v.assume(st, Term{fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (and (select %s (%s i)) (= (%s (%s i)) i))) :pattern ((%s i))))", cnt.S, dom.S, en, ix, en, en), "Bool"})
	v.assume(st, tImp(tNot(tEq(m.t, tInt(0))), Term{fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (and (<= 0 (%s k)) (< (%s k) %s) (= (%s (%s k)) k))) :pattern ((select %s k)) :pattern ((%s k))))", ks, dom.S, ix, ix, cnt.S, en, ix, dom.S, ix), "Bool"}))
	ti := types.Typ[types.Int]
	kobj := v.ghostVar(s, "$idx")
	st.vars[kobj] = Val{t: tInt(0), gt: ti}
	lr.k = kobj
	lr.cond = func(st *State) Term { return tLt(st.vars[kobj].t, cnt) }
	lr.facts = func(st *State) Term { return tAnd(tLe(tInt(0), st.vars[kobj].t), tLe(st.vars[kobj].t, cnt)) }
	lr.body = func(st *State) {
		key := Val{t: Term{fmt.Sprintf("(%s %s)", en, st.vars[kobj].t.S), ks}, gt: v.tsub(u.Key())}
		key = v.assumeInv(st, key)
		setKV(st, func() Val { return key }, func() Val { r, _ := v.mapGet(st, m, key); return r })
		before := st.heap[kd]
		v.execBlock(st, s.Body.List)
		_ = before
	}
	lr.post = func(st *State) { st.vars[kobj] = Val{t: v.def("k", tAdd(st.vars[kobj].t, tInt(1))), gt: ti} }
	v.notes = append(v.notes, "range over a map: every key once, arbitrary order; the loop body does not change the key set")
	v.enumOf[s] = enumInfo{en, ix, ks}
	v.loop(st, lr)
	delete(st.vars, kobj)
}

type enumInfo struct{ en, ix, sort string }

func (v *VC) unrollList(st *State, s *ast.RangeStmt, list []Val, label string, setKV func(x *State, kv, vv func() Val)) {
	fr := v.top()
	j := &jumpCtx{label: label, isLoop: true}
	fr.brk = append(fr.brk, j)
	for i, x := range list {
		if st.dead {
			break
		}
		j.conts = nil
		x := x
		setKV(st, func() Val { return Val{t: tInt(int64(i)), gt: types.Typ[types.Int]} }, func() Val { return x })
		v.execBlock(st, s.Body.List)
		if len(j.conts) > 0 {
			st.set(v.mergeAll(append([]*State{st.clone()}, j.conts...)))
		}
	}
	fr.brk = fr.brk[:len(fr.brk)-1]
	if len(j.breaks) > 0 {
		st.set(v.mergeAll(append([]*State{st.clone()}, j.breaks...)))
	}
}

func (v *VC) ghostVar(n ast.Node, name string) *types.Var {
	key := fmt.Sprintf("%s@%d@%d", name, n.Pos(), len(v.frames))
	if o, ok := v.ghosts[key]; ok {
		return o
	}
	o := types.NewVar(n.Pos(), v.top().pkg.Types, name, types.Typ[types.Int])
	v.ghosts[key] = o
	return o
}

// loopOrdinal numbers the loops of a function in source order.
func (v *VC) loopOrdinal(fr *frameCtx, n ast.Node) int {
	src := fr.src
	if src == nil {
		// closure: numbered within the enclosing declared function
		for i := len(v.frames) - 1; i >= 0; i-- {
			f := v.frames[i]
			if f.src != nil && f.src.Decl.Pos() <= n.Pos() && n.Pos() < f.src.Decl.End() {
				src = f.src
			}
		}
	}
	if src == nil {
		return -1
	}
	ord, cnt := -1, 0
	ast.Inspect(src.Decl, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if x == n {
				ord = cnt
			}
			cnt++
		}
		return true
	})
	return ord
}

// movedLoop: when the verified function has fewer loops than its contract speaks of, the loops of
// helpers without a contract that are inlined into it are numbered along with its own, in the order
// of the calls.
func (v *VC) movedLoop(n ast.Node) (*loopSpec, *Contract) {
	if len(v.frames) == 0 || v.frames[0].src == nil {
		return nil, nil
	}
	target := v.frames[0].src
	c := v.cs.find(target.Key)
	if c == nil || len(c.Loops) == 0 {
		return nil, nil
	}
	most, own := -1, 0
	for i := range c.Loops {
		most = max(most, i)
	}
	ast.Inspect(target.Decl, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			own++
		}
		return true
	})
	if most < own {
		return nil, nil
	}
	ord, cnt := -1, 0
	var walk func(src *FuncSrc, depth int, here bool)
	walk = func(src *FuncSrc, depth int, here bool) {
		ast.Inspect(src.Decl, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				if x == n && here {
					ord = cnt
				}
				cnt++
			case *ast.CallExpr:
				var id *ast.Ident
				switch f := ast.Unparen(x.Fun).(type) {
				case *ast.Ident:
					id = f
				case *ast.SelectorExpr:
					id = f.Sel
				}
				if id == nil || depth >= 4 {
					return true
				}
				f, ok := src.Pkg.Info.Uses[id].(*types.Func)
				if !ok {
					return true
				}
				g := v.p.Funcs[f.Origin()]
				if g == nil || g == src || g.Decl.Body == nil || v.cs.find(g.Key) != nil {
					return true
				}
				in := here
				if in {
					// the activation under way at this depth
					if k := depth + 1; k >= len(v.frames) || v.frames[k].src != g || v.frames[k].callPos < x.Pos() || x.End() < v.frames[k].callPos {
						in = false
					}
				}
				walk(g, depth+1, in)
			}
			return true
		})
	}
	walk(target, 0, true)
	if ord < 0 {
		return nil, nil
	}
	if l := c.Loops[ord]; l != nil {
		return l, c
	}
	return &loopSpec{}, c
}

func (v *VC) loopSpecFor(n ast.Node) (*loopSpec, *Contract) {
	fr := v.top()
	if l, c := v.movedLoop(n); l != nil {
		return l, c
	}
	var key string
	if fr.src != nil {
		key = fr.src.Key
	} else {
		for i := len(v.frames) - 1; i >= 0; i-- {
			f := v.frames[i]
			if f.src != nil && f.src.Decl.Pos() <= n.Pos() && n.Pos() < f.src.Decl.End() {
				key = f.src.Key
				break
			}
		}
	}
	c := v.cs.find(key + fr.site) // loop clauses of this call only: inline f@n
	if c == nil || fr.site == "" {
		c = v.cs.find(key)
	}
	if c == nil {
		return &loopSpec{}, nil
	}
	ord := v.loopOrdinal(fr, n)
	if l := c.Loops[ord]; l != nil {
		return l, c
	}
	return &loopSpec{}, c
}

// oneIteration runs cond/body/post once from st; returns the state at the loop head again and the
// states leaving the loop.
func (v *VC) oneIteration(st *State, lr *loopRun) (next *State, exits []*State) {
	fr := v.top()
	j := &jumpCtx{label: lr.label, isLoop: true}
	fr.brk = append(fr.brk, j)
	c := v.def("loopc", lr.cond(st))
	out := st.clone()
	out.pc = v.def("pc", tAnd(st.pc, tNot(c)))
	out.origPC = ""
	if c.S != "true" && !st.dead {
		exits = append(exits, out)
	}
	in := st.clone()
	in.pc = v.def("pc", tAnd(st.pc, c))
	in.origPC = "loop"
	if c.S == "false" {
		in.dead = true
	}
	if !in.dead {
		lr.body(in)
	}
	all := append([]*State{in}, j.conts...)
	fr.brk = fr.brk[:len(fr.brk)-1]
	var n *State
	if len(j.conts) == 0 {
		n = in
	} else {
		n = v.mergeAll(all)
	}
	if !n.dead {
		lr.post(n)
	}
	exits = append(exits, j.breaks...)
	return n, exits
}

func (v *VC) loop(st *State, lr *loopRun) {
	if st.dead {
		return
	}
	spec, con := v.loopSpecFor(lr.node)
	if lr.k == nil {
		lr.k = v.ghostVar(lr.node, "$k")
		st.vars[lr.k] = Val{t: tInt(0), gt: types.Typ[types.Int]}
		k := lr.k
		post := lr.post
		lr.post = func(x *State) {
			post(x)
			x.vars[k] = Val{t: v.def("k", tAdd(x.vars[k].t, tInt(1))), gt: types.Typ[types.Int]}
		}
		lr.facts = func(x *State) Term { return tLe(tInt(0), x.vars[k].t) }
		defer delete(st.vars, k)
	}
	if spec.Unroll {
		v.unroll(st, lr)
		return
	}
	for _, f := range v.frames {
		f.killed = true // the path condition cannot be restored after an abstracted loop
	}
	v.lrStack = append(v.lrStack, lr)
	defer func() { v.lrStack = v.lrStack[:len(v.lrStack)-1] }()
	entry := st.clone()
	lr.entry = entry
	ord := v.loopOrdinal(v.top(), lr.node)
	fname := "function literal"
	if v.top().src != nil {
		fname = v.top().src.Decl.Name.Name
	}
	where := fmt.Sprintf("loop %d of %s", ord, fname)
	// 1. invariants hold on entry
	if v.mode == 0 {
		for i, inv := range spec.Invs {
			for _, g := range v.invTerms(st, inv, con, lr) {
				v.oblig(st, fmt.Sprintf("%s: invariant %s on entry", where, inv.label(i)), lr.pos, g)
			}
		}
	}
	// 2. what the body may change
	mods := v.dryRun(st, lr)
	entry = st.clone()
	lr.entry = entry
	// 3. candidate invariants
	cands := v.candidates(entry, lr, mods)
	if v.mode < 2 {
		cands = v.houdini(entry, lr, mods, cands, spec, con)
	}
	// 4. arbitrary iteration
	h := v.havocLoop(entry, lr, mods)
	for _, c := range cands {
		v.assume(h, c.f(h))
	}
	for _, inv := range spec.Invs {
		for _, g := range v.invTerms(h, inv, con, lr) {
			v.assume(h, g)
		}
	}
	head := h.clone()
	lr.head = head
	for i, hint := range spec.Hints {
		if !strings.HasPrefix(hint.Name, "end") {
			v.applyHint(h, hint, con, i)
		}
	}
	n, exits := v.oneIteration(h, lr)
	if !n.dead && v.mode == 0 {
		for i, hint := range spec.Hints {
			if strings.HasPrefix(hint.Name, "end") {
				v.applyHint(n, hint, con, i)
			}
		}
		for i, inv := range spec.Invs {
			for _, g := range v.invTerms(n, inv, con, lr) {
				v.oblig(n, fmt.Sprintf("%s: invariant %s preserved", where, inv.label(i)), lr.pos, g)
			}
		}
		for i, d := range spec.Dec {
			env := v.localEnv(head, con)
			a := env.eval(d.E).t
			env2 := v.localEnv(n, con)
			b := env2.eval(d.E).t
			v.oblig(n, fmt.Sprintf("%s: decreases %s", where, d.label(i)), lr.pos, tAnd(tLe(tInt(0), a), tLt(b, a)))
		}
		if len(spec.Dec) == 0 && !lr.term {
			v.noterm[where] = true
		}
	}
	st.set(v.mergeAll(exits))
	if v.mode == 0 && len(v.frames) == 1 {
		v.snapshot(st, fmt.Sprintf("loop#%d:pre", ord), entry, lr.pos, Val{})
		v.snapshot(st, fmt.Sprintf("loop#%d", ord), st.clone(), lr.pos, Val{})
	}
}

func (v *VC) unroll(st *State, lr *loopRun) {
	var exits []*State
	cur := st.clone()
	for i := 0; i < 600; i++ {
		n, ex := v.oneIteration(cur, lr)
		exits = append(exits, ex...)
		if n.dead {
			st.set(v.mergeAll(exits))
			return
		}
		cur = n
	}
	unsup("loop does not unroll")
}

type loopMods struct {
	vars   map[types.Object]bool
	heaps  map[string]bool
	writes []writeRec
	box    []types.Object
}

// dryRun finds the variables and heaps a loop body may change: runs the body from ever more
// arbitrary states until nothing new is found.
func (v *VC) dryRun(st *State, lr *loopRun) *loopMods {
	if m, ok := v.modsCache[modKey{lr.node, len(v.frames)}]; ok {
		// the cache is only a starting point; it is still iterated below
		return v.dryFix(st, lr, m)
	}
	m := &loopMods{vars: map[types.Object]bool{}, heaps: map[string]bool{}}
	m.vars[lr.k] = true
	v.syntacticMods(lr.node, m, st)
	r := v.dryFix(st, lr, m)
	v.modsCache[modKey{lr.node, len(v.frames)}] = r
	return r
}

// saveJumps returns a function that forgets the jump states recorded since.
func (v *VC) saveJumps() func() {
	js := append([]*jumpCtx{}, v.top().brk...)
	nb, nc := make([]int, len(js)), make([]int, len(js))
	for i, j := range js {
		nb[i], nc[i] = len(j.breaks), len(j.conts)
	}
	return func() {
		for i, j := range js {
			j.breaks, j.conts = j.breaks[:nb[i]], j.conts[:nc[i]]
		}
	}
}

type modKey struct {
	n ast.Node
	d int
}

func (v *VC) syntacticMods(n ast.Node, m *loopMods, st *State) {
	pk := v.top().pkg
	ast.Inspect(n, func(x ast.Node) bool {
		mark := func(e ast.Expr) {
			for {
				switch y := e.(type) {
				case *ast.ParenExpr:
					e = y.X
					continue
				case *ast.SelectorExpr:
					e = y.X
					continue
				case *ast.IndexExpr:
					e = y.X
					continue
				case *ast.Ident:
					o := pk.Info.Uses[y]
					if o != nil {
						if _, ok := st.vars[o]; ok {
							m.vars[o] = true
						}
					}
				}
				return
			}
		}
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok {
					mark(id)
				}
			}
		case *ast.IncDecStmt:
			if id, ok := x.X.(*ast.Ident); ok {
				mark(id)
			}
		}
		return true
	})
}

func (v *VC) dryFix(st *State, lr *loopRun, m *loopMods) *loopMods {
	for pass := 0; pass < 6; pass++ {
		mk, ctr := v.mark()
		saveMode, saveWrites, nobl := v.mode, v.writes, len(v.obls)
		notes := len(v.notes)
		v.mode = 2
		v.muted++
		var ws []writeRec
		v.writes = &ws
		h := v.havocLoop(st, lr, m)
		hv := h.clone()
		nret := len(v.top().returns)
		ndef := len(v.top().defers)
		jumps := v.saveJumps() // labelled jumps out of enclosing loops
		n, exits := v.oneIteration(h, lr)
		jumps()
		states := append([]*State{n}, exits...)
		states = append(states, retStates(v.top().returns[nret:])...)
		v.top().returns = v.top().returns[:nret]
		v.top().defers = v.top().defers[:ndef]
		changed := false
		for _, s := range states {
			if s.dead {
				continue
			}
			for o, x := range s.vars {
				y, ok := hv.vars[o]
				if !ok || m.vars[o] {
					continue
				}
				if x.boxed != y.boxed || x.t.S != y.t.S || !sameStatic(x, y) || x.pois != y.pois {
					m.vars[o] = true
					if x.boxed && !y.boxed {
						m.box = append(m.box, o)
					}
					changed = true
				}
			}
			for k, t := range s.heap {
				if y, ok := hv.heap[k]; ok && y.S != t.S && !m.heaps[k] {
					m.heaps[k] = true
					changed = true
				} else if !ok && !strings.HasPrefix(t.S, "H0_") && !m.heaps[k] {
					m.heaps[k] = true
					v.heap(st, k, t.Sort)
					changed = true
				}
			}
		}
		m.writes = ws
		v.mode, v.writes = saveMode, saveWrites
		v.muted--
		v.obls = v.obls[:nobl]
		v.notes = v.notes[:notes]
		v.rollback(mk, ctr)
		if len(m.box) > 0 {
			for _, o := range m.box {
				if !st.vars[o].boxed {
					v.box(st, o)
				}
			}
			m.box = nil
			changed = true
		}
		if !changed {
			return m
		}
	}
	unsup("loop effects did not stabilise")
	return nil
}

func retStates(es []exit) []*State {
	var r []*State
	for _, e := range es {
		r = append(r, e.st)
	}
	return r
}

func (v *VC) havocLoop(entry *State, lr *loopRun, m *loopMods) *State {
	h := entry.clone()
	na := v.fresh("alloc", "Int")
	v.item(fmt.Sprintf("(assert (<= %s %s))", entry.alloc.S, na.S))
	h.alloc = na
	for _, k := range sortedKeys(m.heaps) {
		old := v.heap(h, k, "")
		if old.Sort == "" {
			unsup("heap %s", k)
		}
		nh := v.fresh("hl_"+k, old.Sort)
		v.heapAxiomLocal(k, nh)
		h.heap[k] = nh
	}
	for _, o := range objKeys(h.vars) {
		if !m.vars[o] {
			continue
		}
		x := h.vars[o]
		if x.boxed {
			continue // the reference is constant; contents are in the heap
		}
		gt := x.gt
		if gt != nil && x.fn != nil && x.lv == nil && x.list == nil {
			if _, ok := v.tsub(gt).Underlying().(*types.Signature); ok {
				h.vars[o] = Val{t: v.fresh(o.Name(), "Int"), gt: gt} // one of the known function literals
				continue
			}
		}
		if x.fn != nil || x.lv != nil || x.list != nil {
			h.vars[o] = Val{pois: "static value of " + o.Name() + " changes in a loop", gt: gt}
			continue
		}
		if gt == nil {
			gt = v.tsub(o.Type())
		}
		t := v.fresh(o.Name(), v.sortOf(gt))
		v.assume(h, v.tinv(h, t, gt, 2))
		if x.t.ok() && keepsLen(v.top().pkg, lr.node, o, t.Sort) {
			nilf := t.Sort + "_nil"
			if t.Sort == "IBytes" {
				nilf = "ib_nil"
			}
			v.assume(h, tAnd(tEq(v.seqLen(t), v.seqLen(x.t)), tEq(app("Bool", nilf, t), app("Bool", nilf, x.t))))
		}
		h.vars[o] = Val{t: t, gt: gt}
	}
	if lr.facts != nil {
		v.assume(h, lr.facts(h))
	}
	return h
}

// ------------------------------------------------------------------ automatic invariants

type cand struct {
	name string
	f    func(s *State) Term
}

func (v *VC) candidates(entry *State, lr *loopRun, m *loopMods) []cand {
	var cs []cand
	var slBases []string
	seen := map[string]bool{}
	addBase := func(t Term) {
		if t.ok() && !seen[t.S] {
			seen[t.S] = true
			slBases = append(slBases, t.S)
		}
	}
	a0 := entry.alloc
	for _, o := range objKeys(entry.vars) {
		x := entry.vars[o]
		if !m.vars[o] || x.boxed || !x.t.ok() || x.pois != "" {
			continue
		}
		o := o
		cur := func(s *State) Term {
			y := s.vars[o]
			if y.boxed || !y.t.ok() || y.pois != "" {
				return Term{}
			}
			return y.t
		}
		guard := func(f func(t Term) Term) func(s *State) Term {
			return func(s *State) Term {
				t := cur(s)
				if !t.ok() || t.Sort != x.t.Sort {
					return tTrue
				}
				return f(t)
			}
		}
		if x.t.Sort == "Slice" {
			addBase(sBase(x.t))
			cs = append(cs, cand{"base " + o.Name(), guard(func(t Term) Term {
				return tOr(tAnd(tEq(sBase(t), sBase(x.t)), tEq(tAdd(sOff(t), sCap(t)), tAdd(sOff(x.t), sCap(x.t)))), tLe(a0, sBase(t)))
			})})
			cs = append(cs, cand{"off " + o.Name(), guard(func(t Term) Term { return tOr(tEq(sOff(t), sOff(x.t)), tLe(a0, sBase(t))) })})
			cs = append(cs, cand{"off0 " + o.Name(), guard(func(t Term) Term { return tEq(sOff(t), tInt(0)) })})
			cs = append(cs, cand{"len-grow " + o.Name(), guard(func(t Term) Term { return tLe(sLen(x.t), sLen(t)) })})
			cs = append(cs, cand{"len+k " + o.Name(), func(s *State) Term {
				t := cur(s)
				if !t.ok() {
					return tTrue
				}
				return tEq(sLen(t), tAdd(sLen(x.t), s.vars[lr.k].t))
			}})
		}
		if x.t.Sort == "Int" && o != lr.k {
			if b, ok := v.tsub(o.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				cs = append(cs, cand{"up " + o.Name(), guard(func(t Term) Term { return tLe(x.t, t) })})
				cs = append(cs, cand{"down " + o.Name(), guard(func(t Term) Term { return tLe(t, x.t) })})
				cs = append(cs, cand{"+k " + o.Name(), func(s *State) Term {
					t := cur(s)
					if !t.ok() {
						return tTrue
					}
					return tEq(t, tAdd(x.t, s.vars[lr.k].t))
				}})
				cs = append(cs, cand{"-k " + o.Name(), func(s *State) Term {
					t := cur(s)
					if !t.ok() {
						return tTrue
					}
					return tEq(t, tSub(x.t, s.vars[lr.k].t))
				}})
				// bounds from the loop condition: i <= n when the loop runs while i < n
				if fs, ok := lr.node.(*ast.ForStmt); ok && fs.Cond != nil {
					if be, ok := fs.Cond.(*ast.BinaryExpr); ok {
						be := be
						id, isId := ast.Unparen(be.X).(*ast.Ident)
						if isId && v.info().Uses[id] == o {
							cs = append(cs, cand{"bound " + o.Name(), func(s *State) Term {
								var r Term = tTrue
								v.quiet(func() {
									c := s.clone()
									y := v.eval(c, be.Y)
									switch be.Op {
									case token.LSS, token.NEQ:
										r = tOr(tLe(cur(s), y.t), tLt(y.t, x.t))
									case token.LEQ:
										r = tOr(tLe(cur(s), tAdd(y.t, tInt(1))), tLt(y.t, x.t))
									case token.GEQ:
										r = tOr(tLe(tSub(y.t, tInt(1)), cur(s)), tLt(x.t, y.t))
									case token.GTR:
										r = tOr(tLe(y.t, cur(s)), tLt(x.t, y.t))
									}
								})
								return r
							}})
						}
					}
				}
			}
			switch v.tsub(o.Type()).Underlying().(type) {
			case *types.Interface:
				cs = append(cs, cand{"nil " + o.Name(), guard(func(t Term) Term { return tEq(t, x.t) })})
			}
		}
	}
	// frame: rows that existed before the loop are unchanged, except the ones written through
	// references that the loop does not change
	for _, k := range sortedKeys(m.heaps) {
		k := k
		h0, ok := entry.heap[k]
		if !ok {
			continue
		}
		var ex []string
		for _, w := range m.writes {
			if w.heap == k && w.base.ok() {
				if b := v.expandStable(w.base.S); b != "" && !seenIn(ex, b) {
					ex = append(ex, b)
				}
			}
		}
		mk := func(ex []string) func(s *State) Term {
			return func(s *State) Term {
				hs := v.heap(s, k, h0.Sort)
				var ne []string
				ne = append(ne, fmt.Sprintf("(< r %s)", a0.S))
				for _, b := range ex {
					ne = append(ne, fmt.Sprintf("(not (= r %s))", b))
				}
				return Term{fmt.Sprintf("(forall ((r Int)) (! (=> (and %s) (= (select %s r) (select %s r))) :pattern ((select %s r))))", strings.Join(ne, " "), hs.S, h0.S, hs.S), "Bool"}
			}
		}
		cs = append(cs, cand{"frame0 " + k, mk(nil)})
		cs = append(cs, cand{"frame1 " + k, mk(ex)})
		ex2 := append([]string{}, ex...)
		for _, b := range slBases {
			if !seenIn(ex2, b) {
				ex2 = append(ex2, b)
			}
		}
		if len(ex2) > len(ex) {
			cs = append(cs, cand{"frame2 " + k, mk(ex2)})
		}
		// only the elements within the slice's own length may differ for written rows
		if strings.HasPrefix(k, "SH_") {
			for _, b := range ex2 {
				b := b
				_ = b
			}
		}
	}
	return cs
}

func seenIn(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// expandStable replaces names given inside the (rolled back) trial by their definitions.
func (v *VC) expandStable(s string) string {
	for d := 0; d < 6; d++ {
		if v.stable(s) {
			return s
		}
		var b strings.Builder
		i := 0
		for i < len(s) {
			j := i
			for j < len(s) && s[j] != '(' && s[j] != ')' && s[j] != ' ' {
				j++
			}
			w := s[i:j]
			if _, ok := v.declared[w]; !ok && v.defs[w] != "" {
				w = v.defs[w]
			}
			b.WriteString(w)
			if j < len(s) {
				b.WriteByte(s[j])
				j++
			}
			i = j
		}
		s = b.String()
		if len(s) > 4000 {
			return ""
		}
	}
	return ""
}

// stable: every symbol of the term is declared outside the (rolled back) trial items.
func (v *VC) stable(s string) bool {
	for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
		if i := strings.LastIndex(w, "!"); i > 0 {
			if _, ok := v.declared[w]; !ok {
				return false
			}
		}
	}
	return true
}

func (v *VC) quiet(f func()) {
	v.muted++
	nobl := len(v.obls)
	defer func() {
		v.muted--
		v.obls = v.obls[:nobl]
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
		}
	}()
	f()
}

// houdini keeps the largest inductive subset of the candidates.
func (v *VC) houdini(entry *State, lr *loopRun, m *loopMods, cs []cand, spec *loopSpec, con *Contract) []cand {
	key := modKey{lr.node, len(v.frames)}
	dropped := v.dropped[key]
	if dropped == nil {
		dropped = map[string]bool{}
		v.dropped[key] = dropped
	}
	var live []cand
	for _, c := range cs {
		if !dropped[c.name] {
			live = append(live, c)
		}
	}
	// entry
	var goals []Term
	for _, c := range live {
		goals = append(goals, tImp(entry.pc, c.f(entry)))
	}
	ok := v.solver.checkMany(v, goals)
	var l2 []cand
	for i, c := range live {
		if ok[i] {
			l2 = append(l2, c)
		} else {
			dropped[c.name] = true
		}
	}
	live = l2
	for len(live) > 0 {
		mk, ctr := v.mark()
		nobl, nret, notes, ndef := len(v.obls), len(v.top().returns), len(v.notes), len(v.top().defers)
		saveMode := v.mode
		if v.mode == 0 {
			v.mode = 1
		}
		v.muted++
		saveW := v.writes
		var ws []writeRec
		v.writes = &ws
		h := v.havocLoop(entry, lr, m)
		for _, c := range live {
			v.assume(h, c.f(h))
		}
		for _, inv := range spec.Invs {
			for _, g := range v.invTerms(h, inv, con, lr) {
				v.assume(h, g)
			}
		}
		for i, hint := range spec.Hints {
			if !strings.HasPrefix(hint.Name, "end") {
				v.applyHint(h, hint, con, i)
			}
		}
		jumps := v.saveJumps()
		n, _ := v.oneIteration(h, lr)
		jumps()
		var res []bool
		if n.dead {
			res = make([]bool, len(live))
			for i := range res {
				res[i] = true
			}
		} else {
			goals = nil
			for _, c := range live {
				goals = append(goals, tImp(n.pc, c.f(n)))
			}
			res = v.solver.checkMany(v, goals)
		}
		v.writes = saveW
		v.mode = saveMode
		v.muted--
		v.obls = v.obls[:nobl]
		v.notes = v.notes[:notes]
		v.top().returns = v.top().returns[:nret]
		v.top().defers = v.top().defers[:ndef]
		v.rollback(mk, ctr)
		l2 = nil
		for i, c := range live {
			if res[i] {
				l2 = append(l2, c)
			} else {
				dropped[c.name] = true
			}
		}
		if len(l2) == len(live) {
			return live
		}
		live = l2
	}
	return live
}

// tailStmts marks the branching statements in tail position: their branches return separately.
func (v *VC) tailStmts(list []ast.Stmt) {
	if len(list) == 0 {
		return
	}
	switch s := list[len(list)-1].(type) {
	case *ast.IfStmt:
		v.tails[s] = true
		v.tailStmts(s.Body.List)
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			v.tailStmts(e.List)
		case *ast.IfStmt:
			v.tailStmts([]ast.Stmt{e})
		}
	case *ast.SwitchStmt:
		v.tails[s] = true
	case *ast.TypeSwitchStmt:
		v.tails[s] = true
	}
}

// exits turns the ends of the branches of a tail statement into returns.
func (v *VC) exits(st *State, outs ...*State) {
	fr := v.top()
	for _, o := range outs {
		if !o.dead && o.pc.S != "false" {
			fr.returns = append(fr.returns, exit{st: o.clone()})
		}
	}
	st.dead = true
	st.pc = tFalse
}
