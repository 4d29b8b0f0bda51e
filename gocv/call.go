package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// methodRecv evaluates the receiver operand of a method selector in the form the method wants.
func (v *VC) methodRecv(st *State, e *ast.SelectorExpr, sel *types.Selection) Val {
	f := sel.Obj().(*types.Func)
	path := sel.Index()
	path = path[:len(path)-1]
	rt := f.Type().(*types.Signature).Recv().Type()
	_, wantPtr := rt.Underlying().(*types.Pointer)
	if _, isIf := rt.Underlying().(*types.Interface); isIf {
		wantPtr = false
	}
	xt := v.typeOf(e.X)
	_, xPtr := deref(xt)
	if len(path) == 0 {
		if wantPtr && !xPtr {
			if v.addressable(e.X) {
				l := v.lval(st, e.X)
				return Val{lv: l, gt: types.NewPointer(xt)}
			}
			return v.alloc(st, v.eval(st, e.X))
		}
		if !wantPtr && xPtr {
			l := v.ptrLV(st, v.eval(st, e.X), e.Pos())
			return v.readLV(st, l, e.Pos())
		}
		return v.eval(st, e.X)
	}
	// embedded
	if !xPtr && !v.addressable(e.X) {
		x := v.walkFieldVals(st, v.eval(st, e.X), path, e.Pos())
		_, isP := deref(v.tsub(x.gt))
		if wantPtr && !isP {
			return v.alloc(st, x)
		}
		if !wantPtr && isP {
			return v.readLV(st, v.ptrLV(st, x, e.Pos()), e.Pos())
		}
		return x
	}
	l := v.fieldPathLV(st, e.X, path, e.Pos())
	_, isP := deref(v.tsub(l.gt))
	if wantPtr && !isP {
		return Val{lv: l, gt: types.NewPointer(l.gt)}
	}
	x := v.readLV(st, l, e.Pos())
	if !wantPtr && isP {
		return v.readLV(st, v.ptrLV(st, x, e.Pos()), e.Pos())
	}
	return x
}

func (v *VC) evalCall(st *State, e *ast.CallExpr) Val {
	fun := ast.Unparen(e.Fun)
	if tv, ok := v.info().Types[fun]; ok && tv.IsType() {
		return v.evalConversion(st, e, tv.Type)
	}
	if tv, ok := v.info().Types[fun]; ok && tv.IsBuiltin() {
		name := ""
		switch f := fun.(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			name = f.Sel.Name
		}
		return v.builtin(st, name, e)
	}
	// strip explicit instantiation
	base := fun
	switch x := fun.(type) {
	case *ast.IndexExpr:
		if _, ok := v.info().TypeOf(x.X).Underlying().(*types.Signature); ok {
			if _, isSl := v.info().TypeOf(x.X).Underlying().(*types.Slice); !isSl {
				if tvx, ok := v.info().Types[x.Index]; ok && tvx.IsType() {
					base = x.X
				}
			}
		}
	case *ast.IndexListExpr:
		base = x.X
	}
	var fobj *types.Func
	var recv *Val
	var id *ast.Ident
	switch f := base.(type) {
	case *ast.Ident:
		id = f
		fobj, _ = v.info().Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		id = f.Sel
		fobj, _ = v.info().Uses[f.Sel].(*types.Func)
		if fobj != nil {
			if sel := v.info().Selections[f]; sel != nil {
				r := v.methodRecv(st, f, sel)
				recv = &r
			}
		} else if sel := v.info().Selections[f]; sel != nil && sel.Kind() == types.FieldVal {
			// function valued field with a contract
			xt, _ := deref(v.typeOf(f.X))
			if n, ok := xt.(*types.Named); ok && n.Obj().Pkg() != nil {
				key := n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + f.Sel.Name
				if c := v.cs.find(key); c != nil {
					sig := v.typeOf(f).Underlying().(*types.Signature)
					args := v.callArgs(st, e, sig)
					return v.applyContract(st, c, nil, args, sig, e.Pos(), nil)
				}
			}
		}
	}
	if fobj == nil {
		if f, ok := base.(*ast.Ident); ok {
			// a function valued parameter or variable with a contract "function#variable"
			if o, ok := v.info().Uses[f].(*types.Var); ok {
				if c := v.cs.find(v.declaringFunc(o) + "#" + o.Name()); c != nil {
					sig := v.typeOf(fun).Underlying().(*types.Signature)
					args := v.callArgs(st, e, sig)
					if fv := v.eval(st, fun); fv.t.ok() {
						v.oblig(st, "called function "+o.Name()+" not nil", e.Pos(), tNot(tEq(fv.t, tInt(0))))
					}
					v.notes = append(v.notes, "calls through the function variable "+o.Name()+" keep its contract")
					return v.snapped(st, o.Name(), e.Pos(), func() Val {
						return v.applyContract(st, c, nil, args, sig, e.Pos(), nil)
					})
				}
			}
		}
		fv := v.eval(st, fun)
		sig := v.typeOf(fun).Underlying().(*types.Signature)
		args := v.callArgs(st, e, sig)
		return v.callVal(st, fv, args, sig, e.Pos())
	}
	if f, ok := base.(*ast.SelectorExpr); ok && fobj.Name() == "Go" && isWG(v.typeOf(f.X)) {
		lit, ok := ast.Unparen(e.Args[0]).(*ast.FuncLit)
		if !ok {
			unsup("WaitGroup.Go of something else than a function literal")
		}
		v.checkFork(lit, e.Pos(), e.End(), true)
		return v.callVal(st, v.eval(st, lit), nil, v.typeOf(lit).(*types.Signature), e.Pos())
	}
	var ts map[*types.TypeParam]types.Type
	sig := fobj.Type().(*types.Signature)
	if inst, ok := v.info().Instances[id]; ok {
		ts = map[*types.TypeParam]types.Type{}
		for i := 0; i < inst.TypeArgs.Len(); i++ {
			ts[sig.TypeParams().At(i)] = v.tsub(inst.TypeArgs.At(i))
		}
		sig = inst.Type.(*types.Signature)
	}
	if tv := v.info().TypeOf(fun); tv != nil {
		if s, ok := tv.(*types.Signature); ok {
			sig = s
		}
	}
	args := v.callArgs(st, e, sig)
	return v.callFunc(st, fobj, recv, args, sig, ts, e.Pos())
}

// declaringFunc is the key of the function whose text declares a variable.
func (v *VC) declaringFunc(o *types.Var) string {
	if o.Pkg() == nil {
		return ""
	}
	for i := len(v.frames) - 1; i >= 0; i-- {
		if f := v.frames[i].src; f != nil && f.Decl.Pos() <= o.Pos() && o.Pos() < f.Decl.End() {
			return funcKey(f.Obj)
		}
	}
	return ""
}

// callArgs evaluates the arguments and packs variadic ones.
func (v *VC) callArgs(st *State, e *ast.CallExpr, sig *types.Signature) []Val {
	var in []Val
	if len(e.Args) == 1 && sig.Params().Len() > 1 {
		if _, ok := v.info().TypeOf(e.Args[0]).(*types.Tuple); ok {
			in = v.eval(st, e.Args[0]).tuple
		}
	}
	if in == nil {
		for i, a := range e.Args {
			x := v.eval(st, a)
			if len(x.tuple) > 0 && i == 0 && len(e.Args) == 1 {
				in = append(in, x.tuple...)
				continue
			}
			if x.t.ok() && x.lv == nil && x.fn == nil {
				x.t = v.def("arg", x.t)
			}
			in = append(in, x)
		}
	}
	n := sig.Params().Len()
	var out []Val
	if sig.Variadic() && !e.Ellipsis.IsValid() {
		vt := v.tsub(sig.Params().At(n - 1).Type())
		el := vt.Underlying().(*types.Slice).Elem()
		for i := 0; i < n-1; i++ {
			out = append(out, v.convert(st, in[i], sig.Params().At(i).Type()))
		}
		if len(in) == n-1 {
			out = append(out, Val{t: v.zero(vt), gt: vt})
		} else {
			l := []Val{}
			for _, x := range in[n-1:] {
				l = append(l, v.convert(st, x, el))
			}
			out = append(out, Val{list: l, gt: vt})
		}
		return out
	}
	for i := range in {
		out = append(out, v.convert(st, in[i], sig.Params().At(i).Type()))
	}
	return out
}

func (v *VC) materialise(st *State, a Val) Val {
	if a.list != nil {
		return v.sliceLit(st, a.list, a.gt)
	}
	return a
}

func (v *VC) callVal(st *State, fv Val, args []Val, sig *types.Signature, pos token.Pos) Val {
	if fv.pois != "" {
		unsup("%s", fv.pois)
	}
	if fv.fn == nil {
		if n, ok := fv.gt.(*types.Named); ok && n.Obj().Pkg() != nil {
			if c := v.cs.find(n.Obj().Pkg().Path() + "." + n.Obj().Name()); c != nil {
				if fv.t.ok() {
					v.oblig(st, "called function not nil", pos, tNot(tEq(fv.t, tInt(0))))
				}
				return v.applyContract(st, c, nil, args, sig, pos, nil)
			}
		}
		// unknown function parameter with a contract "funcparam:<target>:<term>"
		if c := v.cs.find(v.target + "#" + trimCtr(fv.t.S)); c != nil {
			return v.applyContract(st, c, nil, args, sig, pos, nil)
		}
		if r, ok := v.callAny(st, fv, args, sig, pos); ok {
			return r
		}
		unsup("call of unknown function value %s", fv.t.S)
	}
	c := fv.fn
	if c.fobj != nil {
		return v.callFunc(st, c.fobj, c.recv, args, sig, nil, pos)
	}
	return v.inline(st, nil, c.lit, c.pkg, c.ts, nil, args, sig, pos)
}

// callAny calls a function value that is one of the function literals of the current function.
func (v *VC) callAny(st *State, fv Val, args []Val, sig *types.Signature, pos token.Pos) (Val, bool) {
	var cs []*Closure
	for _, c := range v.closures {
		if c.lit == nil || !types.Identical(c.pkg.Info.TypeOf(c.lit), sig) {
			continue
		}
		in := false
		for _, f := range v.frames {
			in = in || f.src != nil && f.src.Decl.Pos() <= c.lit.Pos() && c.lit.Pos() < f.src.Decl.End()
		}
		dup := false
		for _, o := range cs {
			dup = dup || o.id == c.id
		}
		if in && !dup {
			cs = append(cs, c)
		}
	}
	if !fv.t.ok() || len(cs) == 0 {
		return Val{}, false
	}
	var is []Term
	for _, c := range cs {
		is = append(is, tEq(fv.t, tInt(int64(1000+c.id))))
	}
	v.oblig(st, "the called function value is one of the function's literals", pos, tOr(is...))
	var res Val
	for k, c := range cs {
		c := c
		r := v.withPC(st, is[k], func(s *State) Val { return v.callVal(s, Val{fn: c, gt: fv.gt}, args, sig, pos) })
		if k == 0 {
			res = r
		} else {
			res = v.mergeVal(is[k], r, res, "result")
		}
	}
	return res, true
}

func trimCtr(s string) string {
	if i := strings.LastIndex(s, "!"); i > 0 {
		return s[:i]
	}
	return s
}

func (v *VC) callFunc(st *State, fobj *types.Func, recv *Val, args []Val, sig *types.Signature, ts map[*types.TypeParam]types.Type, pos token.Pos) Val {
	orig := fobj.Origin()
	if recv != nil {
		// generic receiver type arguments
		rt, _ := deref(v.tsub(recv.gt))
		if n, ok := rt.(*types.Named); ok && n.TypeArgs() != nil && n.TypeArgs().Len() > 0 {
			if ts == nil {
				ts = map[*types.TypeParam]types.Type{}
			}
			rtp := orig.Type().(*types.Signature).RecvTypeParams()
			for i := 0; i < rtp.Len(); i++ {
				ts[rtp.At(i)] = v.tsub(n.TypeArgs().At(i))
			}
		}
		// resolve interface methods with a statically known dynamic type
		if _, ok := v.tsub(recv.gt).Underlying().(*types.Interface); ok && recv.dyn != nil {
			o, _, _ := types.LookupFieldOrMethod(recv.dyn.gt, true, fobj.Pkg(), fobj.Name())
			if m, ok := o.(*types.Func); ok {
				d := *recv.dyn
				_, wantPtr := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
				_, isP := deref(v.tsub(d.gt))
				if isP && !wantPtr {
					d = v.readLV(st, v.ptrLV(st, d, pos), pos)
				}
				return v.callFunc(st, m, &d, args, m.Type().(*types.Signature), nil, pos)
			}
		}
	}
	key := funcKey(orig)
	if k := searchKind(key); k > 0 && v.cs.find(key) == nil {
		nm := v.snapName(fobj.Name(), pos)
		if nm != "" {
			v.snapshot(st, nm+":pre", st.clone(), pos, Val{})
		}
		r := v.searchCall(st, k, key, args, pos)
		if nm != "" {
			v.snapshot(st, nm, st.clone(), pos, r)
		}
		return r
	}
	if k := sortKind(key); k > 0 && v.cs.find(key) == nil {
		nm := v.snapName(fobj.Name(), pos)
		if nm != "" {
			v.snapshot(st, nm+":pre", st.clone(), pos, Val{})
		}
		r := v.sortCall(st, k, key, args, pos)
		if nm != "" {
			v.snapshot(st, nm, st.clone(), pos, r)
		}
		return r
	}
	if c := v.cs.find(key); c != nil && !c.InlineOnly {
		nm := v.snapName(fobj.Name(), pos)
		if nm != "" {
			v.snapshot(st, nm+":pre", st.clone(), pos, Val{})
		}
		r := v.applyContract(st, c, recv, args, sig, pos, ts)
		if nm != "" {
			v.snapshot(st, nm, st.clone(), pos, r)
		}
		return r
	}
	src := v.p.Funcs[orig]
	if src == nil || src.Decl.Body == nil {
		unsup("call of %s, which has neither a contract nor source in the repository", key)
	}
	for _, f := range v.frames {
		if f.src == src {
			unsup("recursive call of %s without a contract", key)
		}
	}
	if len(v.frames) > 12 {
		unsup("inlining too deep at %s", key)
	}
	v.inlined[key] = true
	nm := v.snapName(fobj.Name(), pos)
	if nm == "" {
		return v.inline(st, src, nil, src.Pkg, ts, recv, args, sig, pos)
	}
	v.snapshot(st, nm+":pre", st.clone(), pos, Val{})
	v.callSite = nm
	r := v.inline(st, src, nil, src.Pkg, ts, recv, args, sig, pos)
	v.snapshot(st, nm, st.clone(), pos, r)
	return r
}

// inline executes a function body in place.
func (v *VC) inline(st *State, src *FuncSrc, lit *ast.FuncLit, pk *Pkg, ts map[*types.TypeParam]types.Type, recv *Val, args []Val, sig *types.Signature, pos token.Pos) Val {
	fr := &frameCtx{src: src, lit: lit, pkg: pk, ts: ts, callPos: pos}
	if i := strings.LastIndex(v.callSite, "#"); i >= 0 {
		fr.site = "@" + v.callSite[i+1:]
	}
	v.callSite = ""
	var ft *ast.FuncType
	var body *ast.BlockStmt
	if src != nil {
		fr.sig = src.Obj.Type().(*types.Signature)
		ft, body = src.Decl.Type, src.Decl.Body
	} else {
		fr.sig = pk.Info.TypeOf(lit).(*types.Signature)
		ft, body = lit.Type, lit.Body
		if len(v.frames) > 30 {
			unsup("closure inlining too deep")
		}
		for _, f := range v.frames {
			if f.lit == lit {
				unsup("recursive closure")
			}
		}
	}
	v.frames = append(v.frames, fr)
	defer func() { v.frames = v.frames[:len(v.frames)-1] }()
	if src != nil && src.Decl.Recv != nil && len(src.Decl.Recv.List) > 0 && len(src.Decl.Recv.List[0].Names) > 0 && recv != nil {
		if o := pk.Info.Defs[src.Decl.Recv.List[0].Names[0]]; o != nil {
			v.bind(st, o, *recv)
		}
	}
	i := 0
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			i++
		}
		for _, nm := range f.Names {
			if o := pk.Info.Defs[nm]; o != nil {
				v.bind(st, o, args[i])
			}
			i++
		}
	}
	rs := v.execBody(st, fr, ft, body)
	if len(rs) == 1 {
		return rs[0]
	}
	return Val{tuple: rs, gt: fr.sig.Results()}
}

func (v *VC) bind(st *State, o types.Object, x Val) {
	x.gt = v.tsub(o.Type())
	x.boxed = false
	st.vars[o] = x
}

// execBody runs a body, collects all exits (with defers) and leaves the joined state in st.
func (v *VC) execBody(st *State, fr *frameCtx, ft *ast.FuncType, body *ast.BlockStmt) []Val {
	return v.execPaths(st, fr, ft, body, false)[0].vals
}

type path struct {
	st   *State
	vals []Val
}

// execPaths executes a body; with split every return is a path of its own (at most 12).
func (v *VC) execPaths(st *State, fr *frameCtx, ft *ast.FuncType, body *ast.BlockStmt, split bool) []path {
	res := fr.sig.Results()
	named := false
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, nm := range f.Names {
				named = true
				o := fr.pkg.Info.Defs[nm]
				if o == nil { // blank
					o = types.NewVar(nm.Pos(), fr.pkg.Types, "_r", fr.pkg.Info.TypeOf(f.Type))
				}
				fr.results = append(fr.results, o)
				st.vars[o] = Val{t: v.zero(o.Type()), gt: v.tsub(o.Type())}
			}
		}
	}
	if !named {
		for i := 0; i < res.Len(); i++ {
			fr.results = append(fr.results, types.NewVar(body.End(), fr.pkg.Types, fmt.Sprintf("ret%d", i), res.At(i).Type()))
		}
	}
	entryPC := st.pc
	if split {
		v.tailStmts(body.List)
	}
	v.execBlock(st, body.List)
	if !st.dead {
		fr.returns = append(fr.returns, exit{st: st.clone()})
	}
	var outs []*State
	for _, ex := range fr.returns {
		s := ex.st
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			v.runDefer(s, d)
		}
		outs = append(outs, s)
	}
	read := func(st *State) []Val {
		var vals []Val
		for _, o := range fr.results {
			if st.dead {
				vals = append(vals, Val{t: v.zero(o.Type()), gt: v.tsub(o.Type())})
				continue
			}
			vals = append(vals, v.readLV(st, &LVal{kind: lvVar, obj: o, gt: v.tsub(o.Type())}, body.End()))
		}
		return vals
	}
	if split && len(outs) <= 12 {
		var ps []path
		for _, s := range outs {
			if !s.dead && s.pc.S != "false" {
				ps = append(ps, path{s, read(s)})
			}
		}
		if len(ps) > 1 {
			return ps
		}
	}
	m := v.mergeAll(outs)
	if len(outs) > 0 && !m.dead && len(v.frames) > 1 {
		// all paths that return rejoin: the path condition is the one at entry, minus paths that
		// never return (those are excluded by their obligations)
		if v.noKill(fr) {
			m.pc = entryPC
		}
	}
	st.set(m)
	return []path{{st, read(st)}}
}

func (v *VC) noKill(fr *frameCtx) bool { return !fr.killed }

func (v *VC) runDefer(s *State, d deferred) {
	if s.dead {
		return
	}
	if d.pc.S == "true" || s.pc.S == d.pc.S {
		v.callDeferred(s, d)
		return
	}
	v.withPC(s, d.pc, func(x *State) Val { v.callDeferred(x, d); return Val{} })
}

func (v *VC) callDeferred(s *State, d deferred) {
	if d.sig == nil { // only close
		v.closeChan(s, d.call.Args[0])
		return
	}
	if d.fobj != nil {
		v.callFunc(s, d.fobj, d.recv, d.args, d.sig, nil, d.call.Pos())
		return
	}
	v.callVal(s, d.fun, d.args, d.sig, d.call.Pos())
}

// ------------------------------------------------------------------ builtins

func (v *VC) lenOf(st *State, x Val) Term {
	if x.list != nil {
		return tInt(int64(len(x.list)))
	}
	gt := v.tsub(x.gt)
	if a, ok := gt.Underlying().(*types.Array); ok {
		return tInt(a.Len())
	}
	if p, ok := deref(gt); ok {
		return tInt(p.Underlying().(*types.Array).Len())
	}
	switch {
	case x.t.Sort == "Str":
		return app("Int", "slen", x.t)
	case x.t.Sort == "Slice":
		return sLen(x.t)
	case x.t.Sort == "IBytes":
		return app("Int", "slen", v.bytesOf(st, x))
	case strings.HasPrefix(x.t.Sort, "IS_"):
		return isLen(x.t)
	}
	if m, ok := gt.Underlying().(*types.Map); ok {
		_, _, _, _, _, c := v.mapHeaps(st, m)
		l := v.def("mlen", tIte(tEq(x.t, tInt(0)), tInt(0), tSel(c, x.t)))
		v.assume(st, tLe(tInt(0), l))
		return l
	}
	unsup("len of %s", x.gt)
	return Term{}
}

func isLen(t Term) Term {
	if strings.HasPrefix(t.S, "(mk_"+t.Sort+" ") {
		return Term{splitArgs(t.S)[2], "Int"}
	}
	return app("Int", t.Sort+"_len", t)
}
func isArr(t Term) Term {
	es := strings.TrimPrefix(t.Sort, "IS_")
	_ = es
	if strings.HasPrefix(t.S, "(mk_"+t.Sort+" ") {
		return Term{splitArgs(t.S)[1], "?"}
	}
	return app("?", t.Sort+"_arr", t)
}

func (v *VC) builtin(st *State, name string, e *ast.CallExpr) Val {
	ti := types.Typ[types.Int]
	switch name {
	case "len":
		return Val{t: v.lenOf(st, v.eval(st, e.Args[0])), gt: ti}
	case "cap":
		x := v.eval(st, e.Args[0])
		if x.t.Sort == "Slice" {
			return Val{t: sCap(x.t), gt: ti}
		}
		if a, ok := v.tsub(x.gt).Underlying().(*types.Array); ok {
			return Val{t: tInt(a.Len()), gt: ti}
		}
		unsup("cap of %s", x.gt)
	case "append":
		return v.snapped(st, "append", e.Pos(), func() Val { return v.appendCall(st, e) })
	case "copy":
		return v.snapped(st, "copy", e.Pos(), func() Val { return v.copyCall(st, e) })
	case "make":
		gt := v.typeOf(e)
		switch u := gt.Underlying().(type) {
		case *types.Map:
			for _, a := range e.Args[1:] {
				v.eval(st, a)
			}
			return v.makeMap(st, gt)
		case *types.Slice:
			n := v.def("n", v.eval(st, e.Args[1]).t)
			cp := n
			if len(e.Args) > 2 {
				cp = v.def("n", v.eval(st, e.Args[2]).t)
			}
			v.oblig(st, "make size in range", e.Pos(), tAnd(tLe(tInt(0), n), tLe(n, cp)))
			v.assume(st, tLe(cp, v.lenMax(u.Elem()))) // beyond it the runtime panics: out of memory
			return v.makeSlice(st, gt, u.Elem(), n, cp)
		}
		unsup("make %s", gt)
	case "new":
		gt := v.typeOf(e)
		el, _ := deref(gt)
		el = v.tsub(el)
		return v.alloc(st, Val{t: v.zero(el), gt: el})
	case "close":
		v.closeChan(st, e.Args[0])
		return Val{}
	case "delete":
		m := v.eval(st, e.Args[0])
		k := v.eval(st, e.Args[1])
		mt := v.tsub(m.gt).Underlying().(*types.Map)
		m.gt = v.tsub(m.gt)
		k = v.convert(st, k, mt.Key())
		kt := v.term(st, k)
		v.withPC(st, tNot(tEq(m.t, tInt(0))), func(s *State) Val { v.mapDelete(s, m, Val{t: kt, gt: mt.Key()}); return Val{} })
		return Val{}
	case "min", "max":
		r := v.eval(st, e.Args[0])
		for _, a := range e.Args[1:] {
			b := v.eval(st, a)
			if r.t.Sort != "Int" {
				unsup("min/max of %s", r.t.Sort)
			}
			c := tLe(r.t, b.t)
			if name == "max" {
				c = tLe(b.t, r.t)
			}
			r = Val{t: v.def(name, tIte(c, r.t, b.t)), gt: v.typeOf(e)}
		}
		return r
	case "panic":
		for _, a := range e.Args {
			if _, ok := ast.Unparen(a).(*ast.BasicLit); !ok {
				// the argument is evaluated for its obligations only
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupported); !ok {
								panic(r)
							}
						}
					}()
					v.eval(st, a)
				}()
			}
		}
		v.kill(st, "panic is unreachable", e.Pos())
		return Val{}
	case "clear":
		x := v.eval(st, e.Args[0])
		if mt, ok := v.tsub(x.gt).Underlying().(*types.Map); ok {
			x.gt = v.tsub(x.gt)
			kd, _, kc, d, _, c := v.mapHeaps(st, mt)
			k := v.sortOf(mt.Key())
			v.setHeap(st, kd, tSto(d, x.t, Term{"((as const (Array " + k + " Bool)) false)", "(Array " + k + " Bool)"}))
			v.setHeap(st, kc, tSto(c, x.t, tInt(0)))
			v.recWrite(kd, x.t)
			v.recWrite(kc, x.t)
			return Val{}
		}
		if slt, ok := v.tsub(x.gt).Underlying().(*types.Slice); ok {
			x = v.materialise(st, x)
			if x.t.Sort == "Slice" {
				el := v.tsub(slt.Elem())
				es := v.sortOf(el)
				cp := v.declCopy(es)
				key := v.sliceHeapKey(el)
				h := v.sliceHeap(st, el)
				sl := v.def("sl", x.t)
				asort := "(Array Int " + es + ")"
				z := fmt.Sprintf("((as const %s) %s)", asort, v.zero(el).S)
				row := Term{fmt.Sprintf("(%s %s %s %s 0 %s)", cp, tSel(h, sBase(sl)).S, sOff(sl).S, z, sLen(sl).S), asort}
				v.setHeap(st, key, tSto(h, sBase(sl), row))
				v.recWrite(key, sBase(sl))
				return Val{}
			}
		}
	}
	unsup("builtin %s", name)
	return Val{}
}

func (v *VC) kill(st *State, why string, pos token.Pos) {
	if v.cur != nil && v.cur.MayPanic {
		why = ""
	}
	if why != "" {
		v.oblig(st, why, pos, tFalse)
	}
	for _, f := range v.frames {
		f.killed = true
	}
	st.dead = true
	st.pc = tFalse
}

func (v *VC) makeSlice(st *State, gt, el types.Type, n, cp Term) Val {
	el = v.tsub(el)
	s := v.sortOf(gt)
	z := v.zero(el)
	if s == "IBytes" {
		str := v.fresh("mk", "Str")
		v.assume(st, tEq(app("Int", "slen", str), n))
		v.item(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (sat %s i) 0)) :pattern ((sat %s i)))))", n.S, str.S, str.S))
		return Val{t: Term{"(mk_ib " + str.S + " false)", "IBytes"}, gt: gt}
	}
	if strings.HasPrefix(s, "IS_") {
		return Val{t: Term{fmt.Sprintf("(mk_%s ((as const (Array Int %s)) %s) %s false)", s, z.Sort, z.S, n.S), s}, gt: gt}
	}
	r := v.newRef(st)
	key := v.sliceHeapKey(el)
	h := v.sliceHeap(st, el)
	v.setHeap(st, key, tSto(h, r, Term{fmt.Sprintf("((as const (Array Int %s)) %s)", z.Sort, z.S), "(Array Int " + z.Sort + ")"}))
	v.recWrite(key, r)
	return Val{t: mkSlice(r, tInt(0), n, cp), gt: gt}
}

// appendCall models append exactly: in place when the capacity suffices, otherwise a fresh array.
func (v *VC) appendCall(st *State, e *ast.CallExpr) Val {
	gt := v.typeOf(e)
	s := v.eval(st, e.Args[0])
	s = v.materialise(st, s)
	s = v.convert(st, s, gt)
	el := v.tsub(gt.Underlying().(*types.Slice).Elem())
	if e.Ellipsis.IsValid() {
		o := v.eval(st, e.Args[1])
		if o.list != nil {
			return v.appendVals(st, s, o.list, gt, el)
		}
		return v.appendSlice(st, s, o, gt, el)
	}
	var xs []Val
	for _, a := range e.Args[1:] {
		xs = append(xs, v.evalElem(st, a, el))
	}
	return v.appendVals(st, s, xs, gt, el)
}

func (v *VC) appendVals(st *State, s Val, xs []Val, gt, el types.Type) Val {
	switch {
	case s.t.Sort == "IBytes":
		str := v.bytesOf(st, s)
		for _, x := range xs {
			str = app("Str", "scat", str, app("Str", "str1", x.t))
		}
		if len(xs) == 0 {
			return s
		}
		v.notes = append(v.notes, "append on value-mode slices assumes that no other live slice shares the spare capacity")
		return Val{t: Term{"(mk_ib " + v.def("cat", str).S + " false)", "IBytes"}, gt: gt}
	case strings.HasPrefix(s.t.Sort, "IS_"):
		if len(xs) == 0 {
			return s
		}
		es := v.sortOf(el)
		arr := isArr(s.t)
		arr.Sort = "(Array Int " + es + ")"
		n := isLen(s.t)
		for i, x := range xs {
			arr = tSto(arr, tAdd(n, tInt(int64(i))), v.term(st, x))
		}
		v.notes = append(v.notes, "append on value-mode slices assumes that no other live slice shares the spare capacity")
		return Val{t: v.def("app", Term{fmt.Sprintf("(mk_%s %s %s false)", s.t.Sort, arr.S, tAdd(n, tInt(int64(len(xs)))).S), s.t.Sort}), gt: gt}
	}
	sl := v.def("sl", s.t)
	n := tInt(int64(len(xs)))
	if len(xs) == 0 {
		return Val{t: sl, gt: gt}
	}
	ts := make([]Term, len(xs))
	for i, x := range xs {
		ts[i] = v.def("x", v.term(st, x))
	}
	return v.growWrite(st, sl, n, gt, el, func(row, at Term) Term {
		for i := range ts {
			row = tSto(row, tAdd(at, tInt(int64(i))), ts[i])
		}
		return row
	})
}

// growWrite appends n elements written by wr(row, offset of the first new element).
func (v *VC) growWrite(st *State, sl, n Term, gt, el types.Type, wr func(row, at Term) Term) Val {
	key := v.sliceHeapKey(el)
	h := v.sliceHeap(st, el)
	es := v.sortOf(el)
	fits := v.def("fits", tLe(tAdd(sLen(sl), n), sCap(sl)))
	nl := v.def("nlen", tAdd(sLen(sl), n))
	v.assume(st, tLe(nl, v.lenMax(el))) // more cannot be allocated
	oldRow := tSel(h, sBase(sl))
	// in place
	inRow := wr(oldRow, tAt(sOff(sl), sLen(sl)))
	// fresh
	r := v.newRef(st)
	ncap := v.fresh("ncap", "Int")
	v.assume(st, tAnd(tLe(nl, ncap), tLe(ncap, v.lenMax(el))))
	var cpRow Term
	if sOff(sl).S == "0" {
		cpRow = oldRow
	} else {
		cpRow = Term{fmt.Sprintf("(shift_%s %s %s)", sanitize(es), oldRow.S, sOff(sl).S), oldRow.Sort}
		v.declShift(es)
	}
	frRow := wr(cpRow, sLen(sl))
	base := v.def("abase", tIte(fits, sBase(sl), r))
	row := v.def("arow", tIte(fits, inRow, frRow))
	v.setHeap(st, key, tSto(h, base, row))
	v.recWrite(key, base)
	res := mkSlice(base, v.def("aoff", tIte(fits, sOff(sl), tInt(0))), nl, v.def("acap", tIte(fits, sCap(sl), ncap)))
	return Val{t: v.def("app", res), gt: gt}
}

// shift_E(a,k)[i] = a[i+k]
func (v *VC) declShift(es string) {
	n := "shift_" + sanitize(es)
	if _, ok := v.declared[n]; ok {
		return
	}
	v.declFun(n, "(Array Int "+es+") Int", "(Array Int "+es+")")
	v.axiom(fmt.Sprintf("(forall ((a (Array Int %s)) (k Int) (i Int)) (! (= (select (%s a k) i) (select a (+ i k))) :pattern ((select (%s a k) i))))", es, n, n))
}

// cprange_E(dst, at, src, from, n): dst with n elements of src starting at from copied to at.
func (v *VC) declCopy(es string) string {
	n := "cprange_" + sanitize(es)
	if _, ok := v.declared[n]; ok {
		return n
	}
	a := "(Array Int " + es + ")"
	v.declFun(n, a+" Int "+a+" Int Int", a)
	v.axiom(fmt.Sprintf("(forall ((d %s) (at Int) (s %s) (f Int) (n Int) (i Int)) (! (= (select (%s d at s f n) i) (ite (and (<= at i) (< i (+ at n))) (select s (+ f (- i at))) (select d i))) :pattern ((select (%s d at s f n) i))))", a, a, n, n))
	return n
}

func (v *VC) appendSlice(st *State, s, o Val, gt, el types.Type) Val {
	if s.t.Sort == "IBytes" {
		str := app("Str", "scat", v.bytesOf(st, s), v.bytesOf(st, o))
		nilc := tAnd(app("Bool", "ib_nil", s.t), tEq(app("Int", "slen", v.bytesOf(st, o)), tInt(0)))
		v.notes = append(v.notes, "append on value-mode slices assumes that no other live slice shares the spare capacity")
		return Val{t: Term{"(mk_ib " + v.def("cat", str).S + " " + nilc.S + ")", "IBytes"}, gt: gt}
	}
	es := v.sortOf(el)
	asort := "(Array Int " + es + ")"
	if strings.HasPrefix(s.t.Sort, "IS_") {
		cp := v.declCopy(es)
		n := s.t.Sort
		arr := Term{fmt.Sprintf("(%s %s %s %s 0 %s)", cp, isArr(s.t).S, isLen(s.t).S, isArr(o.t).S, isLen(o.t).S), asort}
		nilc := tAnd(app("Bool", n+"_nil", s.t), tEq(isLen(o.t), tInt(0)))
		return Val{t: v.def("app", Term{fmt.Sprintf("(mk_%s %s %s %s)", n, arr.S, tAdd(isLen(s.t), isLen(o.t)).S, nilc.S), n}), gt: gt}
	}
	sl := v.def("sl", s.t)
	cp := v.declCopy(es)
	if o.t.Sort == "Str" { // append(bytes, string...)
		n := v.def("n", app("Int", "slen", o.t))
		src := Term{"(arrof " + o.t.S + ")", asort}
		return v.growWrite(st, sl, n, gt, el, func(row, at Term) Term {
			return Term{fmt.Sprintf("(%s %s %s %s 0 %s)", cp, row.S, at.S, src.S, n.S), asort}
		})
	}
	os := v.def("sl", o.t)
	n := sLen(os)
	src := v.def("srow", tSel(v.sliceHeap(st, el), sBase(os)))
	nn := v.def("n", n)
	return v.growWrite(st, sl, nn, gt, el, func(row, at Term) Term {
		return Term{fmt.Sprintf("(%s %s %s %s %s %s)", cp, row.S, at.S, src.S, sOff(os).S, nn.S), asort}
	})
}

func (v *VC) copyCall(st *State, e *ast.CallExpr) Val {
	// copy into (part of) a byte array: copy(arr[:], src)
	if se, ok := ast.Unparen(e.Args[0]).(*ast.SliceExpr); ok {
		if at := v.typeOf(se.X); at != nil {
			if n, isB := isByteArray(at); isB && se.Low == nil && se.High == nil {
				l := v.lval(st, se.X)
				src := v.bytesOf(st, v.eval(st, e.Args[1]))
				cur := v.readLV(st, l, e.Pos())
				ln := v.def("n", tIte(tLe(tInt(n), app("Int", "slen", src)), tInt(n), app("Int", "slen", src)))
				nv := v.def("cp", app("Str", "scat", app("Str", "ssub", src, tInt(0), ln), app("Str", "ssub", cur.t, ln, tInt(n))))
				v.writeLV(st, l, Val{t: nv, gt: at}, e.Pos())
				return Val{t: ln, gt: types.Typ[types.Int]}
			}
		}
	}
	d := v.eval(st, e.Args[0])
	s := v.materialise(st, v.eval(st, e.Args[1]))
	if d.t.Sort != "Slice" {
		unsup("copy into an immutable slice")
	}
	dt := v.def("sl", d.t)
	el := v.tsub(v.tsub(d.gt).Underlying().(*types.Slice).Elem())
	es := v.sortOf(el)
	cp := v.declCopy(es)
	var sl Term
	var src, off Term
	asort := "(Array Int " + es + ")"
	if s.t.Sort == "Str" {
		sl = app("Int", "slen", s.t)
		src, off = Term{"(arrof " + s.t.S + ")", asort}, tInt(0)
	} else {
		x := v.def("sl", s.t)
		sl = sLen(x)
		src, off = v.def("srow", tSel(v.sliceHeap(st, el), sBase(x))), sOff(x)
	}
	n := v.def("n", tIte(tLe(sLen(dt), sl), sLen(dt), sl))
	key := v.sliceHeapKey(el)
	h := v.sliceHeap(st, el)
	row := Term{fmt.Sprintf("(%s %s %s %s %s %s)", cp, tSel(h, sBase(dt)).S, sOff(dt).S, src.S, off.S, n.S), asort}
	v.setHeap(st, key, tSto(h, sBase(dt), row))
	v.recWrite(key, sBase(d.t))
	return Val{t: n, gt: types.Typ[types.Int]}
}

// ------------------------------------------------------------------ contract application

func (v *VC) applyContract(st *State, c *Contract, recv *Val, args []Val, sig *types.Signature, pos token.Pos, ts map[*types.TypeParam]types.Type) Val {
	v.assumed[c.Key] = true
	if c.Extern {
		v.trusted[c.Key] = true
	}
	if ts != nil {
		v.frames = append(v.frames, &frameCtx{pkg: v.top().pkg, ts: ts, src: v.top().src, pseudo: true})
		defer func() { v.frames = v.frames[:len(v.frames)-1] }()
	}
	env := &specEnv{v: v, st: st, names: map[string]Val{}}
	if src := v.p.ByKey[c.Key]; src != nil {
		env.pkg = src.Pkg
	}
	var ps []Val
	if recv != nil {
		ps = append(ps, *recv)
	}
	ps = append(ps, args...)
	if len(c.Params) != len(ps) {
		unsup("contract of %s has %d parameters, call has %d", c.Key, len(c.Params), len(ps))
	}
	for i := range ps {
		x := v.materialise(st, ps[i])
		if x.fn != nil || x.dyn != nil {
			x.t = v.term(st, x)
		}
		env.names[c.Params[i]] = x
	}
	for i, r := range c.Requires {
		g := env.boolExpr(r.E)
		v.oblig(st, fmt.Sprintf("precondition of %s: %s", shortKey(c.Key), r.label(i)), pos, g)
	}
	pre := st.clone()
	env.old = pre
	// results first: modifies clauses may not mention them
	var ts1 []modT
	for _, m := range c.Modifies {
		ts1 = append(ts1, env.targets(m)...) // all in the state before the call
	}
	for _, t := range ts1 {
		v.havocTarget(st, t)
	}
	na := v.fresh("alloc", "Int")
	v.item(fmt.Sprintf("(assert (<= %s %s))", st.alloc.S, na.S))
	st.alloc = na
	var res []Val
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		rt := v.tsub(sig.Results().At(i).Type())
		nm := fmt.Sprintf("res%d", i)
		if i < len(c.Results) {
			nm = c.Results[i]
		}
		t := v.fresh(nm, v.sortOf(rt))
		x := Val{t: t, gt: rt}
		v.assume(st, v.tinv(st, t, rt, 1))
		res = append(res, x)
		env.names[nm] = x
	}
	env.st = st
	for _, r := range c.Ensures {
		v.assume(st, env.boolExpr(r.E))
	}
	if c.NoReturn {
		v.kill(st, "", pos)
	}
	if n == 1 {
		return res[0]
	}
	return Val{tuple: res, gt: sig.Results()}
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		return k[i+1:]
	}
	return k
}

// havocTarget forgets the contents of one modifies target.
func (v *VC) havocTarget(st *State, t modT) {
	for once := true; once; once = false {
		if t.inner != nil {
			l := t.inner
			if t.field >= 0 {
				l = &LVal{kind: lvField, parent: l, field: t.field, gt: v.fieldType(l.gt, t.field)}
			}
			nv := v.fresh("hv", v.sortOf(l.gt))
			v.assume(st, v.tinv(st, nv, l.gt, 2))
			v.writeLV(st, l, Val{t: nv, gt: l.gt}, token.NoPos)
			continue
		}
		h := v.heap(st, t.heap, t.sort)
		switch {
		case t.all:
			nh := v.fresh("h_"+t.heap, t.sort)
			v.heapAxiomLocal(t.heap, nh)
			st.heap[t.heap] = nh
			v.recWrite(t.heap, Term{})
		case t.field >= 0:
			fv := v.fresh("f", v.sortOf(v.fieldType(t.gt, t.field)))
			v.assume(st, v.tinv(st, fv, v.fieldType(t.gt, t.field), 1))
			nv := v.setField(tSel(h, t.base), t.gt, t.field, fv)
			v.setHeap(st, t.heap, tSto(h, t.base, nv))
			v.recWrite(t.heap, t.base)
		default:
			row := v.fresh("row", arrElem(t.sort))
			if isByteHeap(t.heap) {
				v.item(fmt.Sprintf("(assert (forall ((i Int)) (! (and (<= 0 (select %s i)) (<= (select %s i) 255)) :pattern ((select %s i)))))", row.S, row.S, row.S))
			}
			if t.lo.ok() {
				v.item(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (not (and (<= %s i) (< i %s))) (= (select %s i) (select %s i))) :pattern ((select %s i)) :pattern ((select %s i)))))",
					t.lo.S, t.hi.S, row.S, tSel(h, t.base).S, row.S, tSel(h, t.base).S))
			}
			v.setHeap(st, t.heap, tSto(h, t.base, row))
			v.recWrite(t.heap, t.base)
		}
	}
}

func isByteHeap(k string) bool { return k == "SH_uint8" }

func (v *VC) heapAxiomLocal(key string, h Term) {
	if isByteHeap(key) {
		v.item(fmt.Sprintf("(assert (forall ((r Int) (i Int)) (! (and (<= 0 (select (select %s r) i)) (<= (select (select %s r) i) 255)) :pattern ((select (select %s r) i)))))", h.S, h.S, h.S))
	}
}

type snap struct {
	st  *State
	pos token.Pos
	res Val
}

// snapName names a call in the verified function's own body: callee#n, n-th call in source order.
func (v *VC) snapName(callee string, pos token.Pos) string {
	if v.mode != 0 || len(v.frames) == 0 || v.frames[0].src == nil || v.frames[0].src.Decl.Body == nil {
		return ""
	}
	if b := v.frames[0].src.Decl.Body; len(v.frames) != 1 && (pos < b.Pos() || b.End() < pos) {
		return "" // a call in an inlined function (one in a function literal of this body counts)
	}
	n := 0
	ast.Inspect(v.frames[0].src.Decl.Body, func(x ast.Node) bool {
		if c, ok := x.(*ast.CallExpr); ok {
			f := ast.Unparen(c.Fun)
			if ix, ok := f.(*ast.IndexExpr); ok {
				f = ix.X
			}
			id, _ := f.(*ast.Ident)
			if se, ok := f.(*ast.SelectorExpr); ok {
				id = se.Sel
			}
			if id != nil && id.Name == callee && c.Pos() < pos {
				n++
			}
		}
		return true
	})
	return fmt.Sprintf("%s#%d", callee, n)
}

// snapshot records a state for when() and runs the hints placed there (at NAME use ...).
func (v *VC) snapshot(st *State, nm string, at *State, pos token.Pos, r Val) {
	v.snaps[nm] = snap{at, pos, r}
	if len(v.frames) == 0 || v.frames[0].src == nil {
		return
	}
	con := v.cs.find(v.frames[0].src.Key)
	if con == nil {
		return
	}
	for i, h := range con.AtHints[nm] {
		env := v.localEnv(st, con)
		env.fr, env.pos, env.pkg = v.frames[0], pos, v.frames[0].pkg
		v.hintIn(st, env, h, i)
	}
}

// snapped records the states before and after a call for when().
func (v *VC) snapped(st *State, name string, pos token.Pos, f func() Val) Val {
	nm := v.snapName(name, pos)
	if nm == "" {
		return f()
	}
	v.snapshot(st, nm+":pre", st.clone(), pos, Val{})
	r := f()
	v.snapshot(st, nm, st.clone(), pos, r)
	return r
}
