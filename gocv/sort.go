package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// sortSpec describes one sort call of a function under contract.
//
//	sort N less <expr over a, b>   strict weak order on elements the comparison function decides
//	sort N keeps f                 f counts occurrences (checked to have the canonical definition)
type sortSpec struct {
	Less  *Clause
	Keeps []string
}

// sortKind: 1 = less(i, j int), 2 = cmp(a, b) int, 3 = natural order.
func sortKind(key string) int {
	switch key {
	case "sort.Slice", "sort.SliceStable":
		return 1
	case "slices.SortFunc", "slices.SortStableFunc":
		return 2
	case "slices.Sort", "sort.Strings", "sort.Ints":
		return 3
	}
	return 0
}

// sortOrdinal numbers the sort calls of the enclosing declared function in source order.
func (v *VC) sortOrdinal(pos token.Pos) int {
	src := v.top().src
	if src == nil || v.top().pseudo {
		for i := len(v.frames) - 1; i >= 0; i-- {
			f := v.frames[i]
			if f.src != nil && f.src.Decl.Pos() <= pos && pos < f.src.Decl.End() {
				src = f.src
				break
			}
		}
	}
	if src == nil {
		return -1
	}
	n := 0
	ast.Inspect(src.Decl, func(x ast.Node) bool {
		if c, ok := x.(*ast.CallExpr); ok && c.Pos() < pos {
			f := ast.Unparen(c.Fun)
			if ix, ok := f.(*ast.IndexExpr); ok {
				f = ix.X
			}
			if se, ok := f.(*ast.SelectorExpr); ok {
				if o, ok := src.Pkg.Info.Uses[se.Sel].(*types.Func); ok && sortKind(funcKey(o)) > 0 {
					n++
				}
			}
		}
		return true
	})
	return n
}

func (v *VC) enclosingContract(pos token.Pos) *Contract {
	for i := len(v.frames) - 1; i >= 0; i-- {
		f := v.frames[i]
		if f.src != nil && f.src.Decl.Pos() <= pos && pos < f.src.Decl.End() {
			return v.cs.find(f.src.Key)
		}
	}
	return nil
}

// permFacts: row1 on the n indices ix(0), ..., ix(n-1) is a permutation of row0 there. The
// permutation and its inverse are arrays, so that specifications can name them as witnesses.
func (v *VC) permFacts(row0, row1, n Term, ix func(i string) string) {
	p, q := v.fresh("sortp", "(Array Int Int)"), v.fresh("sortq", "(Array Int Int)")
	one := func(p, q, a, b Term) {
		v.item(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (and (<= 0 (select %s i)) (< (select %s i) %s) (= (select %s (select %s i)) i) (= (select %s %s) (select %s %s)))) :pattern ((select %s %s)) :pattern ((select %s i)))))",
			n.S, p.S, p.S, n.S, q.S, p.S, a.S, ix("i"), b.S, ix("(select "+p.S+" i)"), a.S, ix("i"), p.S))
	}
	one(p, q, row1, row0)
	one(q, p, row0, row1)
	v.item(fmt.Sprintf("(assert (permwit %s %s))", p.S, q.S))
}

// sortedLocal: the argument of the sort call at pos is a local variable that no other live slice
// can share (every other use of it is an append to itself, an index, a range, len or cap).
func (v *VC) sortedLocal(pos token.Pos) types.Object {
	for i := len(v.frames) - 1; i >= 0; i-- {
		f := v.frames[i]
		if f.src == nil || !(f.src.Decl.Pos() <= pos && pos < f.src.Decl.End()) {
			continue
		}
		info := f.src.Pkg.Info
		var obj types.Object
		ast.Inspect(f.src.Decl, func(x ast.Node) bool {
			if c, ok := x.(*ast.CallExpr); ok && c.Pos() == pos && len(c.Args) > 0 && obj == nil {
				if id, ok := ast.Unparen(c.Args[0]).(*ast.Ident); ok {
					obj = info.Uses[id]
				}
			}
			return true
		})
		if obj == nil || f.src.Decl.Body == nil || !(f.src.Decl.Body.Pos() <= obj.Pos() && obj.Pos() < f.src.Decl.Body.End()) {
			return nil
		}
		good := map[*ast.Ident]bool{}
		ast.Inspect(f.src.Decl, func(x ast.Node) bool {
			mark := func(e ast.Expr) {
				if id, ok := ast.Unparen(e).(*ast.Ident); ok {
					good[id] = true
				}
			}
			switch x := x.(type) {
			case *ast.IndexExpr:
				mark(x.X)
			case *ast.RangeStmt:
				mark(x.X)
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
					mark(x.Args[0])
				}
				if x.Pos() == pos {
					mark(x.Args[0])
				}
			case *ast.AssignStmt:
				if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
					if c, ok := ast.Unparen(x.Rhs[0]).(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok {
							mark(x.Lhs[0])
							if id.Name == "append" && rootObj(f.src.Pkg, x.Lhs[0]) == rootObj(f.src.Pkg, c.Args[0]) {
								mark(c.Args[0])
							} else if id.Name != "make" {
								if l, ok := ast.Unparen(x.Lhs[0]).(*ast.Ident); ok {
									delete(good, l)
								}
							}
						}
					}
				}
			}
			return true
		})
		for id, o := range info.Uses {
			if o == obj && !good[id] {
				return nil
			}
		}
		return obj
	}
	return nil
}

func (v *VC) sortCall(st *State, kind int, key string, args []Val, pos token.Pos) Val {
	x := args[0]
	if x.dyn != nil {
		x = *x.dyn
	}
	x = v.materialise(st, x)
	sl, ok := v.tsub(x.gt).Underlying().(*types.Slice)
	if !ok {
		unsup("%s of %v", key, x.gt)
	}
	el := v.tsub(sl.Elem())
	es := v.sortOf(el)
	asort := "(Array Int " + es + ")"
	con := v.enclosingContract(pos)
	var spec *sortSpec
	if con != nil {
		spec = con.Sorts[v.sortOrdinal(pos)]
	}
	if spec == nil {
		spec = &sortSpec{}
	}
	var n, off, row0 Term
	var ix func(i string) string
	var put func(s *State, row Term)
	switch {
	case strings.HasPrefix(x.t.Sort, "IS_"):
		obj := v.sortedLocal(pos)
		if obj == nil {
			unsup("%s of a value-mode slice that may be shared", key)
		}
		xt := v.def("sl", x.t)
		n, off = v.def("n", isLen(xt)), tInt(0)
		ix = func(i string) string { return i }
		row0 = v.fresh("row", asort)
		v.item(fmt.Sprintf("(assert (= %s %s))", row0.S, isArr(xt).S))
		put = func(s *State, row Term) {
			y := s.vars[obj]
			if y.boxed || y.t.Sort != xt.Sort {
				unsup("%s of a captured value-mode slice", key)
			}
			y.t = Term{fmt.Sprintf("(mk_%s %s %s (%s_nil %s))", xt.Sort, row.S, n.S, xt.Sort, xt.S), xt.Sort}
			s.vars[obj] = y
		}
	case x.t.Sort == "Slice":
		xt := v.def("sl", x.t)
		n, off = v.def("n", sLen(xt)), v.def("off", sOff(xt))
		ix = func(i string) string { return "(at " + off.S + " " + i + ")" }
		row0 = v.fresh("row", asort)
		v.item(fmt.Sprintf("(assert (= %s %s))", row0.S, tSel(v.sliceHeap(st, el), sBase(xt)).S))
		hk := v.sliceHeapKey(el)
		put = func(s *State, row Term) {
			v.item(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (not (and (<= %s i) (< i (+ %s %s)))) (= (select %s i) (select %s i))) :pattern ((select %s i)) :pattern ((select %s i)))))",
				off.S, off.S, n.S, row.S, row0.S, row.S, row0.S))
			v.setHeap(s, hk, tSto(v.sliceHeap(s, el), sBase(xt), row))
			v.recWrite(hk, sBase(x.t))
		}
	default:
		unsup("%s of sort %s", key, x.t.Sort)
	}
	sel := func(row Term, i Term) Term { return Term{"(select " + row.S + " " + ix(i.S) + ")", es} }

	pred := func(s *State, a, b Term) Term {
		if kind == 3 {
			switch es {
			case "Str":
				return app("Bool", "str_lt", a, b)
			case "Int":
				return tLt(a, b)
			}
			unsup("%s of element sort %s", key, es)
		}
		if spec.Less == nil {
			return Term{}
		}
		env := v.localEnv(s, con).bindNames(map[string]Val{"a": {t: a, gt: el}, "b": {t: b, gt: el}})
		return env.boolExpr(spec.Less.E)
	}
	// an intermediate state of the sort: some permutation of the slice
	if kind != 3 {
		if args[1].fn == nil {
			unsup("%s with an unknown comparison function", key)
		}
		s2 := st.clone()
		mid := v.fresh("rowmid", asort)
		v.permFacts(row0, mid, n, ix)
		put(s2, mid)
		i0, j0 := v.fresh("si", "Int"), v.fresh("sj", "Int")
		v.item(fmt.Sprintf("(assert (=> (< 0 %s) (and (<= 0 %s) (< %s %s) (<= 0 %s) (< %s %s))))", n.S, i0.S, i0.S, n.S, j0.S, j0.S, n.S))
		s2.pc = v.def("pc", tAnd(s2.pc, tLt(tInt(1), n)))
		ea := v.def("ea", sel(mid, i0))
		eb := v.def("eb", sel(mid, j0))
		v.assume(s2, v.tinv(s2, ea, el, 1))
		v.assume(s2, v.tinv(s2, eb, el, 1))
		var in []Val
		if kind == 1 {
			in = []Val{{t: i0, gt: types.Typ[types.Int]}, {t: j0, gt: types.Typ[types.Int]}}
		} else {
			in = []Val{{t: ea, gt: el}, {t: eb, gt: el}}
		}
		before := s2.clone()
		sig := args[1].gt.Underlying().(*types.Signature)
		r := v.callVal(s2, args[1], in, sig, pos)
		for k, h := range s2.heap {
			b, ok := before.heap[k]
			if !ok || b.S == h.S {
				continue
			}
			v.oblig(s2, "the comparison function of "+shortKey(key)+" has no side effects", pos,
				Term{fmt.Sprintf("(forall ((r Int)) (=> (< r %s) (= (select %s r) (select %s r))))", before.alloc.S, h.S, b.S), "Bool"})
		}
		for o, x := range before.vars {
			if y, ok := s2.vars[o]; ok && x.t.S != y.t.S {
				unsup("the comparison function of %s assigns %s", key, o.Name())
			}
		}
		if p := pred(before, ea, eb); p.ok() {
			if p.S != pred(st, ea, eb).S {
				unsup("sort order depends on the sorted slice itself")
			}
			less := r.t
			if kind == 2 {
				less = tLt(r.t, tInt(0))
			}
			v.oblig(s2, "the comparison function of "+shortKey(key)+" decides the stated order", pos, tEq(less, p))
			// strict weak order on the elements
			k0 := v.fresh("sk", "Int")
			ec := v.def("ec", sel(mid, k0))
			rng := tAnd(tLe(tInt(0), k0), tLt(k0, n))
			lt := func(a, b Term) Term { return pred(before, a, b) }
			v.oblig(before, "sort order is irreflexive", pos, tNot(lt(ea, ea)))
			v.oblig(before, "sort order is transitive", pos, tImp(tAnd(rng, lt(ea, eb), lt(eb, ec)), lt(ea, ec)))
			v.oblig(before, "sort order: incomparability is transitive", pos, tImp(tAnd(rng, tNot(lt(ea, eb)), tNot(lt(eb, ea)), tNot(lt(eb, ec)), tNot(lt(ec, eb))), tAnd(tNot(lt(ea, ec)), tNot(lt(ec, ea)))))
		}
	}
	row1 := v.fresh("rowsorted", asort)
	v.permFacts(row0, row1, n, ix)
	put(st, row1)
	if kind == 3 || spec.Less != nil {
		a, b := sel(row1, Term{"i", "Int"}), sel(row1, Term{"j", "Int"})
		v.item(fmt.Sprintf("(assert (forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j %s)) (not %s)) :pattern (%s %s))))", n.S, pred(st, b, a).S, a.S, b.S))
	}
	for _, f := range spec.Keeps {
		fn := v.cs.Fns[f]
		if fn == nil {
			unsup("unknown specification function %s", f)
		}
		if !canonicalCount(fn, es) {
			unsup("%s is not the canonical occurrence count", f)
		}
		v.emitFn(fn)
		name := "sf_" + fn.Name
		v.item(fmt.Sprintf("(assert (forall ((x %s)) (! (= (%s %s %s %s x) (%s %s %s %s x)) :pattern ((%s %s %s %s x)))))",
			es, name, row1.S, off.S, n.S, name, row0.S, off.S, n.S, name, row1.S, off.S, n.S))
	}
	v.trusted[key+" (built in: the slice becomes a permutation of itself ordered by the comparison function, given that this is a strict weak order)"] = true
	return Val{tuple: []Val{}}
}

func canonicalCount(fn *SpecFn, es string) bool {
	if len(fn.Params) != 4 || fn.Res != "Int" || !fn.Rec {
		return false
	}
	r, lo, n, x := fn.Params[0], fn.Params[1], fn.Params[2], fn.Params[3]
	if fn.Sorts[0] != "(Array Int "+es+")" || fn.Sorts[1] != "Int" || fn.Sorts[2] != "Int" || fn.Sorts[3] != es {
		return false
	}
	want := fmt.Sprintf("ite(%s<=0,0,%s(%s,%s,%s-1,%s)+ite(%s[%s+%s-1]==%s,1,0))", n, fn.Name, r, lo, n, x, r, lo, n, x)
	return strings.ReplaceAll(fn.Text, " ", "") == want
}
