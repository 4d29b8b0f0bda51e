package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Binary searches are built in:
//
//	search N before <expr over a, b>   slices.BinarySearchFunc: element a lies before target b
//	search N before <expr over i>      sort.Search: the predicate is false at index i
//
// Obligations: the comparison function decides the stated relation, and the indices for which it
// holds are a prefix of the searched range. Then the result is the length of that prefix.
func searchKind(key string) int {
	switch key {
	case "slices.BinarySearchFunc":
		return 1
	case "sort.Search":
		return 2
	}
	return 0
}

func (v *VC) searchOrdinal(pos token.Pos) int {
	for i := len(v.frames) - 1; i >= 0; i-- {
		f := v.frames[i]
		if f.src == nil || !(f.src.Decl.Pos() <= pos && pos < f.src.Decl.End()) {
			continue
		}
		n := 0
		ast.Inspect(f.src.Decl, func(x ast.Node) bool {
			if c, ok := x.(*ast.CallExpr); ok && c.Pos() < pos {
				fn := ast.Unparen(c.Fun)
				if ix, ok := fn.(*ast.IndexExpr); ok {
					fn = ix.X
				}
				if se, ok := fn.(*ast.SelectorExpr); ok {
					if o, ok := f.src.Pkg.Info.Uses[se.Sel].(*types.Func); ok && searchKind(funcKey(o)) > 0 {
						n++
					}
				}
			}
			return true
		})
		return n
	}
	return -1
}

func (v *VC) searchCall(st *State, kind int, key string, args []Val, pos token.Pos) Val {
	con := v.enclosingContract(pos)
	var before *Clause
	if con != nil {
		before = con.Searches[v.searchOrdinal(pos)]
	}
	fnv := args[len(args)-1]
	if fnv.fn == nil {
		unsup("%s with an unknown comparison function", key)
	}
	var n Term
	var elem func(i Term) Term
	var el types.Type
	if kind == 1 {
		x := args[0]
		if x.dyn != nil {
			x = *x.dyn
		}
		x = v.materialise(st, x)
		sl, ok := v.tsub(x.gt).Underlying().(*types.Slice)
		if !ok {
			unsup("%s of %v", key, x.gt)
		}
		el = v.tsub(sl.Elem())
		es := v.sortOf(el)
		switch {
		case strings.HasPrefix(x.t.Sort, "IS_"):
			xt := v.def("sl", x.t)
			n = v.def("n", isLen(xt))
			elem = func(i Term) Term { return Term{"(select " + isArr(xt).S + " " + i.S + ")", es} }
		case x.t.Sort == "Slice":
			xt := v.def("sl", x.t)
			n = v.def("n", sLen(xt))
			off := v.def("off", sOff(xt))
			row := v.def("row", tSel(v.sliceHeap(st, el), sBase(xt)))
			elem = func(i Term) Term { return Term{"(select " + row.S + " (at " + off.S + " " + i.S + "))", es} }
		default:
			unsup("%s of sort %s", key, x.t.Sort)
		}
	} else {
		n = v.def("n", args[0].t)
	}
	sig := fnv.gt.Underlying().(*types.Signature)
	// eval: is index i before the result, in a copy of the state restricted to lo <= i < n
	eval := func(i Term) (in *State, r Term) {
		s2 := st.clone()
		s2.pc = v.def("pc", tAnd(s2.pc, tLe(tInt(0), i), tLt(i, n)))
		var in2 []Val
		if kind == 1 {
			e := v.def("ea", elem(i))
			v.assume(s2, v.tinv(s2, e, el, 1))
			in2 = []Val{{t: e, gt: el}, args[1]}
		} else {
			in2 = []Val{{t: i, gt: types.Typ[types.Int]}}
		}
		pre := s2.clone()
		rv := v.callVal(s2, fnv, in2, sig, pos)
		for k, h := range s2.heap {
			b, ok := pre.heap[k]
			if !ok || b.S == h.S {
				continue
			}
			v.oblig(s2, "the comparison function of "+shortKey(key)+" has no side effects", pos,
				Term{fmt.Sprintf("(forall ((r Int)) (=> (< r %s) (= (select %s r) (select %s r))))", pre.alloc.S, h.S, b.S), "Bool"})
		}
		for o, x := range pre.vars {
			if y, ok := s2.vars[o]; ok && x.t.S != y.t.S {
				unsup("the comparison function of %s assigns %s", key, o.Name())
			}
		}
		return s2, rv.t
	}
	pred := func(i Term) Term {
		b := map[string]Val{}
		if kind == 1 {
			b["a"] = Val{t: elem(i), gt: el}
			b["b"] = args[1]
		} else {
			b["i"] = Val{t: i, gt: types.Typ[types.Int]}
		}
		return v.localEnv(st, con).bindNames(b).boolExpr(before.E)
	}
	idx := v.fresh("idx", "Int")
	v.assume(st, tAnd(tLe(tInt(0), idx), tLe(idx, n)))
	if before != nil {
		h := v.fresh("h", "Int")
		s2, r := eval(h)
		isBefore := tNot(r)
		if kind == 1 {
			isBefore = tLt(r, tInt(0))
		}
		v.oblig(s2, "the comparison function of "+shortKey(key)+" decides the stated order", pos, tEq(isBefore, pred(h)))
		g := v.fresh("h", "Int")
		v.oblig(st, "the searched range is ordered as "+shortKey(key)+" needs it", pos,
			tImp(tAnd(tLe(tInt(0), g), tLt(g, h), tLt(h, n), pred(h)), pred(g)))
		i := Term{"i", "Int"}
		pat := ""
		if kind == 1 {
			pat = " :pattern (" + elem(i).S + ")"
			v.assume(st, Term{fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (< i %s) %s))%s))", n.S, idx.S, pred(i).S, pat), "Bool"})
		} else {
			v.assume(st, Term{fmt.Sprintf("(forall ((i Int)) (=> (and (<= 0 i) (< i %s)) (= (< i %s) %s)))", n.S, idx.S, pred(i).S), "Bool"})
		}
		v.assume(st, tImp(tLt(tInt(0), idx), pred(v.def("im", tSub(idx, tInt(1))))))
		v.assume(st, tImp(tLt(idx, n), tNot(pred(idx))))
	} else {
		// what any binary search guarantees: the neighbours of the result
		_, r := eval(v.def("im", tSub(idx, tInt(1))))
		_, q := eval(idx)
		lt := func(t Term) Term {
			if kind == 1 {
				return tLt(t, tInt(0))
			}
			return tNot(t)
		}
		v.assume(st, tImp(tLt(tInt(0), idx), lt(r)))
		v.assume(st, tImp(tLt(idx, n), tNot(lt(q))))
	}
	v.trusted[key+" (built in: the result is the length of the prefix of elements that lie before the target)"] = true
	if kind == 2 {
		return Val{t: idx, gt: types.Typ[types.Int]}
	}
	_, q := eval(idx)
	found := v.fresh("found", "Bool")
	v.assume(st, tEq(found, tAnd(tLt(idx, n), tEq(q, tInt(0)))))
	return Val{tuple: []Val{{t: idx, gt: types.Typ[types.Int]}, {t: found, gt: types.Typ[types.Bool]}}}
}
