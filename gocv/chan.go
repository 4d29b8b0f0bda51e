package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// Channels are specified by contracts: "T.field<-(v)()" or "f#x<-(v)()" for a send over a field or
// variable, "T.field->()(v, ok)" for a receive and "T.field#close()()" for closing it. The other
// side of the channel is not executed; a contract says what every sent value must satisfy and what
// a received one does.

func (v *VC) chanKey(x ast.Expr) string {
	switch x := ast.Unparen(x).(type) {
	case *ast.Ident:
		if o, ok := v.info().Uses[x].(*types.Var); ok {
			return v.declaringFunc(o) + "#" + o.Name()
		}
	case *ast.SelectorExpr:
		if sel := v.info().Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
			t, _ := deref(v.typeOf(x.X))
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + x.Sel.Name
			}
		}
	}
	return "?"
}

func (v *VC) chanElem(x ast.Expr) types.Type {
	return v.tsub(v.tsub(v.typeOf(x)).Underlying().(*types.Chan).Elem())
}

// chanAlias finds the contract of a channel held in a local variable that is another name of
// a channel under contract (x := s.field), or of a parameter that was renamed.
func (v *VC) chanAlias(x ast.Expr, op string) *Contract {
	id, ok := ast.Unparen(x).(*ast.Ident)
	if !ok {
		return nil
	}
	o, ok := v.info().Uses[id].(*types.Var)
	if !ok {
		return nil
	}
	for i := len(v.frames) - 1; i >= 0; i-- {
		f := v.frames[i].src
		if f == nil || o.Pos() < f.Decl.Pos() || f.Decl.End() <= o.Pos() {
			continue
		}
		if f.Decl.Type.Params != nil && f.Decl.Type.Params.Pos() <= o.Pos() && o.Pos() < f.Decl.Type.Params.End() {
			return v.cs.onlyChan(funcKey(f.Obj)+"#", op)
		}
		var def ast.Expr
		n := 0
		ast.Inspect(f.Decl, func(nd ast.Node) bool {
			if as, ok := nd.(*ast.AssignStmt); ok {
				for j, l := range as.Lhs {
					if li, ok := l.(*ast.Ident); ok && (v.info().Defs[li] == o || v.info().Uses[li] == o) {
						n++
						if len(as.Lhs) == len(as.Rhs) {
							def = as.Rhs[j]
						}
					}
				}
			}
			return true
		})
		if n == 1 && def != nil {
			if c := v.cs.find(v.chanKey(def) + op); c != nil {
				return c
			}
			return v.chanAlias(def, op)
		}
		return nil
	}
	return nil
}

func (v *VC) chanContract(x ast.Expr, op string) *Contract {
	k := v.chanKey(x) + op
	c := v.cs.find(k)
	if c == nil {
		c = v.chanAlias(x, op)
	}
	if c == nil {
		unsup("channel operation %s without a contract", k)
	}
	v.notes = append(v.notes, "channel "+k+": what the other side does is the contract's assumption")
	return c
}

func mkVar(t types.Type) *types.Var { return types.NewParam(token.NoPos, nil, "", t) }

func (v *VC) execSend(st *State, s *ast.SendStmt) {
	el := v.chanElem(s.Chan)
	v.eval(st, s.Chan)
	x := v.convert(st, v.eval(st, s.Value), el)
	c := v.chanContract(s.Chan, "<-")
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(mkVar(el)), nil, false)
	v.applyContract(st, c, nil, []Val{x}, sig, s.Pos(), nil)
}

func (v *VC) recv(st *State, e *ast.UnaryExpr) Val {
	el := v.chanElem(e.X)
	v.eval(st, e.X)
	c := v.chanContract(e.X, "->")
	vars := []*types.Var{mkVar(el)}
	if len(c.Results) > 1 {
		vars = append(vars, mkVar(types.Typ[types.Bool]))
	}
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(vars...), false)
	r := v.applyContract(st, c, nil, nil, sig, e.Pos(), nil)
	if _, ok := v.typeOf(e).(*types.Tuple); !ok && len(vars) > 1 {
		return r.tuple[0]
	} else if ok && len(vars) == 1 {
		unsup("receive with ok, contract without it")
	}
	return r
}

func (v *VC) closeChan(st *State, x ast.Expr) {
	v.eval(st, x)
	c := v.chanContract(x, "#close")
	sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	v.applyContract(st, c, nil, nil, sig, x.Pos(), nil)
}
