package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// Fork-join: "go func(..){..}(..)" (or wg.Go(func(){..})) inside a function that later calls Wait on
// the WaitGroup the goroutine signals. The body is executed at the statement. That is one of the
// schedules; it stands for all of them because the goroutines do not interfere, of which the
// syntactic part is checked here: outside its own variables a goroutine assigns only to elements
// indexed by a variable of its own (a parameter, or the per-iteration variable of an enclosing
// loop). The rest (calls it makes do not interfere, the spawning loop uses distinct indices, the
// results are not read before Wait) is a listed assumption.
func (v *VC) execGo(st *State, s *ast.GoStmt) {
	lit, ok := ast.Unparen(s.Call.Fun).(*ast.FuncLit)
	if !ok {
		unsup("go statement that does not start a function literal")
	}
	v.checkFork(lit, s.Pos(), s.End(), false)
	v.evalCall(st, s.Call)
}

func isWG(t types.Type) bool {
	if t == nil {
		return false
	}
	x, _ := deref(t)
	n, ok := x.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "WaitGroup"
}

func (v *VC) checkFork(lit *ast.FuncLit, start, end token.Pos, viaGo bool) {
	fr := v.top()
	var body *ast.BlockStmt
	if fr.lit != nil {
		body = fr.lit.Body
	} else if fr.src != nil {
		body = fr.src.Decl.Body
	} else {
		unsup("go statement here")
	}
	info := v.info()
	wgCall := func(n ast.Node, name string) types.Object {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return nil
		}
		f, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		if !ok || f.Sel.Name != name || !isWG(info.TypeOf(f.X)) {
			return nil
		}
		id, ok := ast.Unparen(f.X).(*ast.Ident)
		if !ok {
			return nil
		}
		return info.ObjectOf(id)
	}
	done := map[types.Object]bool{}
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		if d, ok := n.(*ast.DeferStmt); ok {
			if o := wgCall(d.Call, "Done"); o != nil {
				done[o] = true
			}
		}
		return true
	})
	waited := false
	ast.Inspect(body, func(n ast.Node) bool {
		if n == nil {
			return true
		}
		if o := wgCall(n, "Wait"); o != nil && n.Pos() > end && (viaGo || done[o]) {
			waited = true
		}
		return true
	})
	if !waited {
		unsup("a goroutine that is not awaited by WaitGroup.Wait")
	}
	// variables declared outside the loop body that starts the goroutine are shared
	var inner token.Pos = body.Pos()
	ast.Inspect(body, func(n ast.Node) bool {
		switch l := n.(type) {
		case *ast.ForStmt:
			if l.Pos() <= start && end <= l.End() {
				inner = l.Pos()
			}
		case *ast.RangeStmt:
			if l.Pos() <= start && end <= l.End() {
				inner = l.Pos()
			}
		}
		return true
	})
	own := func(o types.Object) bool { return o != nil && o.Pos() >= inner && o.Pos() < end }
	inside := func(o types.Object) bool { return o != nil && o.Pos() >= lit.Pos() && o.Pos() < lit.End() }
	var okTarget func(e ast.Expr) bool
	okTarget = func(e ast.Expr) bool {
		switch x := ast.Unparen(e).(type) {
		case *ast.Ident:
			return x.Name == "_" || inside(info.ObjectOf(x)) || own(info.ObjectOf(x)) && inner != body.Pos()
		case *ast.IndexExpr:
			if id, ok := ast.Unparen(x.Index).(*ast.Ident); ok && own(info.ObjectOf(id)) {
				return true
			}
			return okTarget(x.X)
		case *ast.SelectorExpr:
			return okTarget(x.X)
		}
		return false
	}
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if !okTarget(l) {
					unsup("a goroutine that writes shared memory other than its own element")
				}
			}
		case *ast.IncDecStmt:
			if !okTarget(s.X) {
				unsup("a goroutine that writes shared memory other than its own element")
			}
		case *ast.SendStmt:
			unsup("a goroutine that sends on a channel")
		case *ast.UnaryExpr:
			if s.Op == token.ARROW {
				unsup("a goroutine that receives from a channel")
			}
		}
		return true
	})
	v.notes = append(v.notes, "fork-join: goroutines that only write their own elements and are awaited by WaitGroup.Wait run at the statement that starts them (they do not interfere)")
}
