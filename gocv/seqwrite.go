package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// In values mode slices are values. A slice variable may nevertheless be written element by
// element while the function is the only one that can reach its elements: every value assigned to
// it is made in place (make, append to itself, a literal, a conversion), and it is copied, passed
// on or stored only after the last write to its elements.

func (v *VC) ownedSeq(o *types.Var) string {
	if r, ok := v.owned[o]; ok {
		return r
	}
	r := v.ownedSeq1(o)
	if v.owned == nil {
		v.owned = map[*types.Var]string{}
	}
	v.owned[o] = r
	return r
}

func isBuiltin(pk *Pkg, e ast.Expr, names ...string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := pk.Info.Uses[id].(*types.Builtin)
	if !ok {
		return false
	}
	for _, n := range names {
		if b.Name() == n {
			return true
		}
	}
	return false
}

// freshBeforeWrites: every write to an element of the variable follows, in the same block, an
// assignment of a slice just made, with nothing but such writes in between: whatever the variable
// held before or is given later, only the function reaches what is written.
func freshBeforeWrites(pk *Pkg, decl *ast.FuncDecl, is func(ast.Expr) bool) bool {
	uses := func(n ast.Node) int {
		k := 0
		ast.Inspect(n, func(n ast.Node) bool {
			if e, ok := n.(*ast.Ident); ok && is(e) {
				k++
			}
			return true
		})
		return k
	}
	isWrite := func(s ast.Stmt) bool { // o[i] = e, e without o
		a, ok := s.(*ast.AssignStmt)
		if !ok || a.Tok != token.ASSIGN || len(a.Lhs) != 1 {
			return false
		}
		ix, ok := a.Lhs[0].(*ast.IndexExpr)
		return ok && is(ix.X) && uses(s) == 1
	}
	isMake := func(s ast.Stmt) bool {
		a, ok := s.(*ast.AssignStmt)
		if !ok || len(a.Lhs) != 1 || len(a.Rhs) != 1 || !is(a.Lhs[0]) || uses(s) != 1 {
			return false
		}
		c, ok := a.Rhs[0].(*ast.CallExpr)
		return ok && isBuiltin(pk, c.Fun, "make")
	}
	good := map[ast.Stmt]bool{}
	block := func(l []ast.Stmt) {
		fresh := false
		for _, s := range l {
			switch {
			case isMake(s):
				fresh = true
			case fresh && isWrite(s):
				good[s] = true
			case uses(s) > 0:
				fresh = false
			}
		}
	}
	ast.Inspect(decl.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			block(n.List)
		case *ast.CaseClause:
			block(n.Body)
		case *ast.CommClause:
			block(n.Body)
		}
		return true
	})
	ok := true
	under := func(e ast.Expr) bool { // some part of an element of o is assigned
		for {
			switch x := e.(type) {
			case *ast.IndexExpr:
				if is(x.X) {
					return true
				}
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			default:
				return is(e)
			}
		}
	}
	ast.Inspect(decl.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if !is(l) && under(l) && !good[n] {
					ok = false
				}
			}
		case *ast.IncDecStmt:
			ok = ok && !under(n.X)
		case *ast.UnaryExpr:
			ok = ok && !(n.Op == token.AND && under(n.X))
		case *ast.RangeStmt:
			ok = ok && !(n.Tok == token.ASSIGN && (n.Key != nil && under(n.Key) || n.Value != nil && under(n.Value)))
		case *ast.CallExpr:
			if isBuiltin(pk, n.Fun, "copy", "append", "clear") && uses(n) > 0 {
				ok = false
			}
		case *ast.FuncLit:
			ok = ok && uses(n) == 0
		}
		return true
	})
	return ok
}

// ownedSeq1 gives the reason why o may not be written, or "".
func (v *VC) ownedSeq1(o *types.Var) string {
	pk := v.top().pkg
	var decl *ast.FuncDecl
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Pos() <= o.Pos() && o.Pos() < fd.Body.End() {
				decl = fd
			}
		}
	}
	if decl == nil {
		return "it is not a local variable"
	}
	is := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return ok && (pk.Info.Uses[id] == o || pk.Info.Defs[id] == o)
	}
	if freshBeforeWrites(pk, decl, is) {
		return ""
	}
	if o.Pos() < decl.Body.Pos() {
		return "it is not a local variable"
	}
	okInit := func(e ast.Expr) bool {
		switch e := e.(type) {
		case *ast.CompositeLit:
			return true
		case *ast.Ident:
			return e.Name == "nil"
		case *ast.CallExpr:
			if isBuiltin(pk, e.Fun, "make") {
				return true
			}
			if isBuiltin(pk, e.Fun, "append") {
				return is(e.Args[0])
			}
			if tv, ok := pk.Info.Types[e.Fun]; ok && tv.IsType() {
				// a conversion that copies
				b, ok := v.typeOf(e.Args[0]).Underlying().(*types.Basic)
				return ok && b.Info()&types.IsString != 0
			}
		}
		return false
	}
	why := ""
	var writes, escapes []ast.Node
	var stack []ast.Node
	paths := map[ast.Node][]ast.Node{} // enclosing loops
	loops := func() []ast.Node {
		var l []ast.Node
		for _, n := range stack {
			switch n.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				l = append(l, n)
			}
		}
		return l
	}
	ast.Inspect(decl.Body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		id, ok := n.(*ast.Ident)
		if !ok || !is(id) {
			return true
		}
		for _, s := range stack {
			if _, ok := s.(*ast.FuncLit); ok {
				why = "it is used in a function literal"
			}
		}
		par := stack[len(stack)-2]
		gp := stack[len(stack)-3]
		switch p := par.(type) {
		case *ast.IndexExpr:
			if p.X != ast.Expr(id) {
				return true
			}
			// the outermost place this element is part of
			k := len(stack) - 3
			top := ast.Node(p)
			deref := false
			for ; k >= 0; k-- {
				switch q := stack[k].(type) {
				case *ast.SelectorExpr, *ast.ParenExpr:
					top = q
					continue
				case *ast.IndexExpr:
					if q.X == top.(ast.Expr) {
						top = q
						continue
					}
				case *ast.StarExpr:
					deref = true
				}
				break
			}
			switch q := stack[k].(type) {
			case *ast.UnaryExpr:
				if q.Op == token.AND {
					why = "the address of an element is taken"
				}
			case *ast.AssignStmt:
				for _, l := range q.Lhs {
					if l == top && !deref {
						writes = append(writes, top)
						paths[top] = loops()
					}
				}
			case *ast.IncDecStmt:
				writes = append(writes, top)
				paths[top] = loops()
			case *ast.SliceExpr:
				if _, ok := v.typeOf(q.X).Underlying().(*types.Array); ok {
					why = "an element is sliced"
				}
			case *ast.RangeStmt:
				if q.Key == top || q.Value == top {
					why = "an element is a loop variable"
				}
			case *ast.CallExpr:
				if q.Fun == top {
					why = "a method of an element is called"
				}
			}
			return true
		case *ast.CallExpr:
			if isBuiltin(pk, p.Fun, "len", "cap") {
				return true
			}
			if isBuiltin(pk, p.Fun, "append") {
				if p.Args[0] == ast.Expr(id) {
					if a, ok := gp.(*ast.AssignStmt); ok && len(a.Lhs) == 1 && is(a.Lhs[0]) {
						return true
					}
				} else if p.Ellipsis != token.NoPos {
					return true
				}
			}
			if isBuiltin(pk, p.Fun, "copy") && p.Args[1] == ast.Expr(id) {
				return true
			}
			if tv, ok := pk.Info.Types[p.Fun]; ok && tv.IsType() {
				if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					return true
				}
			}
		case *ast.RangeStmt:
			if p.X == ast.Expr(id) && (p.Value == nil || isBlank(p.Value)) {
				return true
			}
			if p.X == ast.Expr(id) {
				// the elements are read while the loop runs
				paths[id] = append(loops(), p)
				escapes = append(escapes, id)
				return true
			}
			why = "it is a loop variable"
		case *ast.ReturnStmt:
			return true
		case *ast.BinaryExpr:
			return true
		case *ast.UnaryExpr:
			if p.Op == token.AND {
				why = "its address is taken"
			}
		case *ast.AssignStmt:
			for i, l := range p.Lhs {
				if l == ast.Expr(id) {
					if len(p.Lhs) != len(p.Rhs) || !okInit(p.Rhs[i]) {
						why = "it is assigned a slice made elsewhere"
					}
					return true
				}
			}
		case *ast.ValueSpec:
			for i, l := range p.Names {
				if l == id {
					if len(p.Values) > 0 && (len(p.Values) != len(p.Names) || !okInit(p.Values[i])) {
						why = "it is assigned a slice made elsewhere"
					}
					return true
				}
			}
		}
		paths[id] = loops()
		escapes = append(escapes, id)
		return true
	})
	if why != "" {
		return why
	}
	for _, e := range escapes {
		for _, w := range writes {
			if e.Pos() < w.Pos() {
				return "it is passed on before its last write"
			}
			for _, l := range paths[e] {
				for _, m := range paths[w] {
					// in one loop: only if every iteration has its own variable
					if l == m && !(l.Pos() <= o.Pos() && o.Pos() < l.End()) {
						return "it is passed on in a loop that writes it"
					}
				}
			}
		}
	}
	return ""
}

// seqElemLV: the lvalue of element i of an owned slice value.
func (v *VC) seqElemLV(st *State, x ast.Expr, s Val, i Val, el types.Type, pos token.Pos) *LVal {
	id, ok := x.(*ast.Ident)
	if !ok {
		unsup("write to immutable slice")
	}
	o, _ := v.info().Uses[id].(*types.Var)
	if o == nil {
		unsup("write to immutable slice")
	}
	if why := v.ownedSeq(o); why != "" {
		unsup("write to immutable slice %s: %s", o.Name(), why)
	}
	v.boundsCheck(st, i.t, v.seqLen(s.t), pos)
	return &LVal{kind: lvSeqElem, obj: o, parent: &LVal{kind: lvVar, obj: o, gt: o.Type()}, idx: v.def("i", i.t), gt: el}
}

func (v *VC) seqLen(s Term) Term {
	if s.Sort == "IBytes" {
		return app("Int", "slen", app("Str", "ib_str", s))
	}
	return app("Int", s.Sort+"_len", s)
}

func (v *VC) seqGet(s, i Term, el types.Type) Term {
	if s.Sort == "IBytes" {
		return app("Int", "sat", app("Str", "ib_str", s), i)
	}
	return tSel(Term{"(" + s.Sort + "_arr " + s.S + ")", "(Array Int " + v.sortOf(el) + ")"}, i)
}

func (v *VC) seqSet(s, i, x Term) Term {
	if s.Sort == "IBytes" {
		return Term{"(mk_ib (supd (ib_str " + s.S + ") " + i.S + " " + x.S + ") (ib_nil " + s.S + "))", "IBytes"}
	}
	return Term{"(mk_" + s.Sort + " (store (" + s.Sort + "_arr " + s.S + ") " + i.S + " " + x.S + ") (" + s.Sort + "_len " + s.S + ") (" + s.Sort + "_nil " + s.S + "))", s.Sort}
}

// keepsLen: the loop changes the slice value only element by element.
func keepsLen(pk *Pkg, n ast.Node, o types.Object, sort string) bool {
	if sort != "IBytes" && !strings.HasPrefix(sort, "IS_") {
		return false
	}
	r := true
	ast.Inspect(n, func(x ast.Node) bool {
		if a, ok := x.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				if id, ok := l.(*ast.Ident); ok && (pk.Info.Uses[id] == o || pk.Info.Defs[id] == o) {
					r = false
				}
			}
		}
		if d, ok := x.(*ast.ValueSpec); ok {
			for _, id := range d.Names {
				if pk.Info.Defs[id] == o {
					r = false
				}
			}
		}
		if d, ok := x.(*ast.RangeStmt); ok {
			for _, l := range []ast.Expr{d.Key, d.Value} {
				if id, ok := l.(*ast.Ident); ok && (pk.Info.Uses[id] == o || pk.Info.Defs[id] == o) {
					r = false
				}
			}
		}
		return true
	})
	return r
}

// isSeqSort: slices as values.
func isSeqSort(sort string) bool { return sort == "IBytes" || strings.HasPrefix(sort, "IS_") }
