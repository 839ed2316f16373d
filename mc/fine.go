package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Plain accesses.  Statements that read or write memory which other goroutines
// may reach without going through a synchronisation operation get a call of
// rt.Fine before them, and read-modify-write statements one between the read
// and the write.  The calls do nothing except in jobs that explore plain
// accesses as scheduling points.

// fineInfo is what one package says about its variables.
type fineInfo struct {
	mutated  map[types.Object]bool // assigned (or address taken) outside their declaration
	captured map[types.Object]bool // local variables used by a function literal that does not declare them
}

func newFineInfo(files []*ast.File, info *types.Info) *fineInfo {
	fi := &fineInfo{mutated: map[types.Object]bool{}, captured: map[types.Object]bool{}}
	mark := func(e ast.Expr) {
		for {
			switch x := unparen(e).(type) {
			case *ast.Ident:
				if o := info.Uses[x]; o != nil {
					fi.mutated[o] = true
				}
				return
			case *ast.SelectorExpr:
				if o := info.Uses[x.Sel]; o != nil {
					fi.mutated[o] = true
				}
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.StarExpr:
				return
			default:
				return
			}
		}
	}
	var lits []*ast.FuncLit
	for _, f := range files {
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				if _, ok := stack[len(stack)-1].(*ast.FuncLit); ok {
					lits = lits[:len(lits)-1]
				}
				stack = stack[:len(stack)-1]
				return true
			}
			stack = append(stack, n)
			switch n := n.(type) {
			case *ast.FuncLit:
				lits = append(lits, n)
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					for _, l := range n.Lhs {
						mark(l)
					}
				} else {
					for _, l := range n.Lhs {
						if id, ok := l.(*ast.Ident); ok && info.Defs[id] == nil {
							mark(l)
						}
					}
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					if n.Key != nil {
						mark(n.Key)
					}
					if n.Value != nil {
						mark(n.Value)
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.Ident:
				if v, ok := info.Uses[n].(*types.Var); ok && !v.IsField() && len(lits) > 0 {
					l := lits[len(lits)-1]
					if v.Pos() < l.Pos() || v.Pos() >= l.End() {
						fi.captured[v] = true
					}
				}
			}
			return true
		})
	}
	return fi
}

// syncType reports whether values of t are synchronisation objects.
func syncType(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

// sharedVar: a variable other goroutines may see change.
func (r *rewriter) sharedVar(id *ast.Ident) bool {
	v, ok := r.info.Uses[id].(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		if v.Pkg() != r.pkg {
			return true
		}
		return r.fine.mutated[v]
	}
	return r.fine.captured[v] && r.fine.mutated[v]
}

// reads reports whether evaluating e reads shared memory.
func (r *rewriter) reads(e ast.Expr) bool {
	switch x := e.(type) {
	case nil:
		return false
	case *ast.ParenExpr:
		return r.reads(x.X)
	case *ast.Ident:
		return r.sharedVar(x) && !syncType(r.typeOf(x))
	case *ast.SelectorExpr:
		sel, ok := r.info.Selections[x]
		if !ok { // qualified identifier
			return r.sharedVar(x.Sel) && !syncType(r.typeOf(x))
		}
		if sel.Kind() != types.FieldVal {
			// method value: the receiver is evaluated
			if f, ok := sel.Obj().(*types.Func); ok {
				if sig, ok := f.Type().(*types.Signature); ok && sig.Recv() != nil && isPtr(sig.Recv().Type()) && !isPtr(r.typeOf(x.X)) {
					return r.addr(x.X)
				}
			}
			return r.reads(x.X)
		}
		if syncType(r.typeOf(x)) {
			return r.addr(x)
		}
		f := sel.Obj()
		mutable := f.Exported() || f.Pkg() != r.pkg || r.fine.mutated[f]
		if sel.Indirect() || isPtr(r.typeOf(x.X)) {
			return mutable || r.reads(x.X)
		}
		return r.inShared(x.X) && mutable || r.addr(x.X)
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t == nil {
			return false
		}
		if r.reads(x.Index) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer:
			if syncType(r.typeOf(x)) {
				return r.reads(x.X)
			}
			return true
		case *types.Array:
			_ = u
			return r.inShared(x.X) || r.reads(x.X)
		}
		return r.reads(x.X)
	case *ast.SliceExpr:
		return r.reads(x.X) || r.reads(x.Low) || r.reads(x.High) || r.reads(x.Max)
	case *ast.StarExpr:
		if tv, ok := r.info.Types[x]; ok && tv.IsType() {
			return false
		}
		return true
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return r.addr(x.X)
		}
		return r.reads(x.X)
	case *ast.BinaryExpr:
		return r.reads(x.X) || r.reads(x.Y)
	case *ast.TypeAssertExpr:
		return r.reads(x.X)
	case *ast.CompositeLit:
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				el = kv.Value
			}
			if r.reads(el) {
				return true
			}
		}
		return false
	case *ast.CallExpr:
		if r.isBuiltin(x.Fun, "delete") || r.isBuiltin(x.Fun, "clear") {
			return true
		}
		if tv, ok := r.info.Types[x.Fun]; ok && !tv.IsType() && r.reads(x.Fun) {
			return true
		}
		for _, a := range x.Args {
			if r.reads(a) {
				return true
			}
		}
		return false
	}
	return false
}

// addr reports whether computing the address of e reads shared memory.
func (r *rewriter) addr(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		if _, ok := r.info.Selections[x]; !ok {
			return false
		}
		if isPtr(r.typeOf(x.X)) {
			return r.reads(x.X)
		}
		return r.addr(x.X)
	case *ast.IndexExpr:
		if t := r.typeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return r.addr(x.X) || r.reads(x.Index)
			}
		}
		return r.reads(x.X) || r.reads(x.Index)
	case *ast.StarExpr:
		return r.reads(x.X)
	case *ast.Ident:
		return false
	}
	return r.reads(unparen(e))
}

// inShared reports whether the value e (not a pointer) lies in shared memory.
func (r *rewriter) inShared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		return r.sharedVar(x)
	case *ast.SelectorExpr:
		if sel, ok := r.info.Selections[x]; !ok {
			return r.sharedVar(x.Sel)
		} else if sel.Indirect() || isPtr(r.typeOf(x.X)) {
			return true
		}
		return r.inShared(x.X)
	case *ast.IndexExpr:
		if t := r.typeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return r.inShared(x.X)
			}
		}
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

// target reports whether assigning to e writes shared memory.
func (r *rewriter) target(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		return r.sharedVar(x)
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return r.inShared(x) || r.addr(x)
	}
	return false
}

// sharedStmt reports whether the statement itself (not the blocks inside it)
// touches shared memory.
func (r *rewriter) sharedStmt(s ast.Stmt) bool {
	exprs := func(es ...ast.Expr) bool {
		for _, e := range es {
			if e != nil && r.reads(e) {
				return true
			}
		}
		return false
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, l := range s.Lhs {
			if s.Tok != token.DEFINE && r.target(l) {
				return true
			}
		}
		return exprs(s.Rhs...)
	case *ast.IncDecStmt:
		return r.target(s.X)
	case *ast.ExprStmt:
		return exprs(s.X)
	case *ast.ReturnStmt:
		return exprs(s.Results...)
	case *ast.IfStmt:
		if s.Init != nil && r.sharedStmt(s.Init) || exprs(s.Cond) {
			return true
		}
		if e, ok := s.Else.(*ast.IfStmt); ok {
			return r.sharedStmt(e)
		}
	case *ast.SwitchStmt:
		return s.Init != nil && r.sharedStmt(s.Init) || s.Tag != nil && exprs(s.Tag)
	case *ast.TypeSwitchStmt:
		return s.Init != nil && r.sharedStmt(s.Init) || r.sharedStmt(s.Assign)
	case *ast.ForStmt:
		return s.Init != nil && r.sharedStmt(s.Init) || s.Cond != nil && exprs(s.Cond)
	case *ast.RangeStmt:
		if exprs(s.X) {
			return true
		}
		if t := r.typeOf(s.X); t != nil {
			if _, ok := t.Underlying().(*types.Map); ok {
				return true
			}
		}
	case *ast.SendStmt:
		return exprs(s.Chan, s.Value)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok && exprs(vs.Values...) {
					return true
				}
			}
		}
	case *ast.LabeledStmt:
		return r.sharedStmt(s.Stmt)
	}
	return false
}

func (r *rewriter) fineList(list []ast.Stmt) {
	if r.fine == nil {
		return
	}
	for _, s := range list {
		if r.sharedStmt(s) {
			r.ins(s.Pos(), r.sh("rt")+".Fine(); ")
		}
	}
}

// plainLHS: evaluating e twice is harmless.
func plainLHS(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.TypeAssertExpr, *ast.CompositeLit:
			ok = false
		}
		return ok
	})
	return ok
}

// fineAssign splits a read-modify-write of shared memory; it reports whether it
// produced all edits of the statement.
func (r *rewriter) fineAssign(n *ast.AssignStmt) bool {
	if r.fine == nil || len(n.Lhs) != 1 || len(n.Rhs) != 1 || n.Tok == token.DEFINE || !r.target(n.Lhs[0]) {
		return false
	}
	l := n.Lhs[0]
	if n.Tok != token.ASSIGN {
		if !plainLHS(l) {
			return false
		}
		op := strings.TrimSuffix(n.Tok.String(), "=")
		t := r.text(l)
		r.walk(l)
		r.rep(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), "= "+r.sh("rt")+".FineV("+t+") "+op+" (")
		r.walk(n.Rhs[0])
		r.ins(n.Rhs[0].End(), ")")
		return true
	}
	tv, ok := r.info.Types[n.Rhs[0]]
	if !ok || tv.Value != nil || tv.IsNil() || tv.Type == nil || !r.reads(n.Rhs[0]) {
		return false
	}
	lt := r.typeOf(l)
	if lt == nil || !types.Identical(lt, tv.Type) {
		return false
	}
	if _, ok := tv.Type.(*types.Basic); !ok {
		if _, ok := unparen(n.Rhs[0]).(*ast.BinaryExpr); ok {
			return false // could be untyped
		}
	}
	r.walk(l)
	r.ins(n.Rhs[0].Pos(), r.sh("rt")+".FineV(")
	r.walk(n.Rhs[0])
	r.ins(n.Rhs[0].End(), ")")
	return true
}

func (r *rewriter) fineIncDec(n *ast.IncDecStmt) bool {
	if r.fine == nil || !r.target(n.X) || !plainLHS(n.X) {
		return false
	}
	t := r.text(n.X)
	r.walk(n.X)
	op := "+"
	if n.Tok == token.DEC {
		op = "-"
	}
	r.rep(n.TokPos, n.TokPos+2, " = "+r.sh("rt")+".FineV("+t+") "+op+" 1")
	return true
}
