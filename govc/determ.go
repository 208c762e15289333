package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// A contract marked functional says that what the function returns depends
// only on its arguments: two calls with equal arguments return equal results.
// This holds for code which modifies nothing and has no source of choice;
// determinedBy checks that of the text of the function and what it calls.
func (x *Exec) determined(f *types.Func, seen map[*types.Func]bool) string {
	if seen[f] {
		return ""
	}
	seen[f] = true
	fi := x.L.Funcs[f]
	if fi == nil || fi.Decl.Body == nil {
		if f.Pkg() != nil && (f.Pkg().Path() == "math" || f.Pkg().Path() == "fmt" && f.Name() == "Sprintf") {
			return ""
		}
		return "calls " + f.FullName()
	}
	bad := ""
	info := fi.Pkg.Info
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		if bad != "" {
			return false
		}
		switch s := n.(type) {
		case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.FuncLit, *ast.DeferStmt:
			bad = "starts other work"
		case *ast.UnaryExpr:
			if s.Op == token.ARROW {
				bad = "receives"
			}
		case *ast.RangeStmt:
			switch info.TypeOf(s.X).Underlying().(type) {
			case *types.Map, *types.Chan:
				bad = "ranges over a map or channel"
			}
		case *ast.Ident:
			if v, ok := info.Uses[s].(*types.Var); ok && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				bad = "uses the variable " + v.Name()
			}
		case *ast.CallExpr:
			var id *ast.Ident
			switch c := ast.Unparen(s.Fun).(type) {
			case *ast.Ident:
				id = c
			case *ast.SelectorExpr:
				id = c.Sel
			default:
				if !info.Types[s.Fun].IsType() {
					bad = "calls a function value"
				}
				return true
			}
			switch o := info.Uses[id].(type) {
			case *types.Builtin, *types.TypeName:
			case *types.Func:
				if r := o.Type().(*types.Signature).Recv(); r != nil {
					if _, ok := r.Type().Underlying().(*types.Interface); ok {
						bad = "calls through an interface"
						return false
					}
				}
				bad = x.determined(o, seen)
			default:
				bad = "calls a function value"
			}
		}
		return true
	})
	return bad
}

// flattenAll lists everything an argument reaches, with the extents of slices.
func (x *Exec) flattenAll(st *State, v Value, out []*Term) []*Term {
	switch p := v.(type) {
	case *StructV:
		for _, f := range p.F {
			out = x.flattenAll(st, f, out)
		}
		return out
	case *SliceV:
		return append(x.flattenArg(st, p, out), p.Len)
	case *PtrV:
		if p.Obj != nil {
			return x.flattenAll(st, x.loadPtr(st, p), out)
		}
	case *Term:
		return append(out, p)
	}
	panic(unsup(x.curNode, "argument %T of a functional contract", v))
}
