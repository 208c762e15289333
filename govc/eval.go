package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func (x *Exec) cond(fr *Frame, st *State, e ast.Expr) *Term {
	v := x.eval(fr, st, e)
	t, ok := v.(*Term)
	if !ok {
		panic(unsup(e, "condition of type %T", v))
	}
	return t
}

func (x *Exec) eval(fr *Frame, st *State, e ast.Expr) Value {
	if tv, ok := fr.pkg.Info.Types[e]; ok && tv.Value != nil {
		return x.constVal(fr, e, tv)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.eval(fr, st, e.X)
	case *ast.Ident:
		return x.evalIdent(fr, st, e)
	case *ast.FuncLit:
		sig, _ := x.typeOf(fr, e).(*types.Signature)
		// captured variables outlive their scope
		for f := fr; f != nil; f = f.up {
			for _, o := range f.vars {
				o.Escaped = true
			}
		}
		return &FuncV{Lit: e, Env: fr, Sig: sig}
	case *ast.SelectorExpr:
		return x.evalSelector(fr, st, e)
	case *ast.IndexExpr:
		return x.evalIndex(fr, st, e)
	case *ast.SliceExpr:
		return x.evalSlice(fr, st, e)
	case *ast.StarExpr:
		p := x.eval(fr, st, e.X)
		x.safety(fr, st, notNil(p), "nil", e)
		return x.loadPtr(st, p)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			p := x.addr(fr, st, e.X)
			mapPtr(p, func(p *PtrV) Value {
				if p.Obj != nil {
					p.Obj.Escaped = true
				}
				return p
			})
			return p
		case token.NOT:
			return Not(x.cond(fr, st, e.X))
		case token.SUB:
			v := x.eval(fr, st, e.X).(*Term)
			if v.S.K == KBV {
				return BV("bvneg", v.S, v)
			}
			return Neg(v)
		case token.ADD:
			return x.eval(fr, st, e.X)
		case token.XOR:
			v := x.eval(fr, st, e.X).(*Term)
			if v.S.K == KBV {
				return BV("bvnot", v.S, v)
			}
			return Sub(Int(-1), v)
		}
		panic(unsup(e, "unary %v", e.Op))
	case *ast.BinaryExpr:
		return x.evalBinary(fr, st, e)
	case *ast.CallExpr:
		r := x.evalCall(fr, st, e)
		if t, ok := r.(*TupleV); ok && len(t.V) == 1 {
			return t.V[0]
		}
		return r
	case *ast.CompositeLit:
		return x.evalLit(fr, st, e, x.typeOf(fr, e))
	case *ast.TypeAssertExpr:
		v, ok := x.typeAssert(fr, st, e)
		x.safety(fr, st, ok, "type assertion", e)
		return v
	}
	panic(unsup(e, "expression %T", e))
}

func (x *Exec) evalIdent(fr *Frame, st *State, e *ast.Ident) Value {
	o := fr.pkg.Info.Uses[e]
	if o == nil {
		o = fr.pkg.Info.Defs[e]
	}
	switch o := o.(type) {
	case *types.Nil:
		if tv, ok := fr.pkg.Info.Types[e]; ok && tv.Type != nil {
			return zeroVal(tv.Type)
		}
		return &IfaceV{}
	case *types.Func:
		sig, _ := o.Type().(*types.Signature)
		return &FuncV{Fn: o, Sig: sig}
	case *types.Var:
		if ob := fr.lookup(o); ob != nil {
			v, ok := st.heap[ob]
			if !ok {
				panic(unsup(e, "variable %s has no value", e.Name))
			}
			return v
		}
		return st.heap[x.globalObj(st, o)]
	}
	panic(unsup(e, "identifier %s (%T)", e.Name, o))
}

func (x *Exec) evalSelector(fr *Frame, st *State, e *ast.SelectorExpr) Value {
	if id, ok := e.X.(*ast.Ident); ok {
		if _, ok := fr.pkg.Info.Uses[id].(*types.PkgName); ok {
			switch o := fr.pkg.Info.Uses[e.Sel].(type) {
			case *types.Func:
				return &FuncV{Fn: o, Sig: o.Type().(*types.Signature)}
			case *types.Var:
				return st.heap[x.globalObj(st, o)]
			}
			panic(unsup(e, "selector %s.%s", id.Name, e.Sel.Name))
		}
	}
	sel := fr.pkg.Info.Selections[e]
	if sel == nil {
		panic(unsup(e, "selector %s", e.Sel.Name))
	}
	if sel.Kind() == types.FieldVal {
		t := x.typeOf(fr, e.X)
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr && len(sel.Index()) == 1 {
			// direct field of a value
			if !x.addressable(fr, e.X) {
				v := x.eval(fr, st, e.X)
				return loadPath(v, []Sel{{F: sel.Index()[0]}})
			}
		}
		return x.loadPtr(st, x.fieldAddr(fr, st, e.X, sel.Index(), e))
	}
	fn := sel.Obj().(*types.Func)
	recv := x.recvVal(fr, st, e, sel)
	return &FuncV{Fn: fn, Recv: recv, Sig: fn.Type().(*types.Signature)}
}

func (x *Exec) addressable(fr *Frame, e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.addressable(fr, e.X)
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, ok := fr.pkg.Info.Uses[id].(*types.PkgName); ok {
				return true
			}
		}
		if _, ok := x.typeOf(fr, e.X).Underlying().(*types.Pointer); ok {
			return true
		}
		return x.addressable(fr, e.X)
	case *ast.IndexExpr:
		switch x.typeOf(fr, e.X).Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		}
		return x.addressable(fr, e.X)
	case *ast.StarExpr:
		return true
	}
	return false
}

// recvVal computes the receiver of a method call/value.
func (x *Exec) recvVal(fr *Frame, st *State, e *ast.SelectorExpr, sel *types.Selection) Value {
	fn := sel.Obj().(*types.Func)
	sig := fn.Type().(*types.Signature)
	_, wantPtr := sig.Recv().Type().Underlying().(*types.Pointer)
	idx := sel.Index()
	t := x.typeOf(fr, e.X)
	if _, ok := t.Underlying().(*types.Interface); ok && len(idx) == 1 {
		return x.eval(fr, st, e.X)
	}
	path := idx[:len(idx)-1]
	if len(path) == 0 {
		_, isPtr := t.Underlying().(*types.Pointer)
		switch {
		case isPtr && wantPtr:
			return x.eval(fr, st, e.X)
		case isPtr && !wantPtr:
			p := x.eval(fr, st, e.X)
			x.safety(fr, st, notNil(p), "nil", e)
			return x.loadPtr(st, p)
		case !isPtr && wantPtr:
			p := x.addr(fr, st, e.X)
			mapPtr(p, func(p *PtrV) Value {
				if p.Obj != nil {
					p.Obj.Escaped = true
				}
				return p
			})
			return p
		}
		return x.eval(fr, st, e.X)
	}
	p := x.fieldAddr(fr, st, e.X, path, e)
	// type of the embedded field
	ft := t
	for _, i := range path {
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			ft = pt.Elem()
		}
		ft = ft.Underlying().(*types.Struct).Field(i).Type()
	}
	_, isPtr := ft.Underlying().(*types.Pointer)
	_, isI := ft.Underlying().(*types.Interface)
	switch {
	case isI:
		return x.loadPtr(st, p)
	case isPtr && wantPtr:
		return x.loadPtr(st, p)
	case isPtr:
		q := x.loadPtr(st, p)
		x.safety(fr, st, notNil(q), "nil", e)
		return x.loadPtr(st, q)
	case wantPtr:
		return p
	}
	return x.loadPtr(st, p)
}

func (x *Exec) evalIndex(fr *Frame, st *State, e *ast.IndexExpr) Value {
	if tv, ok := fr.pkg.Info.Types[e.X]; ok {
		if _, ok := tv.Type.(*types.Signature); ok { // generic instantiation
			return x.eval(fr, st, e.X)
		}
	}
	switch u := x.typeOf(fr, e.X).Underlying().(type) {
	case *types.Slice, *types.Pointer:
		p := x.addr(fr, st, e)
		if isNilPtr(p) {
			return zeroVal(x.typeOf(fr, e))
		}
		return x.loadPtr(st, p)
	case *types.Array:
		v := x.eval(fr, st, e.X)
		i := x.evalIdx(fr, st, e.Index)
		x.boundsCheck(fr, st, i, Int(u.Len()), e)
		return loadPath(v, []Sel{{Idx: i}})
	case *types.Basic:
		s := x.eval(fr, st, e.X).(*Term)
		i := x.evalIdx(fr, st, e.Index)
		x.boundsCheck(fr, st, i, App("strlen", IntS, s), e)
		return App("strat", BVS(8), s, i)
	}
	panic(unsup(e, "index of %v", x.typeOf(fr, e.X)))
}

func (x *Exec) evalSlice(fr *Frame, st *State, e *ast.SliceExpr) Value {
	opt := func(e ast.Expr) *Term {
		if e == nil {
			return nil
		}
		return x.evalIdx(fr, st, e)
	}
	t := x.typeOf(fr, e.X)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		v := x.eval(fr, st, e.X)
		return x.reslice(fr, st, v, opt(e.Low), opt(e.High), opt(e.Max), e)
	case *types.Array, *types.Pointer:
		var p Value
		var at *types.Array
		if pt, ok := u.(*types.Pointer); ok {
			p = x.eval(fr, st, e.X)
			at = pt.Elem().Underlying().(*types.Array)
		} else {
			p = x.addr(fr, st, e.X)
			at = u.(*types.Array)
		}
		pp, ok := p.(*PtrV)
		if !ok || pp.Obj == nil {
			panic(unsup(e, "slice of an array behind a conditional pointer"))
		}
		if len(pp.Path) != 0 {
			panic(unsup(e, "slice of an array inside another object"))
		}
		pp.Obj.Escaped = true
		n := Int(at.Len())
		v := &SliceV{Obj: pp.Obj, Off: Int(0), Len: n, Cap: n, Elem: at.Elem()}
		return x.reslice(fr, st, v, opt(e.Low), opt(e.High), opt(e.Max), e)
	case *types.Basic:
		s := x.eval(fr, st, e.X).(*Term)
		lo, hi := opt(e.Low), opt(e.High)
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = App("strlen", IntS, s)
		}
		return App("substr", StrS, s, lo, hi)
	}
	panic(unsup(e, "slice of %v", t))
}

func (x *Exec) reslice(fr *Frame, st *State, v Value, lo, hi, max *Term, n ast.Node) Value {
	if m, ok := v.(*MuxV); ok {
		a := st.clone()
		a.assume(m.C, true)
		b := st.clone()
		b.assume(Not(m.C), true)
		return mergeVal(m.C, x.reslice(fr, a, m.A, lo, hi, max, n), x.reslice(fr, b, m.B, lo, hi, max, n))
	}
	s, ok := v.(*SliceV)
	if !ok {
		panic(unsup(n, "slice of %T", v))
	}
	if lo == nil {
		lo = Int(0)
	}
	if hi == nil {
		hi = s.Len
	}
	c := s.Cap
	if max != nil {
		c = max
	}
	x.safety(fr, st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, c), Le(c, s.Cap)), "slice bounds", n)
	return &SliceV{Obj: s.Obj, Off: Add(s.Off, lo), Len: Sub(hi, lo), Cap: Sub(c, lo), Elem: s.Elem}
}

func (x *Exec) lenOf(v Value, n ast.Node) *Term {
	switch s := v.(type) {
	case *SliceV:
		return s.Len
	case *MuxV:
		return Ite(s.C, x.lenOf(s.A, n), x.lenOf(s.B, n))
	case *ArrV:
		return Int(int64(len(s.E)))
	case *Term:
		if s.S == StrS {
			for k, v := range strConsts {
				if v == s {
					return Int(int64(len(k)))
				}
			}
			return App("strlen", IntS, s)
		}
	case *OpaqueV:
		panic(unsup(n, "length of a value outside the model (%v)", s.T))
	}
	panic(unsup(n, "len of %T", v))
}

func (x *Exec) evalLit(fr *Frame, st *State, e *ast.CompositeLit, t types.Type) Value {
	if pt, ok := t.Underlying().(*types.Pointer); ok { // elided &T in a literal
		v := x.evalLit(fr, st, e, pt.Elem())
		o := NewObj("lit", pt.Elem())
		o.Escaped = true
		st.heap[o] = v
		return &PtrV{Obj: o}
	}
	elem := func(el ast.Expr, et types.Type) Value {
		if cl, ok := el.(*ast.CompositeLit); ok && cl.Type == nil {
			return x.evalLit(fr, st, cl, et)
		}
		return x.conv(x.eval(fr, st, el), x.typeOf(fr, el), et)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := zeroVal(t).(*StructV)
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						v.F[j] = elem(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				v.F[i] = elem(el, u.Field(i).Type())
			}
		}
		return v
	case *types.Array, *types.Slice:
		var et types.Type
		n := int64(-1)
		if a, ok := u.(*types.Array); ok {
			et, n = a.Elem(), a.Len()
		} else {
			et = u.(*types.Slice).Elem()
		}
		idx := int64(0)
		vals := map[int64]Value{}
		maxI := int64(0)
		for _, el := range e.Elts {
			val := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := x.eval(fr, st, kv.Key).(*Term)
				idx, _ = k.IntVal()
				val = kv.Value
			}
			vals[idx] = elem(val, et)
			idx++
			if idx > maxI {
				maxI = idx
			}
		}
		if n < 0 {
			n = maxI
		}
		arr := newArr(et, n)
		for i, v := range vals {
			arr = storePath(arr, []Sel{{Idx: Int(i)}}, v)
		}
		if _, ok := u.(*types.Array); ok {
			return arr
		}
		o := NewObj("slicelit", t)
		o.Escaped = true
		st.heap[o] = arr
		return &SliceV{Obj: o, Off: Int(0), Len: Int(n), Cap: Int(n), Elem: et}
	}
	panic(unsup(e, "composite literal of %v", t))
}

// ---------------------------------------------------------------- operators

func (x *Exec) evalBinary(fr *Frame, st *State, e *ast.BinaryExpr) Value {
	switch e.Op {
	case token.LAND, token.LOR:
		a := x.cond(fr, st, e.X)
		want := e.Op == token.LAND
		if v, ok := st.known(a); ok {
			if v != want {
				return a
			}
			return x.cond(fr, st, e.Y)
		}
		b := st.clone()
		if want {
			b.assume(a, true)
		} else {
			b.assume(Not(a), true)
		}
		r := x.cond(fr, b, e.Y)
		// side effects of the right operand
		o := st.clone()
		if want {
			o.assume(Not(a), true)
		} else {
			o.assume(a, true)
		}
		*st = *mergeStates(b, o)
		if want {
			return And(a, r)
		}
		return Or(a, r)
	}
	a := x.eval(fr, st, e.X)
	b := x.eval(fr, st, e.Y)
	ta, tb := x.typeOf(fr, e.X), x.typeOf(fr, e.Y)
	switch e.Op {
	case token.EQL:
		return x.equal(a, ta, b, tb, e)
	case token.NEQ:
		return Not(x.equal(a, ta, b, tb, e))
	case token.SHL, token.SHR:
		return x.binop(fr, st, e.Op, a, b, x.typeOf(fr, e), e.Y, e)
	}
	// untyped constant operands take the other operand's type
	t := ta
	if isUntyped(ta) && !isUntyped(tb) {
		t = tb
	}
	a, b = x.conv(a, ta, t), x.conv(b, tb, t)
	return x.binop(fr, st, e.Op, a, b, t, e.Y, e)
}
func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (x *Exec) equal(a Value, ta types.Type, b Value, tb types.Type, n ast.Node) *Term {
	if m, ok := a.(*MuxV); ok {
		return Ite(m.C, x.equal(m.A, ta, b, tb, n), x.equal(m.B, ta, b, tb, n))
	}
	if m, ok := b.(*MuxV); ok {
		return Ite(m.C, x.equal(a, ta, m.A, tb, n), x.equal(a, ta, m.B, tb, n))
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			break
		}
		if p.S != q.S {
			if p.S == IntS && q.S == RealS {
				p = ToReal(p)
			} else if p.S == RealS && q.S == IntS {
				q = ToReal(q)
			} else if p.S.K == KBV {
				q = convTerm(q, p.S)
			} else {
				p = convTerm(p, q.S)
			}
		}
		return Eq(p, q)
	case *StructV:
		q, ok := b.(*StructV)
		if !ok {
			break
		}
		r := True
		for i := range p.F {
			ft := p.T.Underlying().(*types.Struct).Field(i).Type()
			r = And(r, x.equal(p.F[i], ft, q.F[i], ft, n))
		}
		return r
	case *ArrV:
		q, ok := b.(*ArrV)
		if !ok {
			break
		}
		et := ta.Underlying().(*types.Array).Elem()
		r := True
		for i := range p.E {
			r = And(r, x.equal(p.E[i], et, q.E[i], et, n))
		}
		return r
	case *PtrV:
		if q, ok := b.(*PtrV); ok {
			if p.Obj != q.Obj {
				return False
			}
			if sameVal(p, q) {
				return True
			}
		} else if iv, ok := b.(*IfaceV); ok {
			if iv.T == nil && !types.IsInterface(tb) {
				return Bool(p.Obj == nil)
			}
			return x.equal(&IfaceV{T: ta, V: a}, ta, iv, tb, n)
		}
	case *SliceV:
		switch q := b.(type) {
		case *SliceV:
			if q.Obj == nil {
				return Bool(p.Obj == nil)
			}
			if p.Obj == nil {
				return Bool(q.Obj == nil)
			}
		case *IfaceV:
			if q.T == nil {
				return Bool(p.Obj == nil)
			}
		}
	case *IfaceV:
		switch q := b.(type) {
		case *IfaceV:
			if p.T == nil || q.T == nil {
				return Bool(p.T == nil && q.T == nil)
			}
			if !types.Identical(p.T, q.T) {
				return False
			}
			return x.equal(p.V, p.T, q.V, q.T, n)
		case *SliceV:
			if p.T == nil {
				return Bool(q.Obj == nil)
			}
		case *PtrV:
			if p.T == nil {
				return Bool(q.Obj == nil)
			}
		case *FuncV:
			return Bool(q.Nil)
		case *OpaqueV:
			if p.T == nil {
				return App("isnil", BoolS, Int(int64(q.ID)))
			}
		}
	case *FuncV:
		if q, ok := b.(*IfaceV); ok && q.T == nil {
			return Bool(p.Nil)
		}
		if q, ok := b.(*FuncV); ok && q.Nil {
			return Bool(p.Nil)
		}
	case *OpaqueV:
		if q, ok := b.(*OpaqueV); ok && q.ID == p.ID {
			return True
		}
		if q, ok := b.(*IfaceV); ok && q.T == nil {
			return App("isnil", BoolS, Int(int64(p.ID)))
		}
	}
	panic(unsup(n, "comparison of %T and %T", a, b))
}

func (x *Exec) binop(fr *Frame, st *State, op token.Token, av, bv Value, t types.Type, by ast.Expr, n ast.Node) Value {
	a, ok1 := av.(*Term)
	b, ok2 := bv.(*Term)
	if !ok1 || !ok2 {
		panic(unsup(n, "operator %v on %T, %T", op, av, bv))
	}
	if s := scalarSort(t); s != nil && op != token.SHL && op != token.SHR {
		if a.S != s && (op == token.ADD || op == token.SUB || op == token.MUL || op == token.QUO || op == token.REM) {
			a = convTerm(a, s)
		}
		if b.S != s && (op == token.ADD || op == token.SUB || op == token.MUL || op == token.QUO || op == token.REM) {
			b = convTerm(b, s)
		}
	}
	if op == token.SHL || op == token.SHR {
		return x.shift(op, a, b, n)
	}
	if a.S != b.S {
		if a.S == IntS && b.S == RealS {
			a = ToReal(a)
		} else if b.S == IntS && a.S == RealS {
			b = ToReal(b)
		} else {
			panic(unsup(n, "operand sorts %v %v", a.S, b.S))
		}
	}
	if a.S == StrS {
		switch op {
		case token.ADD:
			return App("concat", StrS, a, b)
		}
		panic(unsup(n, "string operator %v", op))
	}
	if a.S == BoolS {
		panic(unsup(n, "bool operator %v", op))
	}
	if a.S.K == KBV {
		names := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.QUO: "bvudiv", token.REM: "bvurem",
			token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}
		if nm, ok := names[op]; ok {
			if op == token.QUO || op == token.REM {
				x.safety(fr, st, Not(Eq(b, zeroTerm(b.S))), "div by zero", n)
			}
			return BV(nm, a.S, a, b)
		}
		switch op {
		case token.AND_NOT:
			return BV("bvand", a.S, a, BV("bvnot", a.S, b))
		case token.LSS:
			return BV("bvult", BoolS, a, b)
		case token.LEQ:
			return BV("bvule", BoolS, a, b)
		case token.GTR:
			return BV("bvult", BoolS, b, a)
		case token.GEQ:
			return BV("bvule", BoolS, b, a)
		}
		panic(unsup(n, "unsigned operator %v", op))
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		if a.S == RealS {
			if !(b.IsNum() && b.V.Sign() != 0) {
				x.safety(fr, st, Ne(b, Real(0)), "float div by zero", n)
			} else if b.V.Sign() == 0 {
				panic(unsup(n, "division by the constant zero"))
			}
			if b.IsNum() && b.V.Sign() == 0 {
				panic(unsup(n, "division by the constant zero"))
			}
			return Div(a, b)
		}
		x.safety(fr, st, Ne(b, Int(0)), "div by zero", n)
		return TDiv(a, b)
	case token.REM:
		x.safety(fr, st, Ne(b, Int(0)), "div by zero", n)
		return TMod(a, b)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.AND:
		// masks 2^k-1
		for i := 0; i < 2; i++ {
			if b.IsNum() {
				m := new(big.Int).Add(b.V.Num(), big.NewInt(1))
				if m.Sign() > 0 && new(big.Int).And(m, b.V.Num()).Sign() == 0 {
					return IMod(a, Num(IntS, new(big.Rat).SetInt(m)))
				}
			}
			a, b = b, a
		}
		if a.IsNum() && b.IsNum() {
			return Num(IntS, new(big.Rat).SetInt(new(big.Int).And(a.V.Num(), b.V.Num())))
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return App("bitand", IntS, a, b)
	case token.OR, token.XOR:
		if a.IsNum() && b.IsNum() {
			z := new(big.Int)
			if op == token.OR {
				z.Or(a.V.Num(), b.V.Num())
			} else {
				z.Xor(a.V.Num(), b.V.Num())
			}
			return Num(IntS, new(big.Rat).SetInt(z))
		}
		nm := "bitor"
		if op == token.XOR {
			nm = "bitxor"
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return App(nm, IntS, a, b)
	}
	panic(unsup(n, "operator %v", op))
}

func (x *Exec) shift(op token.Token, a, b *Term, n ast.Node) Value {
	if a.S.K == KBV {
		if b.S == IntS {
			b = BV("int2bv", a.S, b)
		} else if b.S != a.S {
			if b.S.N < a.S.N {
				b = BV("zext", a.S, b)
			} else {
				// amounts beyond the width saturate
				w := BVNum(b.S.N, big.NewInt(int64(a.S.N)))
				b = Ite(BV("bvult", BoolS, b, w), BV("trunc", a.S, b), BVNum(a.S.N, big.NewInt(int64(a.S.N))))
			}
		}
		if op == token.SHL {
			return BV("bvshl", a.S, a, b)
		}
		return BV("bvlshr", a.S, a, b)
	}
	if b.S.K == KBV {
		b = BV("bv2nat", IntS, b)
	}
	if k, ok := b.IntVal(); ok && k >= 0 && k < 256 {
		p := Num(IntS, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k))))
		if op == token.SHL {
			return Mul(a, p)
		}
		return IDiv(a, p) // arithmetic shift = floor
	}
	p := App("pow2", IntS, b)
	if op == token.SHL {
		return Mul(a, p)
	}
	return IDiv(a, p)
}

// ---------------------------------------------------------------- annotations

// parseAt parses an annotation expression in the scope of a loop body. Names
// that are not in scope (a local was renamed) are tried against the other
// local variables of the function; every variant that type-checks is
// returned, and the ones that are not inductive are dropped later.
func (x *Exec) parseAt(fr *Frame, text string, body *ast.BlockStmt, af *Frame) []ast.Expr {
	f := fr
	for f.up != nil && f.fi == nil {
		f = f.up
	}
	mkExpr := func(sub map[string]string) (ast.Expr, error) {
		t := expandText(text)
		e, err := parser.ParseExprFrom(x.L.fset, "annotation", t, 0)
		if err != nil {
			panic(unsup(body, "annotation %q: %v", text, err))
		}
		ast.Inspect(e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if r, ok := sub[id.Name]; ok {
					id.Name = r
				}
			}
			return true
		})
		err = types.CheckExpr(x.L.fset, fr.pkg.Types, body.Lbrace+1, e, fr.pkg.Info)
		return e, err
	}
	e, err := mkExpr(nil)
	if err == nil {
		return []ast.Expr{e}
	}
	var out []ast.Expr
	var try func(sub map[string]string, err error, depth int)
	try = func(sub map[string]string, err error, depth int) {
		missing := ""
		if i := strings.Index(err.Error(), "undefined: "); i >= 0 {
			missing = strings.TrimSpace(err.Error()[i+len("undefined: "):])
		}
		if missing == "" || depth > 3 || len(out) >= 12 {
			return
		}
		for _, c := range x.localNames(fr, body) {
			used := false
			for _, v := range sub {
				if v == c {
					used = true
				}
			}
			if used || containsIdent(text, c) {
				continue
			}
			s2 := map[string]string{missing: c}
			for k, v := range sub {
				s2[k] = v
			}
			e, err2 := mkExpr(s2)
			if err2 == nil {
				out = append(out, e)
			} else {
				try(s2, err2, depth+1)
			}
		}
	}
	try(map[string]string{}, err, 0)
	if x.dropNames == nil {
		x.dropNames = map[string]string{}
	}
	if len(out) == 0 {
		x.dropNames[text] = err.Error()
	}
	return out
}

func containsIdent(text, id string) bool {
	for i := 0; i+len(id) <= len(text); i++ {
		if text[i:i+len(id)] == id {
			ok := func(c byte) bool {
				return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			}
			if (i == 0 || !ok(text[i-1])) && (i+len(id) == len(text) || !ok(text[i+len(id)])) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) localNames(fr *Frame, body *ast.BlockStmt) []string {
	var out []string
	sc := fr.pkg.Types.Scope().Innermost(body.Lbrace + 1)
	for s := sc; s != nil && s != fr.pkg.Types.Scope(); s = s.Parent() {
		for _, n := range s.Names() {
			if v, ok := s.Lookup(n).(*types.Var); ok && v.Pos() < body.Lbrace {
				out = append(out, n)
			}
		}
	}
	return out
}

func (x *Exec) evalDec(fr *Frame, st *State, text string, body *ast.BlockStmt, af *Frame, ri *rangeInfo) []*Term {
	es := x.parseAt(fr, "tuple("+text+")", body, af)
	if len(es) == 0 {
		panic(unsup(body, "measure %q does not type-check", text))
	}
	x.mute++
	defer func() { x.mute-- }()
	sf := *fr
	sf.spec = true
	var out []*Term
	c := st.clone()
	if ri != nil {
		ri.pre(c)
	}
	for _, a := range es[0].(*ast.CallExpr).Args {
		out = append(out, convTerm(x.eval(&sf, c, a).(*Term), IntS))
	}
	return out
}

var _ = fmt.Sprint
