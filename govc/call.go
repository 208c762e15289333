package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"
)

type recDef struct {
	fi     *FuncInfo
	params []*Term
	body   *Term
	name   string
	res    *Sort
}

func (x *Exec) calleeOf(fr *Frame, call *ast.CallExpr) types.Object {
	f := ast.Unparen(call.Fun)
	for {
		if ix, ok := f.(*ast.IndexExpr); ok {
			if tv, ok := fr.pkg.Info.Types[ix.X]; ok {
				if _, ok := tv.Type.(*types.Signature); ok {
					f = ix.X
					continue
				}
			}
		}
		break
	}
	switch f := f.(type) {
	case *ast.Ident:
		return fr.pkg.Info.Uses[f]
	case *ast.SelectorExpr:
		return fr.pkg.Info.Uses[f.Sel]
	}
	return nil
}

func (x *Exec) evalCall(fr *Frame, st *State, call *ast.CallExpr) Value {
	x.curNode = call
	// conversion
	if tv, ok := fr.pkg.Info.Types[call.Fun]; ok && tv.IsType() {
		v := x.eval(fr, st, call.Args[0])
		return x.conv2(v, x.typeOf(fr, call.Args[0]), x.typ(fr, tv.Type))
	}
	co := x.calleeOf(fr, call)
	if b, ok := co.(*types.Builtin); ok {
		return x.builtin(fr, st, b.Name(), call)
	}
	if f, ok := co.(*types.Func); ok {
		if f.Origin() != nil {
			f = f.Origin()
		}
		if fi := x.L.Funcs[f]; fi != nil && fi.VP {
			return x.intrinsic(fr, st, strings.TrimSuffix(f.Name(), vpSuffix), call)
		}
		if f.Pkg() != nil && !strings.HasPrefix(f.Pkg().Path(), modPath) && f.Type().(*types.Signature).Recv() == nil {
			return x.stdCall(fr, st, f, call)
		}
	}
	fv := x.eval(fr, st, call.Fun)
	var args []Value
	sig := x.typeOf(fr, call.Fun).Underlying().(*types.Signature)
	args = x.evalArgs(fr, st, call, sig)
	return x.callFunc(fr, st, fv, args, call)
}

func (x *Exec) conv2(v Value, a, b types.Type) Value {
	// []byte(string) and friends
	if s := scalarSort(a); s == StrS {
		if _, ok := b.Underlying().(*types.Slice); ok {
			panic(unsup(x.curNode, "string to slice conversion"))
		}
	}
	if _, ok := v.(*SliceV); ok && scalarSort(b) == StrS {
		panic(unsup(x.curNode, "slice to string conversion"))
	}
	return x.conv(v, a, b)
}

func firstArg(call *ast.CallExpr) ast.Expr {
	if len(call.Args) == 0 {
		return call.Fun
	}
	return call.Args[0]
}

func (x *Exec) evalArgs(fr *Frame, st *State, call *ast.CallExpr, sig *types.Signature) []Value {
	var vals []tval
	_, tup := x.typeOf(fr, firstArg(call)).(*types.Tuple)
	if len(call.Args) == 1 && tup {
		vals = x.evalMulti(fr, st, call.Args, sig.Params().Len())
	} else {
		for _, a := range call.Args {
			vals = append(vals, tval{x.eval(fr, st, a), x.typeOf(fr, a)})
		}
	}
	var args []Value
	np := sig.Params().Len()
	for i := 0; i < np; i++ {
		pt := x.typ(fr, sig.Params().At(i).Type())
		if sig.Variadic() && i == np-1 {
			if call.Ellipsis.IsValid() {
				args = append(args, vals[i].v)
				break
			}
			et := pt.(*types.Slice).Elem()
			n := len(vals) - i
			if n == 0 {
				args = append(args, zeroVal(pt))
				break
			}
			arr := &ArrV{}
			for _, v := range vals[i:] {
				arr.E = append(arr.E, x.conv(v.v, v.t, et))
			}
			o := NewObj("varargs", pt)
			o.Escaped = true
			st.heap[o] = arr
			args = append(args, &SliceV{Obj: o, Off: Int(0), Len: Int(int64(n)), Cap: Int(int64(n)), Elem: et})
			break
		}
		args = append(args, x.conv(vals[i].v, vals[i].t, pt))
	}
	return args
}

// callFunc calls a function value.
func (x *Exec) callFunc(fr *Frame, st *State, fv Value, args []Value, call *ast.CallExpr) Value {
	switch f := fv.(type) {
	case *MuxV:
		return x.callMux(st, f.C, func(b *State) Value { return x.callFunc(fr, b, f.A, args, call) },
			func(b *State) Value { return x.callFunc(fr, b, f.B, args, call) })
	case *FuncV:
		if f.Nil {
			x.safety(fr, st, False, "nil", call)
			st.assume(False, false)
			return x.zeroResults(f.Sig)
		}
		if f.Sym != "" {
			s := scalarSort(f.Sig.Results().At(0).Type())
			if s == nil || f.Sig.Results().Len() != 1 {
				panic(unsup(call, "unknown function with result %v", f.Sig.Results()))
			}
			var ts []*Term
			for _, a := range args {
				t, ok := a.(*Term)
				if !ok {
					panic(unsup(call, "unknown function of a %T", a))
				}
				ts = append(ts, t)
			}
			return App("fn_"+f.Sym, s, ts...)
		}
		if f.Lit != nil {
			return x.callLit(fr, st, f, args, call)
		}
		return x.callNamed(fr, st, f.Fn, f.Recv, args, call)
	}
	panic(unsup(call, "call of %T", fv))
}

func (x *Exec) callMux(st *State, c *Term, f, g func(*State) Value) Value {
	if v, ok := st.known(c); ok {
		if v {
			return f(st)
		}
		return g(st)
	}
	a := st.clone()
	a.assume(c, true)
	b := st.clone()
	b.assume(Not(c), true)
	va := f(a)
	vb := g(b)
	da, db := a.dead(), b.dead()
	switch {
	case da && !db:
		*st = *b
		return vb
	case db && !da:
		*st = *a
		return va
	}
	m, D := mergeStates2(a, b)
	*st = *m
	_ = D
	if va == nil {
		return vb
	}
	return mergeVal(c, va, vb)
}

func (x *Exec) zeroResults(sig *types.Signature) Value {
	t := &TupleV{}
	for i := 0; i < sig.Results().Len(); i++ {
		t.V = append(t.V, zeroVal(sig.Results().At(i).Type()))
	}
	return t
}

func (x *Exec) callLit(fr *Frame, st *State, f *FuncV, args []Value, call *ast.CallExpr) Value {
	nf := &Frame{pkg: f.Env.pkg, vars: map[types.Object]*Obj{}, up: f.Env, caller: fr, spec: f.Env.spec, site: x.pos(call), ctx: nil}
	return x.runBody(nf, st, f.Sig, f.Lit.Type, nil, nil, f.Lit.Body, args, call)
}

func (x *Exec) runBody(nf *Frame, st *State, sig *types.Signature, ft *ast.FuncType, recvF *ast.FieldList, recv Value, body *ast.BlockStmt, args []Value, call ast.Node) Value {
	if len(x.stack) > 120 {
		panic(unsup(call, "call depth"))
	}
	nf.resT = sig.Results()
	if recvF != nil && len(recvF.List) > 0 && len(recvF.List[0].Names) > 0 {
		id := recvF.List[0].Names[0]
		if id.Name != "_" {
			x.declare(nf, st, id, recv)
		}
	}
	k := 0
	for _, fl := range ft.Params.List {
		if len(fl.Names) == 0 {
			k++
			continue
		}
		for _, id := range fl.Names {
			if id.Name != "_" {
				x.declare(nf, st, id, args[k])
			}
			k++
		}
	}
	if ft.Results != nil {
		k := 0
		for _, fl := range ft.Results.List {
			for _, id := range fl.Names {
				if id.Name == "_" {
					nf.resObjs = append(nf.resObjs, nil)
				} else {
					o := nf.pkg.Info.Defs[id]
					x.declareObj(nf, st, o, zeroVal(x.typ(nf, o.Type())))
					nf.resObjs = append(nf.resObjs, nf.vars[o])
				}
				k++
			}
		}
	}
	nf.entry = st.clone()
	x.stack = append(x.stack, nf)
	alive := x.block(nf, st, body.List)
	x.stack = x.stack[:len(x.stack)-1]
	if alive {
		nf.rets = append(nf.rets, retState{st.clone(), func() []Value {
			var vs []Value
			for _, o := range nf.resObjs {
				vs = append(vs, st.heap[o])
			}
			return vs
		}()})
	}
	if len(nf.rets) == 0 {
		// never returns
		st.assume(False, true)
		return x.zeroResults(sig)
	}
	if nf.isTarget {
		x.nPaths = len(nf.rets)
		if x.pathSel >= 0 {
			nf.rets = nf.rets[x.pathSel : x.pathSel+1]
		}
	}
	acc := nf.rets[len(nf.rets)-1].st
	vals := nf.rets[len(nf.rets)-1].val
	for i := len(nf.rets) - 2; i >= 0; i-- {
		r := nf.rets[i]
		m, D := mergeStates2(r.st, acc)
		nv := make([]Value, len(vals))
		for j := range vals {
			nv[j] = mergeVal(D, r.val[j], vals[j])
		}
		acc, vals = m, nv
	}
	*st = *acc
	for i := len(nf.defers) - 1; i >= 0; i-- {
		nf.defers[i](st)
	}
	for _, o := range nf.vars {
		if !o.Escaped {
			delete(st.heap, o)
		}
	}
	return &TupleV{V: vals}
}

func (x *Exec) callNamed(fr *Frame, st *State, fn *types.Func, recv Value, args []Value, call *ast.CallExpr) Value {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	sig := fn.Type().(*types.Signature)
	// interface method: dispatch on the dynamic type
	if sig.Recv() != nil {
		if _, ok := sig.Recv().Type().Underlying().(*types.Interface); ok {
			if fr.ctx != nil && fr.ctx.use && fr.ctx.target == fn {
				return x.targetCall(fr, st, &FuncInfo{Obj: fn}, recv, args, call)
			}
			return x.dispatch(fr, st, fn, recv, args, call)
		}
	}
	fi := x.L.Funcs[fn]
	if fi == nil || fi.Decl.Body == nil {
		return x.extMethod(fr, st, fn, recv, args, call)
	}
	// the target of the contract being executed
	if fr.ctx != nil && fr.ctx.target == fn {
		return x.targetCall(fr, st, fi, recv, args, call)
	}
	if _, ok := fi.Dirs["rec"]; ok {
		return x.recApp(fr, st, fi, args, call)
	}
	if _, ok := fi.Dirs["lemma"]; ok {
		return x.useContract(fr, st, fi, fi, recv, args, call)
	}
	if c := x.contracts[fn]; c != nil && !x.inlineSet[fn.Name()] && !x.inlineSet["*"] {
		return x.useContract(fr, st, c, fi, recv, args, call)
	}
	return x.inlineCall(fr, st, fi, recv, args, call)
}

func (x *Exec) funcKey(fi *FuncInfo) string {
	return strings.TrimPrefix(fi.Obj.FullName(), modPath+"/")
}

func (x *Exec) inlineCall(fr *Frame, st *State, fi *FuncInfo, recv Value, args []Value, call ast.Node) Value {
	if !fi.Spec {
		x.used[x.funcKey(fi)] = true
	}
	nf := &Frame{fi: fi, pkg: fi.Pkg, vars: map[types.Object]*Obj{}, caller: fr, spec: fi.Spec, site: x.pos(call)}
	nf.annot = x.annots[fi.Obj]
	nf.isTarget = x.nextTarget
	x.nextTarget = false
	sig := fi.Obj.Type().(*types.Signature)
	if sig.TypeParams() != nil && sig.TypeParams().Len() > 0 {
		nf.tmap = x.inferTypeArgs(fr, fi, sig, call)
	}
	return x.runBody(nf, st, sig, fi.Decl.Type, fi.Decl.Recv, recv, fi.Decl.Body, args, call)
}

func (x *Exec) inferTypeArgs(fr *Frame, fi *FuncInfo, sig *types.Signature, call ast.Node) map[*types.TypeParam]types.Type {
	c, ok := call.(*ast.CallExpr)
	if !ok {
		return nil
	}
	var id *ast.Ident
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.IndexExpr:
		id, _ = f.X.(*ast.Ident)
	}
	m := map[*types.TypeParam]types.Type{}
	if inst, ok := fr.pkg.Info.Instances[id]; ok {
		for i := 0; i < sig.TypeParams().Len(); i++ {
			m[sig.TypeParams().At(i)] = x.typ(fr, inst.TypeArgs.At(i))
		}
	}
	return m
}

func (x *Exec) dispatch(fr *Frame, st *State, fn *types.Func, recv Value, args []Value, call *ast.CallExpr) Value {
	switch r := recv.(type) {
	case *MuxV:
		// calling through a possibly nil interface: the nil side is a safety goal
		return x.callMux(st, r.C, func(b *State) Value { return x.dispatch(fr, b, fn, r.A, args, call) },
			func(b *State) Value { return x.dispatch(fr, b, fn, r.B, args, call) })
	case *IfaceV:
		if r.T == nil {
			x.safety(fr, st, False, "nil", call)
			st.assume(False, false)
			return x.zeroResults(fn.Type().(*types.Signature))
		}
		if r.T == opaqueErrT {
			return &TupleV{V: []Value{App("errstr", StrS)}}
		}
		ms := types.NewMethodSet(r.T)
		sel := ms.Lookup(fn.Pkg(), fn.Name())
		if sel == nil {
			panic(unsup(call, "method %s of %v", fn.Name(), r.T))
		}
		m := sel.Obj().(*types.Func)
		rv := r.V
		t := r.T
		// embedded receivers
		idx := sel.Index()
		for _, i := range idx[:len(idx)-1] {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				p := mapPtr(rv, func(p *PtrV) Value { return ext(p, Sel{F: i}) })
				t = pt.Elem().Underlying().(*types.Struct).Field(i).Type()
				_, wantPtr := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
				if _, isPtr := t.Underlying().(*types.Pointer); isPtr || !wantPtr {
					rv = x.loadPtr(st, p)
				} else {
					rv = p
					t = types.NewPointer(t)
				}
				continue
			}
			ft := t.Underlying().(*types.Struct).Field(i).Type()
			rv = loadPath(rv, []Sel{{F: i}})
			t = ft
		}
		_, wantPtr := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
		_, isPtr := t.Underlying().(*types.Pointer)
		if isPtr && !wantPtr {
			rv = x.loadPtr(st, rv)
		}
		return x.callNamed(fr, st, m, rv, args, call)
	case *OpaqueV:
		if c := x.contracts[fn]; c != nil && c.kind() == "behaviour" {
			x.trusted["every implementation of "+fn.FullName()+" behaves as "+c.Pkg.Rel+":"+c.Obj.Name()+" says"] = true
			return x.useContract(fr, st, c, &FuncInfo{Obj: fn, Dirs: map[string]string{}}, recv, args, call)
		}
		return x.extMethod(fr, st, fn, recv, args, call)
	}
	panic(unsup(call, "dynamic call on %T", recv))
}

// extMethod: a function without source in /repo.
func (x *Exec) extMethod(fr *Frame, st *State, fn *types.Func, recv Value, args []Value, call *ast.CallExpr) Value {
	sig := fn.Type().(*types.Signature)
	switch fn.FullName() {
	case "(error).Error":
		return &TupleV{V: []Value{App("errstr", StrS)}}
	}
	switch fn.FullName() {
	case "(*math/rand.Rand).Float64":
		if x.quant == 0 {
			x.trusted["math/rand.Rand.Float64 returns a number in [0, 1)"] = true
			f := Fresh("float64", RealS)
			st.assume(And(Le(Real(0), f), Lt(f, Real(1))), false)
			return &TupleV{V: []Value{f}}
		}
	}
	if fn.Pkg() != nil && fn.Pkg().Path() == "time" && sig.Results().Len() == 1 && x.quant == 0 {
		// the clock: any value
		if s := scalarSort(sig.Results().At(0).Type()); s != nil {
			return &TupleV{V: []Value{Fresh("clock", s)}}
		}
	}
	if sig.Results().Len() == 0 {
		x.trusted["external call without effect on the model: "+fn.FullName()] = true
		return &TupleV{}
	}
	panic(unsup(call, "external function %s", fn.FullName()))
}

// ---------------------------------------------------------------- contracts

func (x *Exec) useContract(fr *Frame, st *State, c, fi *FuncInfo, recv Value, args []Value, call *ast.CallExpr) Value {
	if x.quant > 0 {
		if _, ok := fi.Dirs["lemma"]; !ok {
			return x.inlineCall(fr, st, fi, recv, args, call)
		}
	}
	if c.kind() != "behaviour" {
		x.usedC[x.funcKey(fi)] = true
		x.usedFi[c] = true
	}
	ctx := &Ctx{use: true, fi: c, target: fi.Obj}
	nf := &Frame{fi: c, pkg: c.Pkg, vars: map[types.Object]*Obj{}, caller: fr, spec: true, ctx: ctx, site: x.pos(call)}
	all := args
	if recv != nil {
		all = append([]Value{recv}, args...)
	}
	sig := c.Obj.Type().(*types.Signature)
	if p := splitPre(c, st, all); p != True && x.always == nil {
		x.proveUse(nf, st, p, "precondition", "arguments of "+c.Obj.Name(), call)
	}
	if x.always != nil {
		if c.kind() != "lemma" {
			panic(unsup(call, "always over a call of %s, which is not a lemma", c.Obj.Name()))
		}
		x.always.level++
		defer func() { x.always.level-- }()
	}
	r := x.runBody(nf, st, sig, c.Decl.Type, nil, nil, c.Decl.Body, all, call)
	if ctx.result != nil {
		return ctx.result
	}
	if c.kind() == "contract" || c.kind() == "behaviour" {
		panic(unsup(call, "contract %s does not reach its call", c.Obj.Name()))
	}
	return r
}

// targetCall: the call of the specified function inside its contract.
func (x *Exec) targetCall(fr *Frame, st *State, fi *FuncInfo, recv Value, args []Value, call *ast.CallExpr) Value {
	ctx := fr.ctx
	ctx.called = true
	sig := fi.Obj.Type().(*types.Signature)
	if ctx.use {
		if ctx.panics != nil {
			x.proveUse(fr, st, Or(Not(ctx.panics), x.panicGoal()), "precondition", "call of "+fi.Obj.Name()+" must not panic", call)
			st.assume(Not(ctx.panics), false)
		}
		// termination of recursive calls
		if _, ok := ctx.fi.Dirs["partial"]; ok && x.curCtx != nil && x.curCtx.target == fi.Obj {
			x.trusted["the recursion of "+fi.Obj.FullName()+" ends"] = true
		} else if x.curCtx != nil && x.curCtx.target == fi.Obj {
			if ctx.measure == nil || x.curCtx.measure == nil {
				panic(unsup(call, "recursive call of %s without a measure", fi.Obj.Name()))
			}
			x.prove(st, lexLess(ctx.measure, x.curCtx.measure), "termination", "recursion measure of "+fi.Obj.Name()+" decreases", call)
		}
		for _, m := range ctx.modifies {
			x.havocVal(st, m, call)
		}
		res := &TupleV{}
		for i := 0; i < sig.Results().Len(); i++ {
			if i < len(ctx.returns) && ctx.returns[i] != nil {
				res.V = append(res.V, ctx.returns[i])
				continue
			}
			v := x.freshResult(st, fi.Obj.Name(), sig.Results().At(i).Type())
			if _, ok := ctx.fi.Dirs["functional"]; ok && len(ctx.modifies) == 0 && !ctx.modAll {
				if why := x.determined(fi.Obj, map[*types.Func]bool{}); why != "" {
					panic(unsup(call, "functional contract of %s, which %s", fi.Obj.Name(), why))
				}
				if t, ok := v.(*Term); ok {
					var ts []*Term
					if recv != nil {
						ts = x.flattenAll(st, recv, ts)
					}
					for _, a := range args {
						ts = x.flattenAll(st, a, ts)
					}
					st.assume(Eq(t, mkRec(fmt.Sprintf("det.%s.%d", fi.Obj.FullName(), i), t.S, ts)), false)
				}
			}
			res.V = append(res.V, v)
		}
		ctx.result = res
		return res
	}
	// verification: run the real body
	before := st.clone()
	saveCur := x.curCtx
	x.curCtx = ctx
	m := x.mute
	x.mute = 0
	nObl := len(x.obls)
	x.nextTarget = true
	r := x.inlineCall(fr, st, fi, recv, args, call)
	x.mute = m
	if x.pathSel > 0 {
		// the obligations of the body itself belong to the first path
		x.obls = x.obls[:nObl]
	}
	x.curCtx = saveCur
	for i, v := range ctx.returns {
		x.prove(st, x.sameRef(r.(*TupleV).V[i], v), "returns", "the result is the stated reference", call)
	}
	if ctx.panics != nil {
		x.prove(st, Not(ctx.panics), "panic", "panics when specified", call)
		st.assume(Not(ctx.panics), false)
	}
	if !ctx.modAll {
		x.frameCheck(ctx, before, st, call)
	}
	return r
}

// proveUse states an obligation of the use of a contract or lemma. Uses in
// specifications and ghost code have obligations as well; a use inside
// another contract or lemma that is itself being used has none, because it was
// proved where that one was verified.
func (x *Exec) proveUse(fr *Frame, st *State, g *Term, kind, name string, n ast.Node) {
	for f := fr; f != nil; f = f.up {
		if f.ctx != nil {
			fr = f
			break
		}
	}
	for f := fr.caller; f != nil; f = f.caller {
		for h := f; h != nil; h = h.up {
			if h.ctx != nil && h.ctx.use {
				return
			}
		}
	}
	m := x.mute
	x.mute = 0
	x.prove(st, g, kind, name, n)
	x.mute = m
}

// sameRef: two references are identical.
func (x *Exec) sameRef(a, b Value) *Term {
	if m, ok := a.(*MuxV); ok {
		return Ite(m.C, x.sameRef(m.A, b), x.sameRef(m.B, b))
	}
	if m, ok := b.(*MuxV); ok {
		return Ite(m.C, x.sameRef(a, m.A), x.sameRef(a, m.B))
	}
	switch p := a.(type) {
	case *SliceV:
		if q, ok := b.(*SliceV); ok && p.Obj == q.Obj {
			return And(Eq(p.Off, q.Off), Eq(p.Len, q.Len), Eq(p.Cap, q.Cap))
		}
	case *PtrV:
		return Bool(sameVal(a, b))
	}
	return False
}

func (x *Exec) freshResult(st *State, name string, t types.Type) Value {
	if x.quant > 0 {
		panic(unsup(x.curNode, "contract result inside a quantifier"))
	}
	v := symVal(st, "ret_"+name, t, 0)
	return v
}

// havocVal replaces the memory reachable from a modifies clause.
func (x *Exec) havocVal(st *State, v Value, n ast.Node) {
	switch m := v.(type) {
	case *SliceV:
		if m.Obj == nil {
			return
		}
		old := st.heap[m.Obj]
		switch a := old.(type) {
		case *SymArr:
			name := m.Obj.Name
			nw := symArr(name, a.Elem)
			st.heap[m.Obj] = nw
			k := FreshBound("k", IntS)
			zipLeaves(nw.Tree, a.Tree, func(p, q *Term) *Term {
				st.assume(Forall([]*Term{k}, Imp(Or(Lt(k, m.Off), Le(Add(m.Off, m.Len), k)), Eq(Select(p, k), Select(q, k)))), false)
				cntFrame(st, p, q, Int(0), func(a, b *Term) *Term { return Or(Le(b, m.Off), Le(Add(m.Off, m.Len), a)) })
				return p
			})
		case *ArrV:
			r := &ArrV{}
			for i, e := range a.E {
				in := And(Le(m.Off, Int(int64(i))), Lt(Int(int64(i)), Add(m.Off, m.Len)))
				r.E = append(r.E, mergeVal(in, havocScalars(st, fmt.Sprintf("%s.%d", m.Obj.Name, i), e), e))
			}
			st.heap[m.Obj] = r
		default:
			panic(unsup(n, "modifies of %T", old))
		}
	case *PtrV:
		if m.Obj == nil {
			return
		}
		old := loadPath(st.heap[m.Obj], m.Path)
		st.heap[m.Obj] = storePath(st.heap[m.Obj], m.Path, havocScalars(st, m.Obj.Name, old))
	case *MuxV:
		panic(unsup(n, "modifies of a conditional value"))
	case *IfaceV:
		if m.T != nil {
			x.havocVal(st, m.V, n)
		}
	}
}

// cntFrame: counts over a range on which two arrays agree are equal (the
// second array is read at an offset). Justified by lemma_count_ext.
func cntFrame(st *State, p, q, shift *Term, cond func(a, b *Term) *Term) {
	if p.S.Elem != RealS {
		return
	}
	for _, fn := range []string{"cnt", "cntgt"} {
		a, b, v := FreshBound("a", IntS), FreshBound("b", IntS), FreshBound("v", RealS)
		st.assume(Forall([]*Term{a, b, v}, Imp(cond(a, b), Eq(cntTerm(fn, p, a, b, v), cntTerm(fn, q, Add(a, shift), Add(b, shift), v)))), false)
	}
}

func havocScalars(st *State, name string, v Value) Value {
	switch p := v.(type) {
	case *Term:
		return Fresh(name, p.S)
	case *StructV:
		r := &StructV{T: p.T}
		for i, f := range p.F {
			r.F = append(r.F, havocScalars(st, name+"."+fieldName(p.T, i), f))
		}
		return r
	case *ArrV:
		r := &ArrV{}
		for i, f := range p.E {
			r.E = append(r.E, havocScalars(st, fmt.Sprintf("%s.%d", name, i), f))
		}
		return r
	case *SymArr:
		return symArr(name, p.Elem)
	}
	return v
}

func (x *Exec) frameCheck(ctx *Ctx, before, after *State, n ast.Node) {
	type root struct {
		obj  *Obj
		path []Sel
		all  bool
		sl   *SliceV
	}
	var roots []root
	for _, m := range ctx.modifies {
		switch v := m.(type) {
		case *SliceV:
			roots = append(roots, root{obj: v.Obj, sl: v})
		case *PtrV:
			roots = append(roots, root{obj: v.Obj, path: v.Path})
		case *IfaceV:
			if p, ok := v.V.(*PtrV); ok {
				roots = append(roots, root{obj: p.Obj, path: p.Path})
			}
		}
	}
	for o, v := range before.heap {
		w, ok := after.heap[o]
		if !ok || v == w || sameVal(v, w) {
			continue
		}
		if !o.Param && !x.isGlobalObj(o) {
			continue
		}
		skip := false
		for _, r := range roots {
			if r.obj != o {
				continue
			}
			if r.sl != nil {
				skip = true
			} else if len(r.path) == 0 {
				skip = true
			}
		}
		if skip {
			continue
		}
		goal := x.unchanged(v, w, roots2paths(o, ctx.modifies), nil)
		x.prove(after, goal, "frame", "nothing but the modifies clause changes: "+o.Name, n)
	}
}
func roots2paths(o *Obj, ms []Value) [][]Sel {
	var out [][]Sel
	for _, m := range ms {
		if p, ok := m.(*PtrV); ok && p.Obj == o {
			out = append(out, p.Path)
		}
	}
	return out
}
func (x *Exec) isGlobalObj(o *Obj) bool {
	for _, g := range x.globals {
		if g == o {
			return true
		}
	}
	return false
}

func (x *Exec) unchanged(a, b Value, except [][]Sel, path []Sel) *Term {
	for _, e := range except {
		if len(e) == len(path) {
			eq := true
			for i := range e {
				if e[i] != path[i] {
					eq = false
				}
			}
			if eq {
				return True
			}
		}
	}
	if a == b {
		return True
	}
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			return Eq(p, q)
		}
	case *StructV:
		if q, ok := b.(*StructV); ok {
			r := True
			for i := range p.F {
				r = And(r, x.unchanged(p.F[i], q.F[i], except, append(append([]Sel(nil), path...), Sel{F: i})))
			}
			return r
		}
	case *ArrV:
		if q, ok := b.(*ArrV); ok && len(p.E) == len(q.E) {
			r := True
			for i := range p.E {
				r = And(r, x.unchanged(p.E[i], q.E[i], except, append(append([]Sel(nil), path...), Sel{Idx: Int(int64(i))})))
			}
			return r
		}
	case *SymArr:
		if q, ok := b.(*SymArr); ok {
			r := True
			zipLeaves(p.Tree, q.Tree, func(s, t *Term) *Term { r = And(r, Eq(s, t)); return s })
			return r
		}
	case *SliceV:
		if q, ok := b.(*SliceV); ok && p.Obj == q.Obj {
			return And(Eq(p.Off, q.Off), Eq(p.Len, q.Len))
		}
	case *PtrV, *IfaceV, *FuncV, *OpaqueV:
		return Bool(sameVal(a, b))
	}
	return False
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(fr *Frame, st *State, name string, call *ast.CallExpr) Value {
	switch name {
	case "len":
		t := x.typeOf(fr, call.Args[0])
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return Int(pt.Elem().Underlying().(*types.Array).Len())
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			return Int(at.Len())
		}
		return x.lenOf(x.eval(fr, st, call.Args[0]), call)
	case "cap":
		v := x.eval(fr, st, call.Args[0])
		if s, ok := v.(*SliceV); ok {
			return s.Cap
		}
		panic(unsup(call, "cap of %T", v))
	case "make":
		t := x.typeOf(fr, call)
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return &OpaqueV{T: t, ID: newID()}
		}
		n := convTerm(x.eval(fr, st, call.Args[1]).(*Term), IntS)
		c := n
		if len(call.Args) > 2 {
			c = convTerm(x.eval(fr, st, call.Args[2]).(*Term), IntS)
		}
		x.safety(fr, st, And(Le(Int(0), n), Le(n, c)), "make size", call)
		if x.quant > 0 {
			panic(unsup(call, "allocation inside a quantifier"))
		}
		o := NewObj("make", t)
		o.Escaped = true
		if k, ok := c.IntVal(); ok && k >= 0 {
			st.heap[o] = newArr(sl.Elem(), k)
		} else {
			if !isScalarTree(sl.Elem()) {
				panic(unsup(call, "make of %v with symbolic length", t))
			}
			st.heap[o] = &SymArr{Elem: sl.Elem(), Tree: mapLeaves(zeroVal(sl.Elem()), func(t *Term) *Term { return ConstArr(ArrS(t.S), t) })}
		}
		return &SliceV{Obj: o, Off: Int(0), Len: n, Cap: c, Elem: sl.Elem()}
	case "new":
		t := x.typeOf(fr, call).(*types.Pointer).Elem()
		o := NewObj("new", t)
		o.Escaped = true
		st.heap[o] = zeroVal(t)
		return &PtrV{Obj: o}
	case "append":
		return x.appendCall(fr, st, call)
	case "copy":
		d := x.eval(fr, st, call.Args[0])
		s := x.eval(fr, st, call.Args[1])
		return x.copySlice(fr, st, d, s, call)
	case "print", "println":
		return &TupleV{}
	case "min", "max":
		r := x.eval(fr, st, call.Args[0]).(*Term)
		for _, a := range call.Args[1:] {
			b := x.eval(fr, st, a).(*Term)
			if name == "min" {
				r = Ite(Le(r, b), r, b)
			} else {
				r = Ite(Le(b, r), r, b)
			}
		}
		return r
	case "panic":
		x.panicStmt(fr, st, call)
		st.assume(False, true)
		return &TupleV{}
	}
	panic(unsup(call, "builtin %s", name))
}

func (x *Exec) copySlice(fr *Frame, st *State, d, s Value, n ast.Node) Value {
	if m, ok := d.(*MuxV); ok {
		return x.callMux(st, m.C, func(b *State) Value { return x.copySlice(fr, b, m.A, s, n) }, func(b *State) Value { return x.copySlice(fr, b, m.B, s, n) })
	}
	if m, ok := s.(*MuxV); ok {
		return x.callMux(st, m.C, func(b *State) Value { return x.copySlice(fr, b, d, m.A, n) }, func(b *State) Value { return x.copySlice(fr, b, d, m.B, n) })
	}
	ds, ok1 := d.(*SliceV)
	ss, ok2 := s.(*SliceV)
	if !ok1 || !ok2 {
		panic(unsup(n, "copy of %T to %T", s, d))
	}
	cnt := Ite(Le(ds.Len, ss.Len), ds.Len, ss.Len)
	if ds.Obj == nil || ss.Obj == nil {
		return Int(0)
	}
	if k, ok := cnt.IntVal(); ok && k <= explodeLimit {
		var vs []Value
		for i := int64(0); i < k; i++ {
			vs = append(vs, loadPath(st.heap[ss.Obj], []Sel{{Idx: Add(ss.Off, Int(i))}}))
		}
		for i := int64(0); i < k; i++ {
			st.heap[ds.Obj] = storePath(st.heap[ds.Obj], []Sel{{Idx: Add(ds.Off, Int(i))}}, vs[i])
		}
		return cnt
	}
	if x.quant > 0 {
		panic(unsup(n, "copy inside a quantifier"))
	}
	da, ok1 := st.heap[ds.Obj].(*SymArr)
	sa, ok2 := st.heap[ss.Obj].(*SymArr)
	if !ok1 || !ok2 {
		panic(unsup(n, "copy between exploded arrays of symbolic length"))
	}
	nw := symArr(ds.Obj.Name, da.Elem)
	st.heap[ds.Obj] = nw
	k := FreshBound("k", IntS)
	in := And(Le(ds.Off, k), Lt(k, Add(ds.Off, cnt)))
	var conds []*Term
	zipLeaves(nw.Tree, da.Tree, func(p, q *Term) *Term {
		conds = append(conds, Imp(Not(in), Eq(Select(p, k), Select(q, k))))
		return p
	})
	zipLeaves(nw.Tree, sa.Tree, func(p, q *Term) *Term {
		conds = append(conds, Imp(in, Eq(Select(p, k), Select(q, Add(k, Sub(ss.Off, ds.Off))))))
		return p
	})
	for _, c := range conds {
		st.assume(Forall([]*Term{k}, c), false)
	}
	zipLeaves(nw.Tree, da.Tree, func(p, q *Term) *Term {
		cntFrame(st, p, q, Int(0), func(a, b *Term) *Term { return Or(Le(b, ds.Off), Le(Add(ds.Off, cnt), a)) })
		return p
	})
	zipLeaves(nw.Tree, sa.Tree, func(p, q *Term) *Term {
		cntFrame(st, p, q, Sub(ss.Off, ds.Off), func(a, b *Term) *Term { return And(Le(ds.Off, a), Le(b, Add(ds.Off, cnt))) })
		return p
	})
	return cnt
}

func (x *Exec) appendCall(fr *Frame, st *State, call *ast.CallExpr) Value {
	t := x.typeOf(fr, call)
	et := t.Underlying().(*types.Slice).Elem()
	base := x.eval(fr, st, call.Args[0])
	var f func(st *State, base Value) Value
	f = func(st *State, base Value) Value {
		if m, ok := base.(*MuxV); ok {
			return x.callMux(st, m.C, func(b *State) Value { return f(b, m.A) }, func(b *State) Value { return f(b, m.B) })
		}
		s, ok := base.(*SliceV)
		if !ok {
			panic(unsup(call, "append to %T", base))
		}
		o := NewObj("append", t)
		o.Escaped = true
		x.trusted["append is modelled as always reallocating"] = true
		if call.Ellipsis.IsValid() {
			y := x.eval(fr, st, call.Args[1])
			ys, ok := y.(*SliceV)
			if !ok {
				panic(unsup(call, "append of %T...", y))
			}
			if k, ok := ys.Len.IntVal(); ok && k <= explodeLimit {
				var vs []Value
				for i := int64(0); i < k; i++ {
					vs = append(vs, loadPath(st.heap[ys.Obj], []Sel{{Idx: Add(ys.Off, Int(i))}}))
				}
				return x.appendVals(st, s, vs, o, et, call)
			}
			if s.Obj == nil || s.Len == Int(0) {
				st.heap[o] = st.heap[ys.Obj]
				return &SliceV{Obj: o, Off: ys.Off, Len: ys.Len, Cap: ys.Len, Elem: et}
			}
			panic(unsup(call, "append of a slice of symbolic length"))
		}
		var vs []Value
		for _, a := range call.Args[1:] {
			vs = append(vs, x.conv(x.eval(fr, st, a), x.typeOf(fr, a), et))
		}
		return x.appendVals(st, s, vs, o, et, call)
	}
	return f(st, base)
}

func (x *Exec) appendVals(st *State, s *SliceV, vs []Value, o *Obj, et types.Type, n ast.Node) Value {
	if len(vs) == 0 {
		return s
	}
	nl := Add(s.Len, Int(int64(len(vs))))
	if k, ok := s.Len.IntVal(); ok && k <= explodeLimit {
		arr := &ArrV{}
		for i := int64(0); i < k; i++ {
			arr.E = append(arr.E, loadPath(st.heap[s.Obj], []Sel{{Idx: Add(s.Off, Int(i))}}))
		}
		arr.E = append(arr.E, vs...)
		st.heap[o] = arr
		return &SliceV{Obj: o, Off: Int(0), Len: nl, Cap: nl, Elem: et}
	}
	a, ok := st.heap[s.Obj].(*SymArr)
	if !ok {
		panic(unsup(n, "append to an exploded array of symbolic length"))
	}
	var cur Value = a
	for i, v := range vs {
		cur = storePath(cur, []Sel{{Idx: Add(s.Off, s.Len, Int(int64(i)))}}, v)
	}
	st.heap[o] = cur
	return &SliceV{Obj: o, Off: s.Off, Len: nl, Cap: nl, Elem: et}
}

// ---------------------------------------------------------------- standard library

func (x *Exec) stdCall(fr *Frame, st *State, f *types.Func, call *ast.CallExpr) Value {
	name := f.Pkg().Path() + "." + f.Name()
	sig := f.Type().(*types.Signature)
	num := func() []*Term {
		args := x.evalArgs(fr, st, call, sig)
		var ts []*Term
		for _, a := range args {
			t, ok := a.(*Term)
			if !ok {
				panic(unsup(call, "%s of %T", name, a))
			}
			ts = append(ts, t)
		}
		return ts
	}
	switch name {
	case "math.Abs":
		a := num()[0]
		if nonNeg(a) {
			return a
		}
		if a.IsNum() {
			return Num(RealS, new(big.Rat).Abs(a.V))
		}
		return Ite(Le(Real(0), a), a, Neg(a))
	case "math.Signbit":
		x.trusted["floating point is modelled by the reals: math.Signbit(0) is false"] = true
		return Lt(num()[0], Real(0))
	case "math.Copysign":
		a := num()
		m := Ite(Le(Real(0), a[0]), a[0], Neg(a[0]))
		return Ite(Lt(a[1], Real(0)), Neg(m), m)
	case "math.Max":
		a := num()
		return Ite(Le(a[1], a[0]), a[0], a[1])
	case "math.Min":
		a := num()
		return Ite(Le(a[0], a[1]), a[0], a[1])
	case "math.Floor":
		return ToReal(ToInt(num()[0]))
	case "math.Ceil":
		return Neg(ToReal(ToInt(Neg(num()[0]))))
	case "math.Trunc":
		return ToReal(Trunc(num()[0]))
	case "math.Round":
		a := num()[0]
		h := Num(RealS, big.NewRat(1, 2))
		return Ite(Le(Real(0), a), ToReal(ToInt(Add(a, h))), Neg(ToReal(ToInt(Add(Neg(a), h)))))
	case "math.Sqrt":
		a := num()[0]
		x.safety(fr, st, Le(Real(0), a), "sqrt domain", call)
		return sqrtTerm(a)
	case "math.Pow":
		a := num()
		return x.pow(fr, st, a[0], a[1], call)
	case "math.Mod":
		a := num()
		// result has the sign of a[0]; |r| < |y|, a = q*y + r with integer q
		x.safety(fr, st, Ne(a[1], Real(0)), "float div by zero", call)
		y := Ite(Le(Real(0), a[1]), a[1], Neg(a[1]))
		q := Trunc(Div(a[0], y))
		return Sub(a[0], Mul(ToReal(q), y))
	case "math.Exp", "math.Log", "math.Sin", "math.Cos", "math.Tan", "math.Log10", "math.Log2", "math.Cbrt", "math.Atan", "math.Acos", "math.Asin", "math.Sinh", "math.Cosh", "math.Tanh", "math.Gamma":
		a := num()
		if f.Name() == "Log" || f.Name() == "Log10" || f.Name() == "Log2" {
			x.safety(fr, st, Lt(Real(0), a[0]), "log domain", call)
		}
		return App("math."+f.Name(), RealS, a...)
	case "math.Atan2", "math.Hypot":
		a := num()
		return App("math."+f.Name(), RealS, a...)
	case "math.IsNaN", "math.IsInf":
		num()
		x.trusted["floating point is modelled by the reals: math.IsNaN and math.IsInf are false"] = true
		return False
	case "math.Inf":
		a := num()
		if k, ok := a[0].IntVal(); ok {
			if k >= 0 {
				return App("math.PosInf", RealS)
			}
			return Neg(App("math.PosInf", RealS))
		}
	case "errors.New", "fmt.Errorf":
		x.evalArgsIgnore(fr, st, call)
		return opaqueErr()
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		var ts []*Term
		for _, a := range call.Args {
			v := x.eval(fr, st, a)
			if t, ok := v.(*Term); ok {
				ts = append(ts, t)
			} else if iv, ok := v.(*IfaceV); ok {
				if t, ok := iv.V.(*Term); ok {
					ts = append(ts, t)
				}
			}
		}
		nm := "sprintf"
		for _, t := range ts {
			nm += "_" + clean(t.S.String())
		}
		return App(nm, StrS, ts...)
	case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print", "runtime.GC":
		x.evalArgsIgnore(fr, st, call)
		if sig.Results().Len() == 0 {
			return &TupleV{}
		}
		return &TupleV{V: []Value{Int(0), &IfaceV{}}}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Trim", "path.Join", "path.Base", "path.Dir", "path/filepath.Join":
		args := x.evalArgsTerms(fr, st, call)
		return App(name+fmt.Sprint(len(args)), StrS, args...)
	case "time.Now", "time.Since", "math/rand.New", "math/rand.NewSource":
		x.evalArgsIgnore(fr, st, call)
		return &OpaqueV{T: sig.Results().At(0).Type(), ID: newID()}
	case "math/rand.Int63n", "math/rand.Int31n", "math/rand.Intn":
		if x.quant == 0 {
			a := num()
			x.safety(fr, st, Lt(Int(0), a[0]), "positive range of a random number", call)
			x.trusted["math/rand."+f.Name()+"(n) returns a number in [0, n)"] = true
			r := Fresh("rand", IntS)
			st.assume(And(Le(Int(0), r), Lt(r, a[0])), false)
			return r
		}
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		x.evalArgsIgnore(fr, st, call)
		return Fresh("numcpu", IntS)
	case "math.Float64bits", "math.Float32bits":
		a := num()
		return App("math."+f.Name(), scalarSort(sig.Results().At(0).Type()), a...)
	case "math.Float64frombits", "math.Float32frombits":
		a := num()
		return App("math."+f.Name(), RealS, a...)
	}
	panic(unsup(call, "external function %s", name))
}

func (x *Exec) evalArgsIgnore(fr *Frame, st *State, call *ast.CallExpr) {
	for _, a := range call.Args {
		x.eval(fr, st, a)
	}
}
func (x *Exec) evalArgsTerms(fr *Frame, st *State, call *ast.CallExpr) []*Term {
	var ts []*Term
	for _, a := range call.Args {
		if t, ok := x.eval(fr, st, a).(*Term); ok {
			ts = append(ts, t)
		}
	}
	return ts
}

func sqrtTerm(a *Term) *Term {
	if a.IsNum() && a.V.Sign() >= 0 {
		n, d := a.V.Num(), a.V.Denom()
		sn, sd := new(big.Int).Sqrt(n), new(big.Int).Sqrt(d)
		if new(big.Int).Mul(sn, sn).Cmp(n) == 0 && new(big.Int).Mul(sd, sd).Cmp(d) == 0 {
			return Num(RealS, new(big.Rat).SetFrac(sn, sd))
		}
	}
	return App("sqrt", RealS, a)
}

func (x *Exec) pow(fr *Frame, st *State, a, b *Term, n ast.Node) Value {
	if b.IsNum() {
		if b.V.IsInt() && b.V.Num().IsInt64() {
			k := b.V.Num().Int64()
			neg := k < 0
			if neg {
				k = -k
			}
			if k <= 16 {
				r := Real(1)
				for i := int64(0); i < k; i++ {
					r = Mul(r, a)
				}
				if neg {
					x.safety(fr, st, Ne(a, Real(0)), "float div by zero", n)
					return Div(Real(1), r)
				}
				return r
			}
		}
		if b.V.Cmp(big.NewRat(1, 2)) == 0 {
			x.safety(fr, st, Le(Real(0), a), "sqrt domain", n)
			return sqrtTerm(a)
		}
	}
	if a.IsNum() && b.IsNum() {
		return App("math.Pow", RealS, a, b)
	}
	return App("math.Pow", RealS, a, b)
}
