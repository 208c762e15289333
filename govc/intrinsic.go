package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

func (x *Exec) specArg(fr *Frame, st *State, e ast.Expr) *Term {
	x.mute++
	defer func() { x.mute-- }()
	v := x.eval(fr, st, e)
	t, ok := v.(*Term)
	if !ok {
		panic(unsup(e, "specification of type %T", v))
	}
	return t
}

func (x *Exec) ctxOf(fr *Frame) *Ctx {
	for f := fr; f != nil; f = f.up {
		if f.ctx != nil {
			return f.ctx
		}
	}
	for f := fr; f != nil; f = f.caller {
		for g := f; g != nil; g = g.up {
			if g.ctx != nil {
				return g.ctx
			}
		}
	}
	return nil
}

func (x *Exec) label(fr *Frame, e ast.Expr) string {
	if l, ok := e.(*ast.BasicLit); ok {
		return strings.Trim(l.Value, "\"`")
	}
	return types.ExprString(e)
}

func (x *Exec) intrinsic(fr *Frame, st *State, name string, call *ast.CallExpr) Value {
	none := &TupleV{}
	args := call.Args
	switch name {
	case "requires":
		c := x.ctxOf(fr)
		g := x.specArg(fr, st, args[0])
		if x.always != nil && x.always.level > 1 {
			return none
		}
		if c != nil && c.use && x.always == nil {
			x.proveUse(fr, st, g, "precondition", "precondition of "+c.target.Name()+": "+x.exprText(args[0]), call)
		}
		st.assume(g, false)
		return none
	case "ensures":
		c := x.ctxOf(fr)
		g := x.specArg(fr, st, args[1])
		if x.always != nil {
			if x.always.level == 1 {
				var hy []*Term
				for _, p := range st.pc[x.always.base:] {
					hy = append(hy, p.T)
				}
				x.always.facts = append(x.always.facts, Imp(And(hy...), g))
			}
			return none
		}
		if c != nil && c.use {
			st.assume(g, false)
			return none
		}
		x.coverPoint(st, call)
		x.prove(st, g, "ensures", x.label(fr, args[0]), call)
		st.assume(g, false)
		return none
	case "assert":
		c := x.ctxOf(fr)
		if c != nil && c.use {
			return none
		}
		g := x.specArg(fr, st, args[1])
		x.prove(st, g, "assert", x.label(fr, args[0]), call)
		st.assume(g, false)
		return none
	case "proof":
		c := x.ctxOf(fr)
		if c != nil && c.use {
			if x.curCtx != nil && x.curCtx.target == c.target {
				if c.measure == nil {
					panic(unsup(call, "recursive lemma without a measure"))
				}
				x.prove(st, lexLess(c.measure, x.curCtx.measure), "termination", "lemma measure decreases", call)
			}
			return none
		}
		fv := x.eval(fr, st, args[0])
		x.callFunc(fr, st, fv, nil, call)
		return none
	case "forall", "exists":
		lo := convTerm(x.specArg(fr, st, args[0]), IntS)
		hi := convTerm(x.specArg(fr, st, args[1]), IntS)
		fv := x.eval(fr, st, args[2])
		at := func(k *Term) *Term {
			b := st.clone()
			b.assume(Le(lo, k), true)
			b.assume(Lt(k, hi), true)
			x.mute++
			x.quant++
			defer func() { x.mute--; x.quant-- }()
			r := x.callFunc(fr, b, fv, []Value{k}, call)
			return r.(*TupleV).V[0].(*Term)
		}
		l, ok1 := lo.IntVal()
		h, ok2 := hi.IntVal()
		if ok1 && ok2 && h-l <= explodeLimit {
			r := Bool(name == "forall")
			for k := l; k < h; k++ {
				if name == "forall" {
					r = And(r, at(Int(k)))
				} else {
					r = Or(r, at(Int(k)))
				}
			}
			return r
		}
		pn := "k"
		if f, ok := args[2].(*ast.FuncLit); ok && len(f.Type.Params.List) > 0 && len(f.Type.Params.List[0].Names) > 0 {
			pn = f.Type.Params.List[0].Names[0].Name
		}
		k := FreshBound(pn, IntS)
		p := at(k)
		if name == "forall" {
			return Forall([]*Term{k}, Or(Lt(k, lo), Le(hi, k), p))
		}
		return Exists([]*Term{k}, And(Le(lo, k), Lt(k, hi), p))
	case "old":
		f := fr
		for f.up != nil && f.fi == nil {
			f = f.up
		}
		if f.entry == nil {
			panic(unsup(call, "old outside a function"))
		}
		b := st.clone()
		for o, v := range f.entry.heap {
			b.heap[o] = v
		}
		// quantified variables and loop locals keep their current values,
		// everything that existed at entry has its entry value
		return x.deepCopy(b, st, x.eval(fr, b, args[0]), map[*Obj]*Obj{})
	case "snap":
		v := x.eval(fr, st, args[0])
		return x.deepCopy(st, st, v, map[*Obj]*Obj{})
	case "modifies":
		c := x.ctxOf(fr)
		for _, a := range args {
			v := x.eval(fr, st, a)
			c.modifies = append(c.modifies, v)
		}
		return none
	case "returnsSame":
		c := x.ctxOf(fr)
		for _, a := range args {
			c.returns = append(c.returns, x.eval(fr, st, a))
		}
		return none
	case "modifiesAll":
		x.ctxOf(fr).modAll = true
		return none
	case "loop":
		return none
	case "always":
		// a lemma for all values of the parameters of the closure
		if x.always != nil {
			panic(unsup(call, "nested always"))
		}
		lit, ok := args[0].(*ast.FuncLit)
		if !ok {
			panic(unsup(call, "always of a function value"))
		}
		var vs []*Term
		var as []Value
		for _, f := range lit.Type.Params.List {
			s := scalarSort(x.typeOf(fr, f.Type))
			if s == nil {
				panic(unsup(call, "always over a non-scalar"))
			}
			for _, n := range f.Names {
				v := FreshBound(n.Name, s)
				vs = append(vs, v)
				as = append(as, v)
			}
		}
		fv := x.eval(fr, st, args[0])
		b := st.clone()
		x.always = &alwaysCtx{base: len(b.pc)}
		x.mute++
		x.quant++
		func() {
			defer func() { x.mute--; x.quant-- }()
			x.callFunc(fr, b, fv, as, call)
		}()
		facts := x.always.facts
		x.always = nil
		for _, f := range facts {
			st.assume(Forall(vs, f), false)
		}
		return none
	case "decreases":
		c := x.ctxOf(fr)
		for _, a := range args {
			c.measure = append(c.measure, convTerm(x.specArg(fr, st, a), IntS))
		}
		return none
	case "panicsWhen":
		c := x.ctxOf(fr)
		c.panics = x.specArg(fr, st, args[0])
		return none
	case "feq", "feqTol":
		a, b := x.specArg(fr, st, args[0]), x.specArg(fr, st, args[1])
		return Eq(convTerm(a, RealS), convTerm(b, RealS))
	case "fle":
		a, b := x.specArg(fr, st, args[0]), x.specArg(fr, st, args[1])
		return Le(convTerm(a, RealS), convTerm(b, RealS))
	case "flt":
		a, b := x.specArg(fr, st, args[0]), x.specArg(fr, st, args[1])
		return Lt(convTerm(a, RealS), convTerm(b, RealS))
	case "pick":
		c := x.specArg(fr, st, args[0])
		a := x.eval(fr, st, args[1])
		b := x.eval(fr, st, args[2])
		t := x.typeOf(fr, call)
		return mergeVal(c, x.conv(a, x.typeOf(fr, args[1]), t), x.conv(b, x.typeOf(fr, args[2]), t))
	case "iter":
		if len(x.iterIdx) == 0 {
			panic(unsup(call, "iter() outside a range loop"))
		}
		return st.heap[x.iterIdx[len(x.iterIdx)-1]]
	case "hint":
		for _, a := range args {
			x.hints = append(x.hints, x.specArg(fr, st, a))
		}
		return none
	case "cnt", "cntgt":
		s, ok := x.eval(fr, st, args[0]).(*SliceV)
		if !ok {
			panic(unsup(call, "cnt of a conditional slice"))
		}
		lo, hi := x.specArg(fr, st, args[1]), x.specArg(fr, st, args[2])
		v := x.specArg(fr, st, args[3])
		return cntTerm(name, x.arrTerm(st, s), Add(s.Off, lo), Add(s.Off, hi), v)
	case "samebase":
		a, ok1 := x.eval(fr, st, args[0]).(*SliceV)
		b, ok2 := x.eval(fr, st, args[1]).(*SliceV)
		if !ok1 || !ok2 {
			panic(unsup(call, "samebase of conditional slices"))
		}
		return And(Bool(a.Obj == b.Obj), Eq(a.Off, b.Off))
	case "isintegral":
		a := x.specArg(fr, st, args[0])
		return Eq(ToReal(ToInt(a)), a)
	case "anyFloat":
		if x.quant > 0 {
			panic(unsup(call, "anyFloat inside a quantifier"))
		}
		return Fresh("any", RealS)
	case "realSlice":
		return x.eval(fr, st, args[0])
	case "forallReal":
		fv := x.eval(fr, st, args[0])
		k := FreshBound("r", RealS)
		b := st.clone()
		x.mute++
		x.quant++
		defer func() { x.mute--; x.quant-- }()
		r := x.callFunc(fr, b, fv, []Value{k}, call)
		return Forall([]*Term{k}, r.(*TupleV).V[0].(*Term))
	case "runtimeOnly":
		return none
	case "isRuntime":
		return False
	}
	panic(unsup(call, "intrinsic %s", name))
}

type alwaysCtx struct {
	level, base int
	facts       []*Term
}

func (x *Exec) coverPoint(st *State, n ast.Node) {
	if x.mute > 0 || x.dry > 0 || len(x.cover) > x.combo {
		return
	}
	var hy []*Term
	for _, p := range st.pc {
		hy = append(hy, p.T)
	}
	x.cover = append(x.cover, &Obl{Name: "reachability of the postcondition", Kind: "cover", Pos: x.pos(n), Hyps: hy, Goal: False})
}

func (x *Exec) arrTerm(st *State, s *SliceV) *Term {
	if s.Obj == nil {
		return ConstArr(ArrS(scalarSort(s.Elem)), zeroTerm(scalarSort(s.Elem)))
	}
	switch a := st.heap[s.Obj].(type) {
	case *SymArr:
		t, ok := a.Tree.(*Term)
		if !ok {
			panic(unsup(x.curNode, "array of non-scalars"))
		}
		return t
	case *ArrV:
		srt := scalarSort(s.Elem)
		t := ConstArr(ArrS(srt), zeroTerm(srt))
		for i, e := range a.E {
			t = Store(t, Int(int64(i)), e.(*Term))
		}
		return t
	}
	panic(unsup(x.curNode, "array term"))
}

func (x *Exec) deepCopy(src, st *State, v Value, memo map[*Obj]*Obj) Value {
	cp := func(o *Obj) *Obj {
		if o == nil {
			return nil
		}
		if n, ok := memo[o]; ok {
			return n
		}
		n := NewObj("snap."+o.Name, o.T)
		n.Escaped = true
		memo[o] = n
		st.heap[n] = x.deepCopy(src, st, src.heap[o], memo)
		return n
	}
	switch p := v.(type) {
	case *SliceV:
		return &SliceV{Obj: cp(p.Obj), Off: p.Off, Len: p.Len, Cap: p.Cap, Elem: p.Elem}
	case *PtrV:
		return &PtrV{Obj: cp(p.Obj), Path: p.Path}
	case *StructV:
		r := &StructV{T: p.T}
		for _, f := range p.F {
			r.F = append(r.F, x.deepCopy(src, st, f, memo))
		}
		return r
	case *ArrV:
		r := &ArrV{}
		for _, f := range p.E {
			r.E = append(r.E, x.deepCopy(src, st, f, memo))
		}
		return r
	case *MuxV:
		return &MuxV{p.C, x.deepCopy(src, st, p.A, memo), x.deepCopy(src, st, p.B, memo)}
	case *IfaceV:
		if p.T == nil {
			return p
		}
		return &IfaceV{p.T, x.deepCopy(src, st, p.V, memo)}
	}
	return v
}

// ---------------------------------------------------------------- counting

// cntTerm builds cnt(A, lo, hi, v) = #{k in [lo,hi) : A[k] = v}; the rewriting
// over Store is justified by the lemmas lemma_cnt* (proved in the sort
// package's contract file).
//
// cntgt counts the elements greater than v in the same way.
func cntTerm(fn string, a, lo, hi, v *Term) *Term {
	d := Sub(hi, lo)
	if d.IsNum() && d.V.Sign() <= 0 {
		return Int(0)
	}
	if k, ok := d.IntVal(); ok && k <= 8 {
		r := Int(0)
		for i := int64(0); i < k; i++ {
			r = Add(r, cntOne(fn, Select(a, Add(lo, Int(i))), v))
		}
		return r
	}
	switch a.Op {
	case OStore:
		base := a.A[0]
		i, w := a.A[1], a.A[2]
		in := And(Le(lo, i), Lt(i, hi))
		delta := Sub(cntOne(fn, w, v), cntOne(fn, Select(base, i), v))
		return Add(cntTerm(fn, base, lo, hi, v), Ite(in, delta, Int(0)))
	case OIte:
		return Ite(a.A[0], cntTerm(fn, a.A[1], lo, hi, v), cntTerm(fn, a.A[2], lo, hi, v))
	}
	return App(fn, IntS, a, lo, hi, v)
}

func cntOne(fn string, e, v *Term) *Term {
	if fn == "cntgt" {
		return Ite(Lt(v, e), Int(1), Int(0))
	}
	return Ite(Eq(e, v), Int(1), Int(0))
}

// ---------------------------------------------------------------- recursive specification functions

func (x *Exec) recApp(fr *Frame, st *State, fi *FuncInfo, args []Value, call ast.Node) Value {
	d := x.recDefOf(fi)
	var ts []*Term
	for _, a := range args {
		ts = x.flattenArg(st, a, ts)
	}
	return &TupleV{V: []Value{mkRec(d.name, d.res, ts)}}
}
func mkRec(name string, s *Sort, ts []*Term) *Term { return mk(OApp, s, name, nil, nil, ts...) }

func (x *Exec) flattenArg(st *State, v Value, out []*Term) []*Term {
	switch p := v.(type) {
	case *Term:
		return append(out, p)
	case *StructV:
		for _, f := range p.F {
			out = x.flattenArg(st, f, out)
		}
		return out
	case *ArrV:
		for _, f := range p.E {
			out = x.flattenArg(st, f, out)
		}
		return out
	case *SymArr:
		mapLeaves(p.Tree, func(t *Term) *Term { out = append(out, t); return t })
		return out
	case *SliceV:
		if p.Obj == nil {
			v := mapLeaves(zeroVal(p.Elem), func(t *Term) *Term { return ConstArr(ArrS(t.S), t) })
			mapLeaves(v, func(t *Term) *Term { out = append(out, t); return t })
			return append(out, Int(0))
		}
		switch a := st.heap[p.Obj].(type) {
		case *SymArr:
			out = x.flattenArg(st, a, out)
		case *ArrV:
			if isScalarTree(p.Elem) {
				base := mapLeaves(zeroVal(p.Elem), func(t *Term) *Term { return ConstArr(ArrS(t.S), t) })
				var cur Value = &SymArr{Elem: p.Elem, Tree: base}
				for i, e := range a.E {
					cur = storePath(cur, []Sel{{Idx: Int(int64(i))}}, e)
				}
				out = x.flattenArg(st, cur, out)
			} else {
				panic(unsup(x.curNode, "recursive specification over %v", p.Elem))
			}
		}
		return append(out, p.Off)
	case *MuxV:
		a := x.flattenArg(st, p.A, nil)
		b := x.flattenArg(st, p.B, nil)
		if len(a) != len(b) {
			panic(unsup(x.curNode, "conditional argument of a recursive specification"))
		}
		for i := range a {
			out = append(out, Ite(p.C, a[i], b[i]))
		}
		return out
	case *PtrV:
		if p.Obj != nil {
			return x.flattenArg(st, x.loadPtr(st, p), out)
		}
	}
	panic(unsup(x.curNode, "argument %T of a recursive specification function", v))
}

func (x *Exec) recDefOf(fi *FuncInfo) *recDef {
	name := "rec." + fi.Pkg.Types.Name() + "." + fi.Obj.Name()
	if d, ok := x.recDefs[name]; ok {
		return d
	}
	sig := fi.Obj.Type().(*types.Signature)
	d := &recDef{fi: fi, name: name, res: scalarSort(sig.Results().At(0).Type())}
	if d.res == nil {
		panic(unsup(fi.Decl, "recursive specification with result %v", sig.Results()))
	}
	x.recDefs[name] = d
	st := &State{heap: map[*Obj]Value{}}
	var args []Value
	var poison []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		var v Value
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			o := NewObj("rp_"+p.Name(), p.Type())
			o.Escaped = true
			st.heap[o] = symArr("rp_"+p.Name(), sl.Elem())
			n := Fresh("rp_len", IntS)
			poison = append(poison, n)
			v = &SliceV{Obj: o, Off: Fresh("rp_off", IntS), Len: n, Cap: n, Elem: sl.Elem()}
		} else {
			v = symVal(st, "rp_"+p.Name(), p.Type(), 0)
		}
		args = append(args, v)
		d.params = x.flattenArg(st, v, d.params)
	}
	x.mute++
	x.quant++
	saveStack := x.stack
	x.stack = nil
	nf := &Frame{fi: fi, pkg: fi.Pkg, vars: map[types.Object]*Obj{}, spec: true}
	r := x.runBody(nf, st, sig, fi.Decl.Type, nil, nil, fi.Decl.Body, args, fi.Decl)
	x.stack = saveStack
	x.mute--
	x.quant--
	d.body = r.(*TupleV).V[0].(*Term)
	bad := map[*Term]bool{}
	for _, p := range poison {
		bad[p] = true
	}
	if len(mentions(d.body, bad)) > 0 {
		panic(unsup(fi.Decl, "recursive specification function %s uses len of a parameter", name))
	}
	return d
}

var _ = fmt.Sprint
