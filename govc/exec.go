package main

import (
	"context"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"
)

type Obl struct {
	Name string // stable name
	Kind string
	Pos  string
	Hyps []*Term
	Goal *Term
	Inv  string // invariant id for Houdini
	Auto bool

	// result
	Status  string // "proved", "failed", "unknown"
	Backend string
	Time    float64
	Model   map[string]string
	Why     string
	params  []ParamVal
}

type Annot struct {
	Fi    *FuncInfo
	Loops map[int][]string
	Opts  map[string]string
}

type retState struct {
	st  *State
	val []Value
}

type ctl struct {
	label  string
	isLoop bool
	brk    []*State
	cont   []*State
}

type Frame struct {
	fi       *FuncInfo // nil for closures
	pkg      *Pkg
	spec     bool
	vars     map[types.Object]*Obj
	up       *Frame
	caller   *Frame
	rets     []retState
	resObjs  []*Obj
	resT     *types.Tuple
	ctls     []*ctl
	entry    *State
	ctx      *Ctx // contract execution context
	annot    *Annot
	loops    map[string]int
	site     string
	tmap     map[*types.TypeParam]types.Type
	nextLbl  string
	defers   []func(st *State)
	isTarget bool
}

// Ctx is the execution of a contract function.
type Ctx struct {
	use      bool
	fi       *FuncInfo
	target   *types.Func
	modifies []Value
	modAll   bool
	panics   *Term
	measure  []*Term
	called   bool
	result   Value
	returns  []Value
}

type Exec struct {
	always    *alwaysCtx
	combo     int // which combination of split values is being executed
	splitName string
	L         *Loader
	contracts map[*types.Func]*FuncInfo
	annots    map[*types.Func]*Annot
	prune     bool // solver-decided branches
	cases     bool // case splits on integer variables
	opaque    map[string]bool
	congr     map[string]bool // functions whose applications are matched up to array arguments // recursive specification functions left unfolded
	inlineSet map[string]bool

	obls       []*Obl
	mute       int
	dry        int
	quant      int
	dropped    map[string]bool
	invSeen    map[string]bool
	stack      []*Frame
	bound      int // >0: bounded unrolling of symbolic loops
	cut        bool
	cur        *FuncInfo
	curCtx     *Ctx
	params     []ParamVal
	curNode    ast.Node
	iterIdx    []*Obj
	globals    map[types.Object]*Obj
	used       map[string]bool // functions executed (inlined) or used by contract
	usedC      map[string]bool
	usedFi     map[*FuncInfo]bool
	recDefs    map[string]*recDef
	trusted    map[string]bool
	nInv       int
	steps      int
	cover      []*Obl
	dropNames  map[string]string
	hints      []*Term
	noauto     bool
	specMem    map[string]bool
	pathSel    int // >=0: only this return path of the function under contract
	nPaths     int
	nextTarget bool
}

type ParamVal struct {
	Name string
	T    types.Type
	V    Value
	St   *State
}

func (x *Exec) pos(n ast.Node) string {
	if n == nil {
		return "?"
	}
	p := x.L.fset.Position(n.Pos())
	f := p.Filename
	f = strings.TrimPrefix(f, x.L.repo+"/")
	f = strings.TrimPrefix(f, x.L.verif+"/")
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Exec) top() *Frame {
	if len(x.stack) == 0 {
		return nil
	}
	return x.stack[len(x.stack)-1]
}

// ---------------------------------------------------------------- obligations

func (x *Exec) prove(st *State, goal *Term, kind, name string, n ast.Node) *Obl {
	if x.mute > 0 || x.dry > 0 {
		return nil
	}
	if goal == True {
		o := &Obl{Name: name, Kind: kind, Pos: x.pos(n), Goal: goal, Status: "proved", Backend: "simplifier"}
		x.obls = append(x.obls, o)
		return o
	}
	hy := make([]*Term, 0, len(st.pc))
	for _, p := range st.pc {
		hy = append(hy, p.T)
	}
	if x.splitName != "" {
		name += " [" + x.splitName + "]"
	}
	o := &Obl{Name: name, Kind: kind, Pos: x.pos(n), Hyps: hy, Goal: goal, params: x.params}
	x.obls = append(x.obls, o)
	return o
}

func (x *Exec) safety(fr *Frame, st *State, goal *Term, kind string, n ast.Node) {
	if fr.spec {
		return
	}
	if goal != True {
		if v, ok := st.known(goal); ok && v {
			goal = True
		}
	}
	o := x.prove(st, goal, kind, kind+" "+x.exprText(n), n)
	if o != nil && goal != True {
		// later obligations may rely on this one
		st.assume(goal, false)
	}
}

func (x *Exec) exprText(n ast.Node) string {
	if e, ok := n.(ast.Expr); ok {
		s := types.ExprString(e)
		if len(s) > 60 {
			s = s[:60]
		}
		return s
	}
	return x.pos(n)
}

// ---------------------------------------------------------------- variables

func (fr *Frame) lookup(o types.Object) *Obj {
	for f := fr; f != nil; f = f.up {
		if v, ok := f.vars[o]; ok {
			return v
		}
	}
	return nil
}

func (x *Exec) declare(fr *Frame, st *State, id *ast.Ident, v Value) {
	if id.Name == "_" {
		return
	}
	o := fr.pkg.Info.Defs[id]
	if o == nil {
		panic(unsup(id, "no object for %s", id.Name))
	}
	x.declareObj(fr, st, o, v)
}
func (x *Exec) declareObj(fr *Frame, st *State, o types.Object, v Value) {
	ob := NewObj(o.Name(), x.typ(fr, o.Type()))
	fr.vars[o] = ob
	st.heap[ob] = v
}

func (x *Exec) globalObj(st *State, o types.Object) *Obj {
	ob, ok := x.globals[o]
	if !ok {
		ob = NewObj(o.Name(), o.Type())
		ob.Escaped = true
		x.globals[o] = ob
	}
	if _, ok := st.heap[ob]; !ok {
		st.heap[ob] = x.globalInit(st, o)
	}
	return ob
}

// globalInit gives the initial value of a package variable. Package variables
// of /repo are treated as holding their initial value at the entry of the
// function under verification.
func (x *Exec) globalInit(st *State, o types.Object) Value {
	vs := x.L.Globals[o]
	if vs == nil {
		return &OpaqueV{T: o.Type(), ID: newID()}
	}
	p := x.L.GlobPkg[o]
	for i, n := range vs.Names {
		if p.Info.Defs[n] == o {
			if len(vs.Values) == 0 {
				return zeroVal(o.Type())
			}
			if i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
				fr := &Frame{pkg: p, vars: map[types.Object]*Obj{}, spec: true}
				return x.conv(x.eval(fr, st, vs.Values[i]), p.Info.Types[vs.Values[i]].Type, o.Type())
			}
		}
	}
	return &OpaqueV{T: o.Type(), ID: newID()}
}

func (x *Exec) typ(fr *Frame, t types.Type) types.Type {
	if len(fr.tmap) == 0 {
		for f := fr.up; f != nil; f = f.up {
			if len(f.tmap) > 0 {
				return substType(t, f.tmap)
			}
		}
		return t
	}
	return substType(t, fr.tmap)
}
func substType(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	switch u := t.(type) {
	case *types.TypeParam:
		if r, ok := m[u]; ok {
			return r
		}
	case *types.Slice:
		return types.NewSlice(substType(u.Elem(), m))
	case *types.Array:
		return types.NewArray(substType(u.Elem(), m), u.Len())
	case *types.Pointer:
		return types.NewPointer(substType(u.Elem(), m))
	}
	return t
}

func (x *Exec) typeOf(fr *Frame, e ast.Expr) types.Type {
	tv, ok := fr.pkg.Info.Types[e]
	if ok && tv.Type != nil {
		return x.typ(fr, tv.Type)
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := fr.pkg.Info.Uses[id]; o != nil {
			return x.typ(fr, o.Type())
		}
		if o := fr.pkg.Info.Defs[id]; o != nil {
			return x.typ(fr, o.Type())
		}
	}
	panic(unsup(e, "no type for %s", types.ExprString(e)))
}

// ---------------------------------------------------------------- constants

func ratOf(v constant.Value) *big.Rat {
	v = constant.ToFloat(v)
	switch y := constant.Val(v).(type) {
	case *big.Rat:
		return y
	case *big.Float:
		r, _ := y.Rat(nil)
		return r
	case int64:
		return new(big.Rat).SetInt64(y)
	case *big.Int:
		return new(big.Rat).SetInt(y)
	}
	n := constant.Num(v)
	d := constant.Denom(v)
	a, _ := new(big.Int).SetString(n.ExactString(), 10)
	b, _ := new(big.Int).SetString(d.ExactString(), 10)
	return new(big.Rat).SetFrac(a, b)
}

func (x *Exec) constVal(fr *Frame, e ast.Expr, tv types.TypeAndValue) Value {
	t := x.typ(fr, tv.Type)
	s := scalarSort(t)
	if s == nil {
		if _, ok := t.Underlying().(*types.Interface); ok {
			// untyped constant converted to an interface
			bt := types.Default(tv.Type)
			return x.constOf(fr, e, tv.Value, bt)
		}
		panic(unsup(e, "constant of type %v", t))
	}
	return x.constOf(fr, e, tv.Value, t)
}
func (x *Exec) constOf(fr *Frame, e ast.Expr, v constant.Value, t types.Type) Value {
	s := scalarSort(t)
	switch s.K {
	case KBool:
		return Bool(constant.BoolVal(v))
	case KStr:
		return strConst(constant.StringVal(v))
	case KReal:
		if r := x.exactConst(fr, e); r != nil {
			return Num(RealS, r)
		}
		return Num(RealS, ratOf(v))
	case KInt:
		return Num(IntS, ratOf(constant.ToInt(v)))
	case KBV:
		r := ratOf(constant.ToInt(v))
		return BVNum(s.N, r.Num())
	}
	panic("const")
}

// exactConst evaluates a constant expression over the rationals, without the
// rounding to float64 that go/types applies to typed constants: machine
// floating point is treated as mathematical arithmetic throughout.
func (x *Exec) exactConst(fr *Frame, e ast.Expr) *big.Rat {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.exactConst(fr, e.X)
	case *ast.BasicLit:
		if e.Kind == token.INT || e.Kind == token.FLOAT {
			return ratOf(constant.MakeFromLiteral(e.Value, e.Kind, 0))
		}
	case *ast.UnaryExpr:
		r := x.exactConst(fr, e.X)
		if r == nil {
			return nil
		}
		switch e.Op {
		case token.SUB:
			return new(big.Rat).Neg(r)
		case token.ADD:
			return r
		}
	case *ast.BinaryExpr:
		a, b := x.exactConst(fr, e.X), x.exactConst(fr, e.Y)
		if a == nil || b == nil {
			return nil
		}
		switch e.Op {
		case token.ADD:
			return new(big.Rat).Add(a, b)
		case token.SUB:
			return new(big.Rat).Sub(a, b)
		case token.MUL:
			return new(big.Rat).Mul(a, b)
		case token.QUO:
			// integer constant division truncates
			ta, tb := fr.pkg.Info.Types[e.X], fr.pkg.Info.Types[e.Y]
			isI := func(tv types.TypeAndValue) bool {
				bt, ok := tv.Type.Underlying().(*types.Basic)
				return ok && bt.Info()&types.IsInteger != 0
			}
			if isI(ta) && isI(tb) && tv0IsInt(fr, e.X) && tv0IsInt(fr, e.Y) {
				return nil
			}
			if b.Sign() == 0 {
				return nil
			}
			return new(big.Rat).Quo(a, b)
		}
	case *ast.CallExpr:
		if len(e.Args) == 1 {
			if tv, ok := fr.pkg.Info.Types[e.Fun]; ok && tv.IsType() {
				if s := scalarSort(tv.Type); s == RealS {
					return x.exactConst(fr, e.Args[0])
				}
			}
		}
	case *ast.Ident:
		if c, ok := fr.pkg.Info.Uses[e].(*types.Const); ok {
			return x.exactConstObj(c)
		}
	case *ast.SelectorExpr:
		if c, ok := fr.pkg.Info.Uses[e.Sel].(*types.Const); ok {
			return x.exactConstObj(c)
		}
	}
	return nil
}
func tv0IsInt(fr *Frame, e ast.Expr) bool {
	if b, ok := ast.Unparen(e).(*ast.BasicLit); ok {
		return b.Kind == token.INT
	}
	return true
}
func (x *Exec) exactConstObj(c *types.Const) *big.Rat {
	if c.Val().Kind() == constant.Float || c.Val().Kind() == constant.Int {
		return ratOf(c.Val())
	}
	return nil
}

// ---------------------------------------------------------------- conversion

// conv converts v from type a to type b (assignment or explicit conversion).
func (x *Exec) conv(v Value, a, b types.Type) Value {
	if m, ok := v.(*MuxV); ok {
		return mergeVal(m.C, x.conv(m.A, a, b), x.conv(m.B, a, b))
	}
	if _, ok := b.Underlying().(*types.Interface); ok {
		if _, ok := b.(*types.TypeParam); ok {
			return v
		}
		if _, ok := v.(*IfaceV); ok {
			return v
		}
		if o, ok := v.(*OpaqueV); ok {
			if _, isI := o.T.Underlying().(*types.Interface); isI {
				return v
			}
		}
		if bt, ok := a.Underlying().(*types.Basic); ok && bt.Kind() == types.UntypedNil {
			return &IfaceV{}
		}
		return &IfaceV{T: types.Default(a), V: v}
	}
	if bt, ok := a.Underlying().(*types.Basic); ok && bt.Kind() == types.UntypedNil {
		return zeroVal(b)
	}
	t, ok := v.(*Term)
	if !ok {
		switch y := v.(type) {
		case *StructV:
			return &StructV{T: b, F: y.F}
		}
		return v
	}
	sb := scalarSort(b)
	if sb == nil {
		return v
	}
	return convTerm(t, sb)
}

func convTerm(t *Term, s *Sort) *Term {
	if t.S == s {
		return t
	}
	switch {
	case t.S == IntS && s == RealS:
		return ToReal(t)
	case t.S == RealS && s == IntS:
		return Trunc(t)
	case t.S.K == KBV && s.K == KBV:
		if t.S.N < s.N {
			return BV("zext", s, t)
		}
		return BV("trunc", s, t)
	case t.S == IntS && s.K == KBV:
		return BV("int2bv", s, t)
	case t.S.K == KBV && s == IntS:
		return BV("bv2nat", IntS, t)
	case t.S.K == KBV && s == RealS:
		return ToReal(BV("bv2nat", IntS, t))
	case t.S == RealS && s.K == KBV:
		return BV("int2bv", s, Trunc(t))
	case t.S == IntS && s == StrS:
		return App("itoa", StrS, t)
	}
	panic(unsup(nil, "conversion %v -> %v", t.S, s))
}

// ---------------------------------------------------------------- statements

func (x *Exec) block(fr *Frame, st *State, ss []ast.Stmt) bool {
	for _, s := range ss {
		if !x.stmt(fr, st, s) {
			return false
		}
	}
	return true
}

func (x *Exec) stmt(fr *Frame, st *State, s ast.Stmt) bool {
	x.steps++
	if x.steps > 4000000 {
		panic(unsup(s, "too many symbolic execution steps"))
	}
	x.curNode = s
	lbl := fr.nextLbl
	fr.nextLbl = ""
	switch s := s.(type) {
	case *ast.BlockStmt:
		return x.block(fr, st, s.List)
	case *ast.EmptyStmt:
		return true
	case *ast.SendStmt:
		// what the receiver does with it is not modelled
		x.eval(fr, st, s.Chan)
		x.eval(fr, st, s.Value)
		return true
	case *ast.ExprStmt:
		return x.exprStmt(fr, st, s.X)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return true
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					o := fr.pkg.Info.Defs[n]
					x.declareObj(fr, st, o, zeroVal(x.typ(fr, o.Type())))
				}
				continue
			}
			vals := x.evalMulti(fr, st, vs.Values, len(vs.Names))
			for i, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				o := fr.pkg.Info.Defs[n]
				x.declareObj(fr, st, o, x.conv(vals[i].v, vals[i].t, x.typ(fr, o.Type())))
			}
		}
		return true
	case *ast.AssignStmt:
		x.assign(fr, st, s)
		return true
	case *ast.IncDecStmt:
		v := x.eval(fr, st, s.X).(*Term)
		one := x.oneOf(v.S)
		var nv *Term
		if v.S.K == KBV {
			op := "bvadd"
			if s.Tok == token.DEC {
				op = "bvsub"
			}
			nv = BV(op, v.S, v, one)
		} else if s.Tok == token.INC {
			nv = Add(v, one)
		} else {
			nv = Sub(v, one)
		}
		x.assignTo(fr, st, s.X, nv)
		return true
	case *ast.IfStmt:
		if s.Init != nil {
			if !x.stmt(fr, st, s.Init) {
				return false
			}
		}
		c := x.cond(fr, st, s.Cond)
		return x.branch(fr, st, c, func(b *State) bool { return x.block(fr, b, s.Body.List) },
			func(b *State) bool {
				if s.Else == nil {
					return true
				}
				return x.stmt(fr, b, s.Else)
			})
	case *ast.ReturnStmt:
		x.doReturn(fr, st, s)
		return false
	case *ast.ForStmt:
		return x.forStmt(fr, st, s, lbl)
	case *ast.RangeStmt:
		return x.rangeStmt(fr, st, s, lbl)
	case *ast.SwitchStmt:
		return x.switchStmt(fr, st, s, lbl)
	case *ast.TypeSwitchStmt:
		return x.typeSwitch(fr, st, s, lbl)
	case *ast.LabeledStmt:
		fr.nextLbl = s.Label.Name
		return x.stmt(fr, st, s.Stmt)
	case *ast.BranchStmt:
		for i := len(fr.ctls) - 1; i >= 0; i-- {
			c := fr.ctls[i]
			if s.Label != nil && c.label != s.Label.Name {
				continue
			}
			switch s.Tok {
			case token.BREAK:
				c.brk = append(c.brk, st.clone())
				return false
			case token.CONTINUE:
				if !c.isLoop {
					continue
				}
				c.cont = append(c.cont, st.clone())
				return false
			}
		}
		panic(unsup(s, "branch statement %v", s.Tok))
	case *ast.DeferStmt:
		call := s.Call
		if f, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
			fv := x.eval(fr, st, f)
			fr.defers = append(fr.defers, func(st *State) { x.callFunc(fr, st, fv, nil, call) })
			return true
		}
		if sel, ok := call.Fun.(*ast.SelectorExpr); ok && (sel.Sel.Name == "Close" || sel.Sel.Name == "Unlock" || sel.Sel.Name == "Done") {
			return true
		}
		panic(unsup(s, "defer"))
	}
	panic(unsup(s, "statement %T", s))
}

func (x *Exec) oneOf(s *Sort) *Term {
	switch s.K {
	case KInt:
		return Int(1)
	case KReal:
		return Real(1)
	case KBV:
		return BVNum(s.N, big.NewInt(1))
	}
	panic(unsup(x.curNode, "inc of %v", s))
}

// branch executes two alternatives and merges them.
func (x *Exec) branch(fr *Frame, st *State, c *Term, f, g func(*State) bool) bool {
	if v, ok := st.known(c); ok {
		if v {
			return f(st)
		}
		return g(st)
	}
	if x.prune && !fr.spec && c.S == BoolS {
		if x.infeasible(st, c) {
			st.assume(Not(c), false)
			return g(st)
		}
		if x.infeasible(st, Not(c)) {
			st.assume(c, false)
			return f(st)
		}
	}
	a := st.clone()
	a.assume(c, true)
	b := st.clone()
	b.assume(Not(c), true)
	la := f(a)
	lb := g(b)
	switch {
	case la && lb:
		*st = *mergeStates(a, b)
		return true
	case la:
		*st = *a
		return true
	case lb:
		*st = *b
		return true
	}
	return false
}

// infeasible asks the solver whether the path conditions exclude c (ground
// hypotheses only, short time limit).
func (x *Exec) infeasible(st *State, c *Term) bool {
	q := &Prep{key: map[*Term]bool{}, x: x}
	for _, p := range st.pc {
		q.add(p.T)
	}
	q.add(c)
	for _, t := range q.ground {
		if t == False {
			return true
		}
	}
	text := emit(q.ground, nil, "", "(check-sat)\n")
	if v, ok := pruneCache[text]; ok {
		return v
	}
	a, _ := runSolver(context.Background(), beZ3New.bin, beZ3New.args(time.Second), text, time.Second)
	pruneCache[text] = a == "unsat"
	return a == "unsat"
}

var pruneCache = map[string]bool{}

func (x *Exec) exprStmt(fr *Frame, st *State, e ast.Expr) bool {
	call, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok {
		x.eval(fr, st, e)
		return true
	}
	if x.isPanic(fr, call) {
		x.panicStmt(fr, st, call)
		return false
	}
	x.evalCall(fr, st, call)
	return !st.dead()
}

func (x *Exec) isPanic(fr *Frame, call *ast.CallExpr) bool {
	switch f := call.Fun.(type) {
	case *ast.Ident:
		if b, ok := fr.pkg.Info.Uses[f].(*types.Builtin); ok && b.Name() == "panic" {
			return true
		}
	case *ast.SelectorExpr:
		if o, ok := fr.pkg.Info.Uses[f.Sel].(*types.Func); ok && o.Pkg() != nil {
			if o.Pkg().Path() == "log" && (strings.HasPrefix(o.Name(), "Fatal") || strings.HasPrefix(o.Name(), "Panic")) {
				return true
			}
			if o.Pkg().Path() == "os" && o.Name() == "Exit" {
				return true
			}
		}
	}
	return false
}

func (x *Exec) panicStmt(fr *Frame, st *State, n ast.Node) {
	x.prove(st, x.panicGoal(), "panic", "no panic except as specified", n)
}

// panicGoal is the condition under which the function being verified panics.
func (x *Exec) panicGoal() *Term {
	goal := False
	for i := len(x.stack) - 1; i >= 0; i-- {
		if c := x.stack[i].ctx; c != nil && !c.use {
			if c.panics != nil {
				goal = c.panics
			}
			break
		}
	}
	return goal
}

func (x *Exec) doReturn(fr *Frame, st *State, s *ast.ReturnStmt) {
	f := fr
	var vals []Value
	n := 0
	if f.resT != nil {
		n = f.resT.Len()
	}
	if len(s.Results) == 0 {
		for _, o := range f.resObjs {
			vals = append(vals, st.heap[o])
		}
	} else {
		tv := x.evalMulti(fr, st, s.Results, n)
		for i, v := range tv {
			c := x.conv(v.v, v.t, x.typ(fr, f.resT.At(i).Type()))
			vals = append(vals, c)
			if len(f.resObjs) > i && f.resObjs[i] != nil {
				st.heap[f.resObjs[i]] = c
			}
		}
	}
	f.rets = append(f.rets, retState{st.clone(), vals})
}

type tval struct {
	v Value
	t types.Type
}

func (x *Exec) evalMulti(fr *Frame, st *State, es []ast.Expr, want int) []tval {
	if len(es) == 1 && want > 1 {
		e := ast.Unparen(es[0])
		switch c := e.(type) {
		case *ast.CallExpr:
			r := x.evalCall(fr, st, c)
			tt := x.typeOf(fr, c).(*types.Tuple)
			return x.tupleVals(r, tt)
		case *ast.TypeAssertExpr:
			v, ok := x.typeAssert(fr, st, c)
			return []tval{{v, x.typeOf(fr, c.Type)}, {ok, types.Typ[types.Bool]}}
		case *ast.IndexExpr:
			panic(unsup(e, "map lookup"))
		}
		panic(unsup(e, "multi-value expression"))
	}
	var out []tval
	for _, e := range es {
		v := x.eval(fr, st, e)
		out = append(out, tval{v, x.typeOf(fr, e)})
	}
	return out
}
func (x *Exec) tupleVals(r Value, tt *types.Tuple) []tval {
	var out []tval
	switch t := r.(type) {
	case *TupleV:
		for i, v := range t.V {
			out = append(out, tval{v, tt.At(i).Type()})
		}
	case *MuxV:
		a, b := x.tupleVals(t.A, tt), x.tupleVals(t.B, tt)
		for i := range a {
			out = append(out, tval{mergeVal(t.C, a[i].v, b[i].v), tt.At(i).Type()})
		}
	default:
		panic(unsup(x.curNode, "tuple expected, got %T", r))
	}
	return out
}

func (x *Exec) assign(fr *Frame, st *State, s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		// op=
		var op token.Token
		switch s.Tok {
		case token.ADD_ASSIGN:
			op = token.ADD
		case token.SUB_ASSIGN:
			op = token.SUB
		case token.MUL_ASSIGN:
			op = token.MUL
		case token.QUO_ASSIGN:
			op = token.QUO
		case token.REM_ASSIGN:
			op = token.REM
		case token.AND_ASSIGN:
			op = token.AND
		case token.OR_ASSIGN:
			op = token.OR
		case token.XOR_ASSIGN:
			op = token.XOR
		case token.SHL_ASSIGN:
			op = token.SHL
		case token.SHR_ASSIGN:
			op = token.SHR
		case token.AND_NOT_ASSIGN:
			op = token.AND_NOT
		}
		a := x.eval(fr, st, s.Lhs[0])
		b := x.eval(fr, st, s.Rhs[0])
		lt := x.typeOf(fr, s.Lhs[0])
		if op != token.SHL && op != token.SHR {
			b = x.conv(b, x.typeOf(fr, s.Rhs[0]), lt)
		}
		v := x.binop(fr, st, op, a, b, lt, s.Rhs[0], s)
		x.assignTo(fr, st, s.Lhs[0], v)
		return
	}
	vals := x.evalMulti(fr, st, s.Rhs, len(s.Lhs))
	if len(s.Lhs) == 1 {
		x.assignOne(fr, st, s, s.Lhs[0], vals[0])
		return
	}
	// parallel assignment: evaluate lvalue addresses first
	type lv struct {
		e ast.Expr
		p Value
	}
	var lvs []lv
	for _, l := range s.Lhs {
		l = ast.Unparen(l)
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" || s.Tok == token.DEFINE && fr.pkg.Info.Defs[id] != nil {
				lvs = append(lvs, lv{l, nil})
				continue
			}
		}
		lvs = append(lvs, lv{l, x.addr(fr, st, l)})
	}
	for i, l := range lvs {
		if l.p == nil {
			x.assignOne(fr, st, s, l.e, vals[i])
			continue
		}
		x.storePtr(st, l.p, x.conv(vals[i].v, vals[i].t, x.typeOf(fr, l.e)))
	}
}

func (x *Exec) assignOne(fr *Frame, st *State, s *ast.AssignStmt, l ast.Expr, v tval) {
	l = ast.Unparen(l)
	if id, ok := l.(*ast.Ident); ok {
		if id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			if o := fr.pkg.Info.Defs[id]; o != nil {
				x.declareObj(fr, st, o, x.conv(v.v, v.t, x.typ(fr, o.Type())))
				return
			}
		}
	}
	x.assignTo(fr, st, l, x.conv(v.v, v.t, x.typeOf(fr, l)))
}

func (x *Exec) assignTo(fr *Frame, st *State, l ast.Expr, v Value) {
	l = ast.Unparen(l)
	if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
		return
	}
	x.storePtr(st, x.addr(fr, st, l), v)
}

// ---------------------------------------------------------------- memory

func (x *Exec) loadPtr(st *State, p Value) Value {
	switch p := p.(type) {
	case *MuxV:
		if v, ok := st.known(p.C); ok {
			if v {
				return x.loadPtr(st, p.A)
			}
			return x.loadPtr(st, p.B)
		}
		if isNilPtr(p.A) {
			return x.loadPtr(st, p.B)
		}
		if isNilPtr(p.B) {
			return x.loadPtr(st, p.A)
		}
		return mergeVal(p.C, x.loadPtr(st, p.A), x.loadPtr(st, p.B))
	case *PtrV:
		if p.Obj == nil {
			panic(unsup(x.curNode, "load through nil pointer"))
		}
		v, ok := st.heap[p.Obj]
		if !ok {
			panic(unsup(x.curNode, "object %s not in heap", p.Obj.Name))
		}
		return loadPath(v, p.Path)
	}
	panic(unsup(x.curNode, "load through %T", p))
}
func isNilPtr(v Value) bool {
	p, ok := v.(*PtrV)
	return ok && p.Obj == nil
}

func (x *Exec) storePtr(st *State, p Value, v Value) {
	switch p := p.(type) {
	case *MuxV:
		if k, ok := st.known(p.C); ok {
			if k {
				x.storePtr(st, p.A, v)
			} else {
				x.storePtr(st, p.B, v)
			}
			return
		}
		if isNilPtr(p.A) {
			x.storePtr(st, p.B, v)
			return
		}
		if isNilPtr(p.B) {
			x.storePtr(st, p.A, v)
			return
		}
		a, b := st.clone(), st.clone()
		x.storePtr(a, p.A, v)
		x.storePtr(b, p.B, v)
		for o, va := range a.heap {
			if vb := b.heap[o]; vb != va {
				st.heap[o] = mergeVal(p.C, va, vb)
			}
		}
		return
	case *PtrV:
		if p.Obj == nil {
			panic(unsup(x.curNode, "store through nil pointer"))
		}
		ov, ok := st.heap[p.Obj]
		if !ok {
			panic(unsup(x.curNode, "object %s not in heap", p.Obj.Name))
		}
		st.heap[p.Obj] = storePath(ov, p.Path, v)
		return
	}
	panic(unsup(x.curNode, "store through %T", p))
}

func ext(p *PtrV, s Sel) *PtrV {
	return &PtrV{Obj: p.Obj, Path: append(append([]Sel(nil), p.Path...), s)}
}
func mapPtr(p Value, f func(*PtrV) Value) Value {
	switch p := p.(type) {
	case *MuxV:
		return mergeVal(p.C, mapPtr(p.A, f), mapPtr(p.B, f))
	case *PtrV:
		return f(p)
	}
	panic(unsup(nil, "pointer expected, got %T", p))
}

// notNil gives the condition under which pointer p is not nil.
func notNil(p Value) *Term {
	switch p := p.(type) {
	case *MuxV:
		return Ite(p.C, notNil(p.A), notNil(p.B))
	case *PtrV:
		return Bool(p.Obj != nil)
	case *IfaceV:
		return Bool(p.T != nil)
	case *SliceV:
		return Bool(p.Obj != nil)
	case *FuncV:
		return Bool(!p.Nil)
	}
	return True
}

// addr computes the address of an lvalue.
func (x *Exec) addr(fr *Frame, st *State, e ast.Expr) Value {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.addr(fr, st, e.X)
	case *ast.Ident:
		o := fr.pkg.Info.Uses[e]
		if o == nil {
			o = fr.pkg.Info.Defs[e]
		}
		if ob := fr.lookup(o); ob != nil {
			return &PtrV{Obj: ob}
		}
		if _, ok := o.(*types.Var); ok {
			return &PtrV{Obj: x.globalObj(st, o)}
		}
		panic(unsup(e, "address of %s", e.Name))
	case *ast.StarExpr:
		p := x.eval(fr, st, e.X)
		x.safety(fr, st, notNil(p), "nil", e)
		return p
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, ok := fr.pkg.Info.Uses[id].(*types.PkgName); ok {
				o := fr.pkg.Info.Uses[e.Sel]
				return &PtrV{Obj: x.globalObj(st, o)}
			}
		}
		sel := fr.pkg.Info.Selections[e]
		if sel == nil {
			panic(unsup(e, "selector %s", e.Sel.Name))
		}
		return x.fieldAddr(fr, st, e.X, sel.Index(), e)
	case *ast.IndexExpr:
		xt := x.typeOf(fr, e.X).Underlying()
		switch u := xt.(type) {
		case *types.Slice:
			s := x.eval(fr, st, e.X)
			i := x.evalIdx(fr, st, e.Index)
			return x.sliceElemPtr(fr, st, s, i, e)
		case *types.Array:
			p := x.addr(fr, st, e.X)
			i := x.evalIdx(fr, st, e.Index)
			x.boundsCheck(fr, st, i, Int(u.Len()), e)
			return mapPtr(p, func(p *PtrV) Value { return ext(p, Sel{Idx: i}) })
		case *types.Pointer:
			p := x.eval(fr, st, e.X)
			x.safety(fr, st, notNil(p), "nil", e)
			i := x.evalIdx(fr, st, e.Index)
			x.boundsCheck(fr, st, i, Int(u.Elem().Underlying().(*types.Array).Len()), e)
			return mapPtr(p, func(p *PtrV) Value { return ext(p, Sel{Idx: i}) })
		}
		panic(unsup(e, "address of index into %v", xt))
	case *ast.CompositeLit:
		v := x.eval(fr, st, e)
		o := NewObj("lit", x.typeOf(fr, e))
		o.Escaped = true
		st.heap[o] = v
		return &PtrV{Obj: o}
	}
	// not addressable: materialise a temporary
	v := x.eval(fr, st, e)
	o := NewObj("tmp", x.typeOf(fr, e))
	o.Escaped = true
	st.heap[o] = v
	return &PtrV{Obj: o}
}

func (x *Exec) evalIdx(fr *Frame, st *State, e ast.Expr) *Term {
	t := x.eval(fr, st, e).(*Term)
	return convTerm(t, IntS)
}

func (x *Exec) boundsCheck(fr *Frame, st *State, i, n *Term, e ast.Node) {
	x.safety(fr, st, And(Le(Int(0), i), Lt(i, n)), "bounds", e)
}

func (x *Exec) sliceElemPtr(fr *Frame, st *State, s Value, i *Term, n ast.Node) Value {
	switch s := s.(type) {
	case *MuxV:
		if v, ok := st.known(s.C); ok {
			if v {
				return x.sliceElemPtr(fr, st, s.A, i, n)
			}
			return x.sliceElemPtr(fr, st, s.B, i, n)
		}
		a := st.clone()
		a.assume(s.C, true)
		b := st.clone()
		b.assume(Not(s.C), true)
		pa := x.sliceElemPtr(fr, a, s.A, i, n)
		pb := x.sliceElemPtr(fr, b, s.B, i, n)
		return mergeVal(s.C, pa, pb)
	case *SliceV:
		x.boundsCheck(fr, st, i, s.Len, n)
		if s.Obj == nil {
			return &PtrV{}
		}
		return &PtrV{Obj: s.Obj, Path: []Sel{{Idx: Add(s.Off, i)}}}
	case *OpaqueV:
		panic(unsup(n, "element of a value outside the model (%v)", s.T))
	}
	panic(unsup(n, "index of %T", s))
}

// fieldAddr follows a selection path from expression e.
func (x *Exec) fieldAddr(fr *Frame, st *State, e ast.Expr, idx []int, n ast.Node) Value {
	t := x.typeOf(fr, e)
	var p Value
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p = x.eval(fr, st, e)
		x.safety(fr, st, notNil(p), "nil", n)
		t = pt.Elem()
	} else {
		p = x.addr(fr, st, e)
	}
	for k, i := range idx {
		if k > 0 {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				p = x.loadPtr(st, p)
				x.safety(fr, st, notNil(p), "nil", n)
				t = pt.Elem()
			}
		}
		f := t.Underlying().(*types.Struct).Field(i)
		p = mapPtr(p, func(p *PtrV) Value {
			if p.Obj == nil {
				return p
			}
			return ext(p, Sel{F: i})
		})
		t = f.Type()
	}
	return p
}

// ---------------------------------------------------------------- switch

func (x *Exec) switchStmt(fr *Frame, st *State, s *ast.SwitchStmt, lbl string) bool {
	if s.Init != nil {
		if !x.stmt(fr, st, s.Init) {
			return false
		}
	}
	var tag Value
	var tagT types.Type
	if s.Tag != nil {
		tag = x.eval(fr, st, s.Tag)
		tagT = x.typeOf(fr, s.Tag)
	}
	c := &ctl{label: lbl}
	fr.ctls = append(fr.ctls, c)
	var clauses []*ast.CaseClause
	var def = -1
	for _, cc := range s.Body.List {
		cl := cc.(*ast.CaseClause)
		if cl.List == nil {
			def = len(clauses)
		}
		clauses = append(clauses, cl)
	}
	var runFrom func(b *State, i int) bool
	runFrom = func(b *State, i int) bool {
		body := clauses[i].Body
		if len(body) > 0 {
			if br, ok := body[len(body)-1].(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				if !x.block(fr, b, body[:len(body)-1]) {
					return false
				}
				return runFrom(b, i+1)
			}
		}
		return x.block(fr, b, body)
	}
	var try func(b *State, i int) bool
	try = func(b *State, i int) bool {
		for i < len(clauses) && i == def {
			i++
		}
		if i >= len(clauses) {
			if def >= 0 {
				return runFrom(b, def)
			}
			return true
		}
		var cs []*Term
		for _, e := range clauses[i].List {
			if tag == nil {
				cs = append(cs, x.cond(fr, b, e))
			} else {
				v := x.eval(fr, b, e)
				cs = append(cs, x.equal(tag, tagT, v, x.typeOf(fr, e), e))
			}
		}
		return x.branch(fr, b, Or(cs...), func(b *State) bool { return runFrom(b, i) }, func(b *State) bool { return try(b, i+1) })
	}
	alive := try(st, 0)
	fr.ctls = fr.ctls[:len(fr.ctls)-1]
	return x.joinBreaks(st, alive, c.brk)
}

func (x *Exec) joinBreaks(st *State, alive bool, brk []*State) bool {
	for _, b := range brk {
		if !alive {
			*st = *b
			alive = true
			continue
		}
		*st = *mergeStates(b, st)
	}
	return alive
}

func (x *Exec) typeSwitch(fr *Frame, st *State, s *ast.TypeSwitchStmt, lbl string) bool {
	if s.Init != nil {
		if !x.stmt(fr, st, s.Init) {
			return false
		}
	}
	var e ast.Expr
	switch a := s.Assign.(type) {
	case *ast.AssignStmt:
		e = a.Rhs[0].(*ast.TypeAssertExpr).X
	case *ast.ExprStmt:
		e = a.X.(*ast.TypeAssertExpr).X
	}
	v := x.eval(fr, st, e)
	c := &ctl{label: lbl}
	fr.ctls = append(fr.ctls, c)
	var run func(b *State, v Value) bool
	run = func(b *State, v Value) bool {
		if m, ok := v.(*MuxV); ok {
			return x.branch(fr, b, m.C, func(b *State) bool { return run(b, m.A) }, func(b *State) bool { return run(b, m.B) })
		}
		iv, ok := v.(*IfaceV)
		if !ok {
			panic(unsup(s, "type switch on %T", v))
		}
		var def *ast.CaseClause
		for _, cc := range s.Body.List {
			cl := cc.(*ast.CaseClause)
			if cl.List == nil {
				def = cl
				continue
			}
			for _, te := range cl.List {
				if m, val := x.typeMatches(fr, iv, te); m {
					if o := fr.pkg.Info.Implicits[cl]; o != nil {
						if len(cl.List) > 1 {
							val = iv
						}
						x.declareObj(fr, b, o, val)
					}
					return x.block(fr, b, cl.Body)
				}
			}
		}
		if def != nil {
			if o := fr.pkg.Info.Implicits[def]; o != nil {
				x.declareObj(fr, b, o, iv)
			}
			return x.block(fr, b, def.Body)
		}
		return true
	}
	alive := run(st, v)
	fr.ctls = fr.ctls[:len(fr.ctls)-1]
	return x.joinBreaks(st, alive, c.brk)
}

func (x *Exec) typeMatches(fr *Frame, iv *IfaceV, te ast.Expr) (bool, Value) {
	tv := fr.pkg.Info.Types[te]
	if tv.IsNil() {
		return iv.T == nil, iv
	}
	if iv.T == nil {
		return false, nil
	}
	t := x.typ(fr, tv.Type)
	if it, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(iv.T, it), iv
	}
	return types.Identical(iv.T, t), iv.V
}

func (x *Exec) typeAssert(fr *Frame, st *State, e *ast.TypeAssertExpr) (Value, *Term) {
	v := x.eval(fr, st, e.X)
	var f func(v Value) (Value, *Term)
	f = func(v Value) (Value, *Term) {
		if m, ok := v.(*MuxV); ok {
			a, ca := f(m.A)
			b, cb := f(m.B)
			return mergeVal(m.C, a, b), Ite(m.C, ca, cb)
		}
		iv, ok := v.(*IfaceV)
		if !ok {
			panic(unsup(e, "type assertion on %T", v))
		}
		m, val := x.typeMatches(fr, iv, e.Type)
		if !m {
			return zeroVal(x.typeOf(fr, e.Type)), False
		}
		return val, True
	}
	return f(v)
}

// ---------------------------------------------------------------- loops

func (x *Exec) forStmt(fr *Frame, st *State, s *ast.ForStmt, lbl string) bool {
	if s.Init != nil {
		if !x.stmt(fr, st, s.Init) {
			return false
		}
	}
	cond := func(b *State) *Term {
		if s.Cond == nil {
			return True
		}
		return x.cond(fr, b, s.Cond)
	}
	post := func(b *State) {
		if s.Post != nil {
			x.stmt(fr, b, s.Post)
		}
	}
	return x.loop(fr, st, s, lbl, cond, func(b *State) bool { return x.block(fr, b, s.Body.List) }, post, s.Body, nil, s.Cond == nil)
}

func (x *Exec) rangeStmt(fr *Frame, st *State, s *ast.RangeStmt, lbl string) bool {
	xt := x.typeOf(fr, s.X)
	var n *Term
	var coll Value
	var collP Value
	var elemAt func(b *State, i *Term) Value
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		coll = x.eval(fr, st, s.X)
		n = x.lenOf(coll, s)
		elemAt = func(b *State, i *Term) Value {
			sp := *fr
			sp.spec = true // in range by construction
			return x.loadPtr(b, x.sliceElemPtr(&sp, b, coll, i, s))
		}
	case *types.Array:
		n = Int(u.Len())
		if s.Value != nil {
			coll = x.eval(fr, st, s.X)
		}
		elemAt = func(b *State, i *Term) Value { return loadPath(coll, []Sel{{Idx: i}}) }
	case *types.Pointer:
		collP = x.eval(fr, st, s.X)
		n = Int(u.Elem().Underlying().(*types.Array).Len())
		elemAt = func(b *State, i *Term) Value {
			return x.loadPtr(b, mapPtr(collP, func(p *PtrV) Value { return ext(p, Sel{Idx: i}) }))
		}
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			n = convTerm(x.eval(fr, st, s.X).(*Term), IntS)
			break
		}
		panic(unsup(s, "range over %v", xt))
	default:
		panic(unsup(s, "range over %v", xt))
	}
	idx := NewObj("range", types.Typ[types.Int])
	st.heap[idx] = Int(0)
	setKV := func(b *State, i *Term, val bool) {
		if s.Key != nil {
			if id, ok := s.Key.(*ast.Ident); ok && id.Name == "_" {
			} else if s.Tok == token.DEFINE {
				o := fr.pkg.Info.Defs[s.Key.(*ast.Ident)]
				if ob, ok := fr.vars[o]; ok {
					b.heap[ob] = i
				} else {
					x.declareObj(fr, b, o, i)
				}
			} else if val {
				x.assignTo(fr, b, s.Key, i)
			}
		}
		if s.Value != nil && val {
			if id, ok := s.Value.(*ast.Ident); ok && id.Name == "_" {
			} else {
				v := elemAt(b, i)
				if s.Tok == token.DEFINE {
					o := fr.pkg.Info.Defs[s.Value.(*ast.Ident)]
					if ob, ok := fr.vars[o]; ok {
						b.heap[ob] = v
					} else {
						x.declareObj(fr, b, o, v)
					}
				} else {
					x.assignTo(fr, b, s.Value, v)
				}
			}
		}
	}
	// a fresh variable per loop execution
	if s.Tok == token.DEFINE {
		for _, e := range []ast.Expr{s.Key, s.Value} {
			if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
				delete(fr.vars, fr.pkg.Info.Defs[id])
			}
		}
	}
	cond := func(b *State) *Term { return Lt(b.heap[idx].(*Term), n) }
	body := func(b *State) bool {
		setKV(b, b.heap[idx].(*Term), true)
		return x.block(fr, b, s.Body.List)
	}
	post := func(b *State) { b.heap[idx] = Add(b.heap[idx].(*Term), Int(1)) }
	pre := func(b *State) { setKV(b, b.heap[idx].(*Term), false) }
	x.iterIdx = append(x.iterIdx, idx)
	r := x.loop(fr, st, s, lbl, cond, body, post, s.Body, &rangeInfo{idx, n, pre}, false)
	x.iterIdx = x.iterIdx[:len(x.iterIdx)-1]
	return r
}

type rangeInfo struct {
	idx *Obj
	n   *Term
	pre func(*State)
}

const maxUnroll = 1500

// unrolls: from here, the condition of the loop is known on every iteration
// until it ends. The iterations are executed without a trace.
func (x *Exec) unrolls(fr *Frame, st *State, lbl string, cond func(*State) *Term, body func(*State) bool, post func(*State)) bool {
	type keep struct {
		f *Frame
		m map[string]int
	}
	var ks []keep
	for f := fr; f != nil; f = f.caller {
		m := map[string]int{}
		for k, v := range f.loops {
			m[k] = v
		}
		ks = append(ks, keep{f, m})
	}
	saved := x.saveRets(fr)
	x.dry++
	defer func() {
		x.dry--
		x.restoreRets(fr, saved)
		for _, k := range ks {
			k.f.loops = k.m
		}
	}()
	b := st.clone()
	for iter := 0; iter < 40; iter++ {
		c := cond(b)
		v, ok := b.known(c)
		if !ok {
			return false
		}
		if !v {
			return true
		}
		ct := &ctl{label: lbl, isLoop: true}
		fr.ctls = append(fr.ctls, ct)
		alive := body(b)
		fr.ctls = fr.ctls[:len(fr.ctls)-1]
		if !x.joinBreaks(b, alive, ct.cont) {
			return true
		}
		post(b)
	}
	return false
}

func (x *Exec) loop(fr *Frame, st *State, n ast.Node, lbl string, cond func(*State) *Term, body func(*State) bool,
	post func(*State), bodyStmt *ast.BlockStmt, ri *rangeInfo, noCond bool) bool {

	var breaks []*State
	iter := 0
	limit := maxUnroll
	keep := x.keepLoop(fr, n)
	for {
		c := cond(st)
		if v, ok := st.known(c); ok && !keep {
			if !v {
				break
			}
			if noCond && iter >= x.inftyUnroll() || iter > limit || iter == 0 && c != True && !x.unrolls(fr, st, lbl, cond, body, post) {
				// fall through to the symbolic treatment
			} else {
				ct := &ctl{label: lbl, isLoop: true}
				fr.ctls = append(fr.ctls, ct)
				alive := body(st)
				fr.ctls = fr.ctls[:len(fr.ctls)-1]
				breaks = append(breaks, ct.brk...)
				alive = x.joinBreaks(st, alive, ct.cont)
				if !alive {
					return x.joinBreaks(st, false, breaks)
				}
				post(st)
				iter++
				continue
			}
		}
		// symbolic
		counted := !keep && iter < maxUnroll && x.countedLoop(fr, st, n)
		if x.bound > 0 || counted {
			if iter >= x.bound && !counted {
				x.cut = true
				st.assume(Not(c), false)
				break
			}
			b := st.clone()
			b.assume(c, true)
			e := st.clone()
			e.assume(Not(c), true)
			breaks = append(breaks, e)
			ct := &ctl{label: lbl, isLoop: true}
			fr.ctls = append(fr.ctls, ct)
			alive := body(b)
			fr.ctls = fr.ctls[:len(fr.ctls)-1]
			breaks = append(breaks, ct.brk...)
			alive = x.joinBreaks(b, alive, ct.cont)
			if !alive {
				return x.joinBreaks(st, false, breaks)
			}
			*st = *b
			post(st)
			iter++
			continue
		}
		alive := x.symLoop(fr, st, n, lbl, cond, body, post, bodyStmt, ri)
		return x.joinBreaks(st, alive, breaks)
	}
	return x.joinBreaks(st, true, breaks)
}

// keepLoop says that a loop is not unrolled: its condition has a constant that
// the contract lists under "verif:keep", or it is a range loop and the contract
// lists "range". Loops of specifications are unrolled.
func (x *Exec) keepLoop(fr *Frame, n ast.Node) bool {
	if x.cur == nil || x.cur.Dirs["keep"] == "" || fr.fi == nil || fr.fi.Spec {
		return false
	}
	if _, ok := n.(*ast.RangeStmt); ok {
		for _, k := range strings.Fields(x.cur.Dirs["keep"]) {
			if k == "range" {
				return true
			}
		}
	}
	fs, ok := n.(*ast.ForStmt)
	if !ok || fs.Cond == nil {
		return false
	}
	found := false
	ast.Inspect(fs.Cond, func(m ast.Node) bool {
		if e, ok := m.(ast.Expr); ok {
			if v := fr.pkg.Info.Types[e].Value; v != nil {
				for _, k := range strings.Fields(x.cur.Dirs["keep"]) {
					found = found || v.ExactString() == k
				}
			}
		}
		return true
	})
	return found
}

// countedLoop says that a conjunct of the loop condition compares a value
// that is concrete here with a constant, so that the loop ends by itself
// after a known number of iterations at most.
func (x *Exec) countedLoop(fr *Frame, st *State, n ast.Node) bool {
	fs, ok := n.(*ast.ForStmt)
	if !ok || fs.Cond == nil {
		return false
	}
	var find func(e ast.Expr) bool
	find = func(e ast.Expr) bool {
		switch b := e.(type) {
		case *ast.ParenExpr:
			return find(b.X)
		case *ast.BinaryExpr:
			switch b.Op {
			case token.LAND:
				return find(b.X) || find(b.Y)
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
				if (fr.pkg.Info.Types[b.X].Value != nil) == (fr.pkg.Info.Types[b.Y].Value != nil) {
					return false
				}
				for _, s := range []ast.Expr{b.X, b.Y} {
					if fr.pkg.Info.Types[s].Value == nil {
						if _, ok := s.(*ast.Ident); !ok {
							return false
						}
						t, ok := x.specVal(fr, st, s)
						if !ok || t.S != IntS {
							return false
						}
						_, ok = t.IntVal()
						return ok
					}
				}
			}
		}
		return false
	}
	return find(fs.Cond)
}

func (x *Exec) specVal(fr *Frame, st *State, e ast.Expr) (*Term, bool) {
	x.mute++
	defer func() { x.mute-- }()
	t, ok := x.eval(fr, st, e).(*Term)
	return t, ok
}

func (x *Exec) inftyUnroll() int {
	if x.cur != nil && x.cur.Dirs["unroll"] != "" {
		return maxUnroll
	}
	return 0
}

// annotFrame finds the nearest frame with loop annotations.
func (x *Exec) annotFrame(fr *Frame) (*Frame, string) {
	path := ""
	f := fr
	for f != nil {
		g := f
		for g.up != nil && g.fi == nil {
			g = g.up
		}
		if g.annot != nil {
			return g, path
		}
		path += "/" + f.site
		f = f.caller
	}
	return nil, path
}

// guardedText removes the guard of an annotation "when(cond): text"; the text
// is used unless cond is known to be false where the loop is entered.
func (x *Exec) guardedText(fr *Frame, st *State, t string, body *ast.BlockStmt, af *Frame) (string, bool) {
	if !strings.HasPrefix(t, "when(") {
		return t, true
	}
	i := strings.Index(t, "):")
	if i < 0 {
		panic(unsup(body, "annotation %q", t))
	}
	for _, e := range x.parseAt(fr, t[len("when("):i], body, af) {
		sf := *fr
		sf.spec = true
		c, ok := x.specVal(&sf, st.clone(), e)
		if v, k := st.known(c); ok && k && !v || c == False {
			return "", false
		}
	}
	return strings.TrimSpace(t[i+2:]), true
}

// havocDiff replaces the leaves of a that differ in b by fresh symbols.
func (x *Exec) havocDiff(a, b Value, name string, mine map[*Term]bool, sub map[*Term]func(Value) *Term, path []Sel, st *State, n ast.Node) Value {
	if a == b {
		return a
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			panic(unsup(n, "loop changes the shape of %s", name))
		}
		if p == q || mine[p] {
			return p
		}
		h := Fresh(name, p.S)
		mine[h] = true
		pp := append([]Sel(nil), path...)
		sub[h] = func(v Value) *Term { return leafAt(v, pp) }
		return h
	case *StructV:
		q, ok := b.(*StructV)
		if !ok {
			break
		}
		r := &StructV{T: p.T}
		for i := range p.F {
			r.F = append(r.F, x.havocDiff(p.F[i], q.F[i], name+"."+fieldName(p.T, i), mine, sub, append(path, Sel{F: i}), st, n))
		}
		return r
	case *ArrV:
		q, ok := b.(*ArrV)
		if !ok {
			break
		}
		r := &ArrV{}
		for i := range p.E {
			r.E = append(r.E, x.havocDiff(p.E[i], q.E[i], fmt.Sprintf("%s.%d", name, i), mine, sub, append(path, Sel{Idx: Int(int64(i))}), st, n))
		}
		return r
	case *SymArr:
		q, ok := b.(*SymArr)
		if !ok {
			break
		}
		return &SymArr{Elem: p.Elem, Tree: x.havocDiff(p.Tree, q.Tree, name, mine, sub, append(path, Sel{F: -1}), st, n)}
	case *SliceV:
		q, ok := b.(*SliceV)
		if !ok {
			break
		}
		if p.Obj != q.Obj {
			return x.havocSliceObj(p, q, name, mine, sub, path, st, n)
		}
		r := &SliceV{Obj: p.Obj, Elem: p.Elem}
		r.Off = x.havocDiff(p.Off, q.Off, name+".off", mine, sub, append(path, Sel{F: -2}), st, n).(*Term)
		r.Len = x.havocDiff(p.Len, q.Len, name+".len", mine, sub, append(path, Sel{F: -3}), st, n).(*Term)
		r.Cap = x.havocDiff(p.Cap, q.Cap, name+".cap", mine, sub, append(path, Sel{F: -4}), st, n).(*Term)
		for _, h := range []*Term{r.Off, r.Len, r.Cap} {
			if mine[h] {
				st.assume(Le(Int(0), h), false)
			}
		}
		return r
	case *MuxV:
		if q, ok := b.(*MuxV); ok {
			if p.C == q.C || mine[p.C] {
				return &MuxV{x.havocDiff(p.C, q.C, name+".sel", mine, sub, append(path, Sel{F: -5}), st, n).(*Term),
					x.havocDiff(p.A, q.A, name, mine, sub, append(path, Sel{F: -6}), st, n),
					x.havocDiff(p.B, q.B, name, mine, sub, append(path, Sel{F: -7}), st, n)}
			}
		}
		// a havoced mux that already covers b
		if mine[p.C] {
			if covers(p, b) {
				return p
			}
		}
	}
	// shapes differ: a choice between the two, if the choice is loop-stable
	if isStable(a) && isStable(b) {
		h := Fresh(name+".sel", BoolS)
		mine[h] = true
		sub[h] = nil
		return &MuxV{h, a, stableLeaf(b)}
	}
	panic(unsup(n, "loop changes the shape of %s (%T -> %T)", name, a, b))
}

func covers(p *MuxV, b Value) bool {
	for _, l := range muxLeaves(b, nil) {
		ok := false
		for _, m := range muxLeaves(p, nil) {
			if m == l || sameStable(m, l) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
func muxLeaves(v Value, out []Value) []Value {
	if m, ok := v.(*MuxV); ok {
		return muxLeaves(m.B, muxLeaves(m.A, out))
	}
	return append(out, v)
}
func sameStable(a, b Value) bool {
	switch p := a.(type) {
	case *IfaceV:
		q, ok := b.(*IfaceV)
		return ok && (p.T == nil) == (q.T == nil) && (p.T == nil || types.Identical(p.T, q.T) && p.T == opaqueErrT)
	case *PtrV:
		q, ok := b.(*PtrV)
		return ok && p.Obj == q.Obj && len(p.Path) == 0 && len(q.Path) == 0
	}
	return false
}
func isStable(v Value) bool {
	for _, l := range muxLeaves(v, nil) {
		switch p := l.(type) {
		case *IfaceV:
			if p.T != nil && p.T != opaqueErrT {
				return false
			}
		case *PtrV:
			if len(p.Path) > 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}
func stableLeaf(v Value) Value {
	return v
}

func (x *Exec) havocSliceObj(p, q *SliceV, name string, mine map[*Term]bool, sub map[*Term]func(Value) *Term, path []Sel, st *State, n ast.Node) Value {
	if p.Obj != nil && p.Obj.Name == "loopslice" {
		return p
	}
	if !isScalarTree(p.Elem) {
		panic(unsup(n, "loop changes the backing array of %s", name))
	}
	o := NewObj("loopslice", types.NewSlice(p.Elem))
	o.Escaped = true
	st.heap[o] = symArr(name, p.Elem)
	l := Fresh(name+".len", IntS)
	nonNegVar[l] = true
	c := Fresh(name+".cap", IntS)
	pp := append([]Sel(nil), path...)
	mine[l], mine[c] = true, true
	sub[l] = func(v Value) *Term { return leafAt(v, append(pp, Sel{F: -3})) }
	sub[c] = func(v Value) *Term { return leafAt(v, append(pp, Sel{F: -4})) }
	st.assume(mk(OLe, BoolS, "", nil, nil, Int(0), l), false)
	return &SliceV{Obj: o, Off: Int(0), Len: l, Cap: c, Elem: p.Elem}
}

func fieldName(t types.Type, i int) string {
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func leafAt(v Value, path []Sel) *Term {
	if v == nil {
		return nil
	}
	if len(path) == 0 {
		t, _ := v.(*Term)
		return t
	}
	s := path[0]
	switch p := v.(type) {
	case *StructV:
		if s.F >= 0 && s.F < len(p.F) {
			return leafAt(p.F[s.F], path[1:])
		}
	case *ArrV:
		if i, ok := s.Idx.IntVal(); ok && int(i) < len(p.E) {
			return leafAt(p.E[i], path[1:])
		}
	case *SymArr:
		return leafAt(p.Tree, path[1:])
	case *SliceV:
		switch s.F {
		case -2:
			return p.Off
		case -3:
			return p.Len
		case -4:
			return p.Cap
		}
	case *MuxV:
		switch s.F {
		case -5:
			return p.C
		case -6:
			return leafAt(p.A, path[1:])
		case -7:
			return leafAt(p.B, path[1:])
		}
	}
	return nil
}

type hvar struct {
	h   *Term
	obj *Obj
	get func(Value) *Term
}

func (x *Exec) symLoop(fr *Frame, st *State, n ast.Node, lbl string, cond func(*State) *Term, body func(*State) bool,
	post func(*State), bodyStmt *ast.BlockStmt, ri *rangeInfo) bool {

	if x.quant > 0 {
		panic(unsup(n, "symbolic loop inside a quantified specification"))
	}
	af, cpath := x.annotFrame(fr)
	ord := -1
	var texts []string
	key := cpath + "@" + x.pos(n)
	if af != nil {
		if af.loops == nil {
			af.loops = map[string]int{}
		}
		if o, ok := af.loops[key]; ok {
			ord = o
		} else {
			ord = len(af.loops)
			af.loops[key] = ord
		}
		texts = af.annot.Loops[ord]
	}
	var invs, uses, pres, starts []string
	dec := ""
	for _, t := range texts {
		t, ok := x.guardedText(fr, st, t, bodyStmt, af)
		if !ok {
			continue
		}
		switch {
		case strings.HasPrefix(t, "use:"):
			uses = append(uses, strings.TrimSpace(t[4:]))
		case strings.HasPrefix(t, "start:"):
			starts = append(starts, strings.TrimSpace(t[6:]))
		case strings.HasPrefix(t, "pre:"):
			pres = append(pres, strings.TrimSpace(t[4:]))
		case strings.HasPrefix(t, "dec:"):
			dec = strings.TrimSpace(t[4:])
		default:
			invs = append(invs, t)
		}
	}
	loopID := x.frameID(af, fr) + fmt.Sprintf("#%d%s", ord, cpath)
	if ord < 0 {
		loopID += "@" + x.pos(n)
	}

	// 1. which leaves does the loop change?
	H := st.clone()
	mine := map[*Term]bool{}
	subs := map[*Obj]map[*Term]func(Value) *Term{}
	var endTerms *State
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsup(n, "havoc set does not stabilise"))
		}
		S := H.clone()
		x.dry++
		c := cond(S)
		nrets := len(fr.rets)
		saved := x.saveRets(fr)
		ct := &ctl{label: lbl, isLoop: true}
		fr.ctls = append(fr.ctls, ct)
		B := S.clone()
		B.assume(c, true)
		alive := body(B)
		fr.ctls = fr.ctls[:len(fr.ctls)-1]
		_ = nrets
		x.restoreRets(fr, saved)
		alive = x.joinBreaks(B, alive, ct.cont)
		if alive {
			post(B)
		}
		x.dry--
		changed := false
		ends := []*State{S}
		if alive {
			ends = append(ends, B)
			endTerms = B
		}
		_ = ct.brk // state at a break is not a loop-head state
		for _, e := range ends {
			for o, v := range H.heap {
				w, ok := e.heap[o]
				if !ok || w == v {
					continue
				}
				if o.Name == "loopslice" {
					panic(unsup(n, "loop writes to a slice whose backing array it reallocates"))
				}
				if subs[o] == nil {
					subs[o] = map[*Term]func(Value) *Term{}
				}
				nv := x.havocDiff(v, w, o.Name, mine, subs[o], nil, H, n)
				if nv != v && !sameVal(nv, v) {
					H.heap[o] = nv
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}

	// 2. invariants
	type inv struct {
		id   string
		text string
		eval func(*State) *Term
		auto bool
	}
	var all []inv
	evalText := func(e ast.Expr) func(*State) *Term {
		return func(b *State) *Term {
			c := b.clone()
			if ri != nil {
				ri.pre(c)
			}
			x.mute++
			defer func() { x.mute-- }()
			sf := *fr
			sf.spec = true
			sf.vars = fr.vars
			t := x.eval(&sf, c, e).(*Term)
			for _, p := range c.pc[len(b.pc):] { // facts learnt while evaluating
				_ = p
			}
			return t
		}
	}
	for i, t := range invs {
		for vi, e := range x.parseAt(fr, t, bodyStmt, af) {
			id := fmt.Sprintf("%s/inv%d.%d", loopID, i, vi)
			all = append(all, inv{id, t, evalText(e), false})
		}
	}
	// automatic candidates
	var hv []hvar
	for o, m := range subs {
		for h, g := range m {
			if g != nil {
				hv = append(hv, hvar{h, o, g})
			}
		}
	}
	sortHv(hv)
	inst := func(t *Term) func(*State) *Term {
		return func(b *State) *Term {
			m := map[*Term]*Term{}
			for _, v := range hv {
				if w := v.get(b.heap[v.obj]); w != nil {
					m[v.h] = w
				}
			}
			return Subst(t, m)
		}
	}
	headCond := func() *Term {
		x.dry++
		defer func() { x.dry-- }()
		return cond(H.clone())
	}()
	prev := map[*Term]*Term{}
	for _, v := range hv {
		if v.h.S != IntS || endTerms == nil {
			continue
		}
		v0 := v.get(st.heap[v.obj])
		ve := v.get(endTerms.heap[v.obj])
		if v0 == nil || ve == nil {
			continue
		}
		d := Sub(ve, v.h)
		name := fmt.Sprintf("%s/auto:%s", loopID, v.h.Name[:strings.LastIndex(v.h.Name, "!")])
		if k, ok := d.IntVal(); ok {
			prev[v.h] = Sub(v.h, Int(k))
			if k > 0 {
				all = append(all, inv{name + ">=", "auto lower bound", inst(Le(v0, v.h)), true})
			} else {
				all = append(all, inv{name + "<=", "auto upper bound", inst(Le(v.h, v0)), true})
			}
			if k > 1 || k < -1 {
				all = append(all, inv{name + "mod", "auto stride", inst(Eq(IMod(Sub(v.h, v0), Int(k)), Int(0))), true})
			}
		} else if !x.noauto {
			if !strings.Contains(v.h.Name, ".") {
				all = append(all, inv{name + ">=", "auto lower bound", inst(Le(v0, v.h)), true})
				all = append(all, inv{name + "<=", "auto upper bound", inst(Le(v.h, v0)), true})
				if len(mentions(d, mine)) == 0 { // symbolic constant step
					prev[v.h] = Sub(v.h, d)
				}
			}
		}
	}
	// linear relations between counters that advance by constant steps
	for i := 0; i < len(hv); i++ {
		for j := i + 1; j < len(hv); j++ {
			a, b := hv[i], hv[j]
			pa, oka := prev[a.h]
			pb, okb := prev[b.h]
			if !oka || !okb {
				continue
			}
			ka, ok1 := Sub(a.h, pa).IntVal()
			kb, ok2 := Sub(b.h, pb).IntVal()
			if !ok1 || !ok2 {
				continue
			}
			a0, b0 := a.get(st.heap[a.obj]), b.get(st.heap[b.obj])
			rel := Eq(Mul(Int(kb), Sub(a.h, a0)), Mul(Int(ka), Sub(b.h, b0)))
			all = append(all, inv{fmt.Sprintf("%s/autorel:%d.%d", loopID, i, j), "auto counter relation", inst(rel), true})
		}
	}
	if len(prev) > 0 && headCond != True {
		entryEq := []*Term{}
		for _, v := range hv {
			if _, ok := prev[v.h]; ok {
				entryEq = append(entryEq, Eq(v.h, v.get(st.heap[v.obj])))
			}
		}
		cs := []*Term{headCond}
		if headCond.Op == OAnd {
			cs = headCond.A
		}
		for i, c := range cs {
			pc := Subst(c, prev)
			if pc == c || pc.Quant {
				continue
			}
			all = append(all, inv{fmt.Sprintf("%s/autoprev%d", loopID, i), "auto: previous iteration passed the test", inst(Or(pc, And(entryEq...))), true})
		}
	}

	if endTerms != nil && len(invs) == 0 && !x.noauto {
		ams := autoMaps(hv, prev, mine, func(v hvar) *Term { return v.get(st.heap[v.obj]) }, func(v hvar) *Term { return v.get(endTerms.heap[v.obj]) })
		for i, m := range ams {
			all = append(all, inv{fmt.Sprintf("%s/automap%d", loopID, i), "auto: element-wise loop", inst(m.t), true})
		}
	}

	live := all[:0:0]
	for _, v := range all {
		if !x.dropped[v.id] {
			live = append(live, v)
		}
	}

	// 3. entry
	for _, v := range live {
		if o := x.prove(st, v.eval(st), "inv-entry", "loop invariant on entry: "+v.text, n); o != nil {
			o.Inv, o.Auto = v.id, v.auto
			if v.auto && o.Status == "proved" {
				x.obls = x.obls[:len(x.obls)-1]
			}
		}
	}

	// 4. arbitrary iteration
	Ls := H
	if ri != nil {
		i := Ls.heap[ri.idx].(*Term)
		Ls.assume(And(Le(Int(0), i), Or(Le(i, ri.n), Eq(i, Int(0)))), false)
	}
	for _, v := range live {
		Ls.assume(v.eval(Ls), false)
	}
	runGhost := func(b *State, ts []string) {
		for _, t := range ts {
			es := x.parseAt(fr, t, bodyStmt, af)
			if len(es) == 0 {
				continue
			}
			sf := *fr
			sf.spec = true
			cc := b
			if ri != nil {
				ri.pre(cc)
			}
			x.mute++
			x.eval(&sf, cc, es[0])
			x.mute--
		}
	}
	if x.dry == 0 {
		runGhost(Ls, pres)
	}
	c := cond(Ls)
	E := Ls.clone()
	E.assume(Not(c), true)
	B := Ls.clone()
	B.assume(c, true)
	var dec0 []*Term
	if dec != "" {
		dec0 = x.evalDec(fr, B, dec, bodyStmt, af, ri)
	}
	if x.dry == 0 {
		runGhost(B, starts)
	}
	ct := &ctl{label: lbl, isLoop: true}
	fr.ctls = append(fr.ctls, ct)
	alive := body(B)
	fr.ctls = fr.ctls[:len(fr.ctls)-1]
	alive = x.joinBreaks(B, alive, ct.cont)
	if alive {
		if x.dry == 0 {
			runGhost(B, uses)
		}
		post(B)
		for _, v := range live {
			if o := x.prove(B, v.eval(B), "inv", "loop invariant preserved: "+v.text, n); o != nil {
				o.Inv, o.Auto = v.id, v.auto
				if v.auto && o.Status == "proved" {
					x.obls = x.obls[:len(x.obls)-1]
				}
			}
		}
		if dec != "" {
			dec1 := x.evalDec(fr, B, dec, bodyStmt, af, ri)
			x.prove(B, lexLess(dec1, dec0), "termination", "loop measure decreases: "+dec, n)
		}
	}
	// 5. after the loop
	ok := c != True
	if ok {
		*st = *E
	}
	r := x.joinBreaks(st, ok, ct.brk)
	return r
}

func lexLess(a, b []*Term) *Term {
	r := False
	for i := len(a) - 1; i >= 0; i-- {
		lt := And(Lt(a[i], b[i]), Le(Int(0), b[i]))
		r = Or(lt, And(Eq(a[i], b[i]), r))
	}
	return r
}

func mentions(t *Term, set map[*Term]bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if set[t] {
			out = append(out, t)
		}
		for _, a := range t.A {
			w(a)
		}
	}
	w(t)
	return out
}

func sortHv(hv []hvar) {
	for i := 1; i < len(hv); i++ {
		for j := i; j > 0 && hv[j].h.ID < hv[j-1].h.ID; j-- {
			hv[j], hv[j-1] = hv[j-1], hv[j]
		}
	}
}

func sameVal(a, b Value) bool {
	if a == b {
		return true
	}
	switch p := a.(type) {
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.F) != len(q.F) {
			return false
		}
		for i := range p.F {
			if !sameVal(p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		q, ok := b.(*ArrV)
		if !ok || len(p.E) != len(q.E) {
			return false
		}
		for i := range p.E {
			if !sameVal(p.E[i], q.E[i]) {
				return false
			}
		}
		return true
	case *SymArr:
		q, ok := b.(*SymArr)
		return ok && sameVal(p.Tree, q.Tree)
	case *SliceV:
		q, ok := b.(*SliceV)
		return ok && p.Obj == q.Obj && p.Off == q.Off && p.Len == q.Len && p.Cap == q.Cap
	case *PtrV:
		q, ok := b.(*PtrV)
		if !ok || p.Obj != q.Obj || len(p.Path) != len(q.Path) {
			return false
		}
		for i := range p.Path {
			if p.Path[i] != q.Path[i] {
				return false
			}
		}
		return true
	case *MuxV:
		q, ok := b.(*MuxV)
		return ok && p.C == q.C && sameVal(p.A, q.A) && sameVal(p.B, q.B)
	case *IfaceV:
		q, ok := b.(*IfaceV)
		return ok && p.T == q.T && (p.T == nil || sameVal(p.V, q.V))
	case *FuncV:
		q, ok := b.(*FuncV)
		return ok && *p == *q
	case *OpaqueV:
		q, ok := b.(*OpaqueV)
		return ok && *p == *q
	}
	return false
}

func (x *Exec) saveRets(fr *Frame) map[*Frame]int {
	m := map[*Frame]int{}
	for _, f := range x.stack {
		m[f] = len(f.rets)
	}
	m[fr] = len(fr.rets)
	return m
}
func (x *Exec) restoreRets(fr *Frame, m map[*Frame]int) {
	for f, k := range m {
		f.rets = f.rets[:k]
	}
}

func (x *Exec) frameID(af, fr *Frame) string {
	f := af
	if f == nil {
		f = fr
	}
	for f.fi == nil && f.up != nil {
		f = f.up
	}
	if f.fi == nil {
		return "?"
	}
	return f.fi.Obj.FullName()
}
