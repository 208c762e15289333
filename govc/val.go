package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
)

type Value interface{}

// scalars are *Term.

type StructV struct {
	T types.Type
	F []Value
}
type ArrV struct { // exploded array
	E []Value
}
type SymArr struct { // symbolic array: leaves of Tree are array terms
	Elem types.Type
	Tree Value
}
type SliceV struct {
	Obj           *Obj // nil for the nil slice
	Off, Len, Cap *Term
	Elem          types.Type
}
type Sel struct {
	F   int
	Idx *Term // nil for field selectors
}
type PtrV struct {
	Obj  *Obj // nil for nil
	Path []Sel
}
type FuncV struct {
	Lit  *ast.FuncLit
	Env  *Frame
	Fn   *types.Func
	Recv Value
	Sym  string // uninterpreted function
	Sig  *types.Signature
	Nil  bool
}
type IfaceV struct {
	T types.Type // nil: nil interface
	V Value
}
type OpaqueV struct { // value of a type outside the model; identity only
	T  types.Type
	ID int
}
type MuxV struct {
	C    *Term
	A, B Value
}
type TupleV struct{ V []Value }

type Obj struct {
	ID      int
	Name    string
	T       types.Type
	Escaped bool
	Param   bool
}

var objCnt int

func NewObj(name string, t types.Type) *Obj {
	objCnt++
	return &Obj{ID: objCnt, Name: name, T: t}
}

// ---------------------------------------------------------------- sorts of types

func scalarSort(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return BoolS
		case i&types.IsUnsigned != 0:
			switch u.Kind() {
			case types.Uint8:
				return BVS(8)
			case types.Uint16:
				return BVS(16)
			case types.Uint32:
				return BVS(32)
			}
			return BVS(64)
		case i&types.IsInteger != 0:
			return IntS
		case i&types.IsFloat != 0:
			return RealS
		case i&types.IsString != 0:
			return StrS
		}
	}
	return nil
}

func zeroTerm(s *Sort) *Term {
	switch s.K {
	case KBool:
		return False
	case KInt, KReal:
		return Num(s, new(big.Rat))
	case KBV:
		return BVNum(s.N, new(big.Int))
	case KStr:
		return strConst("")
	case KArr:
		return ConstArr(s, zeroTerm(s.Elem))
	}
	panic("zeroTerm")
}

var strConsts = map[string]*Term{}

func strConst(s string) *Term {
	if t, ok := strConsts[s]; ok {
		return t
	}
	t := mk(OVar, StrS, fmt.Sprintf("str%d_%s", len(strConsts), clean(s)), nil, nil)
	strConsts[s] = t
	return t
}

const explodeLimit = 64

func isScalarTree(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return scalarSort(t) != nil
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !isScalarTree(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return u.Len() <= explodeLimit && isScalarTree(u.Elem())
	}
	return false
}

func zeroVal(t types.Type) Value {
	if s := scalarSort(t); s != nil {
		return zeroTerm(s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, zeroVal(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		return newArr(u.Elem(), u.Len())
	case *types.Slice:
		return &SliceV{Off: Int(0), Len: Int(0), Cap: Int(0), Elem: u.Elem()}
	case *types.Pointer:
		return &PtrV{}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{Nil: true, Sig: u}
	case *types.Basic:
		if u.Kind() == types.UntypedNil {
			return &IfaceV{}
		}
		if u.Kind() == types.UnsafePointer {
			return &PtrV{}
		}
	case *types.Map, *types.Chan:
		return &OpaqueV{T: t}
	case *types.TypeParam:
		return &OpaqueV{T: t}
	}
	panic(unsup(nil, "zero value of type %v", t))
}

func newArr(elem types.Type, n int64) Value {
	if n <= explodeLimit || !isScalarTree(elem) {
		if n > 20000 {
			panic(unsup(nil, "array of %d elements of type %v", n, elem))
		}
		a := &ArrV{}
		for i := int64(0); i < n; i++ {
			a.E = append(a.E, zeroVal(elem))
		}
		return a
	}
	return &SymArr{Elem: elem, Tree: mapLeaves(zeroVal(elem), func(t *Term) *Term { return ConstArr(ArrS(t.S), t) })}
}

func mapLeaves(v Value, f func(*Term) *Term) Value {
	switch v := v.(type) {
	case *Term:
		return f(v)
	case *StructV:
		r := &StructV{T: v.T}
		for _, x := range v.F {
			r.F = append(r.F, mapLeaves(x, f))
		}
		return r
	case *ArrV:
		r := &ArrV{}
		for _, x := range v.E {
			r.E = append(r.E, mapLeaves(x, f))
		}
		return r
	}
	panic(unsup(nil, "symbolic array element %T", v))
}
func zipLeaves(a, b Value, f func(a, b *Term) *Term) Value {
	switch v := a.(type) {
	case *Term:
		return f(v, b.(*Term))
	case *StructV:
		r := &StructV{T: v.T}
		for i, x := range v.F {
			r.F = append(r.F, zipLeaves(x, b.(*StructV).F[i], f))
		}
		return r
	case *ArrV:
		r := &ArrV{}
		for i, x := range v.E {
			r.E = append(r.E, zipLeaves(x, b.(*ArrV).E[i], f))
		}
		return r
	}
	panic(unsup(nil, "symbolic array element %T", a))
}

// ---------------------------------------------------------------- unsupported

type Unsup struct {
	Pos ast.Node
	Msg string
}

func (u *Unsup) Error() string { return u.Msg }
func unsup(n ast.Node, f string, a ...interface{}) *Unsup {
	return &Unsup{n, fmt.Sprintf(f, a...)}
}

// ---------------------------------------------------------------- state

type PC struct {
	T  *Term
	Br bool
}
type State struct {
	heap map[*Obj]Value
	pc   []PC
}

func (s *State) clone() *State {
	h := make(map[*Obj]Value, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{heap: h, pc: s.pc[:len(s.pc):len(s.pc)]}
}
func (s *State) assume(t *Term, br bool) {
	if t == True {
		return
	}
	if !br && t.Op == OAnd {
		for _, a := range t.A {
			s.assume(a, false)
		}
		return
	}
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], PC{t, br})
}
func (s *State) dead() bool {
	for _, p := range s.pc {
		if p.T == False {
			return true
		}
	}
	return false
}

// known reports whether c (or its negation) is syntactically among the path
// conditions.
func (s *State) known(c *Term) (val, ok bool) {
	if c == True {
		return true, true
	}
	if c == False {
		return false, true
	}
	n := Not(c)
	for i := len(s.pc) - 1; i >= 0; i-- {
		if s.pc[i].T == c {
			return true, true
		}
		if s.pc[i].T == n {
			return false, true
		}
	}
	return false, false
}

func mergeVal(c *Term, a, b Value) Value {
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.S == y.S {
			return Ite(c, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			r := &StructV{T: x.T}
			same := true
			for i := range x.F {
				m := mergeVal(c, x.F[i], y.F[i])
				if m != x.F[i] {
					same = false
				}
				r.F = append(r.F, m)
			}
			if same {
				return x
			}
			return r
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.E) == len(y.E) {
			r := &ArrV{}
			same := true
			for i := range x.E {
				m := mergeVal(c, x.E[i], y.E[i])
				if m != x.E[i] {
					same = false
				}
				r.E = append(r.E, m)
			}
			if same {
				return x
			}
			return r
		}
	case *SymArr:
		if y, ok := b.(*SymArr); ok {
			return &SymArr{Elem: x.Elem, Tree: zipLeaves(x.Tree, y.Tree, func(p, q *Term) *Term { return Ite(c, p, q) })}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok && x.Obj == y.Obj {
			if x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap {
				return x
			}
			return &SliceV{Obj: x.Obj, Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Cap: Ite(c, x.Cap, y.Cap), Elem: x.Elem}
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.Obj == y.Obj && len(x.Path) == len(y.Path) {
			p := &PtrV{Obj: x.Obj}
			good := true
			for i := range x.Path {
				s, t := x.Path[i], y.Path[i]
				if (s.Idx == nil) != (t.Idx == nil) || s.F != t.F {
					good = false
					break
				}
				if s.Idx != nil {
					s.Idx = Ite(c, s.Idx, t.Idx)
				}
				p.Path = append(p.Path, s)
			}
			if good {
				return p
			}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.T == nil && y.T == nil {
				return x
			}
			if x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
				m := mergeVal(c, x.V, y.V)
				if _, bad := m.(*MuxV); !bad {
					return &IfaceV{x.T, m}
				}
			}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && *x == *y {
			return x
		}
	case *OpaqueV:
		if y, ok := b.(*OpaqueV); ok && *x == *y {
			return x
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.V) == len(y.V) {
			r := &TupleV{}
			for i := range x.V {
				r.V = append(r.V, mergeVal(c, x.V[i], y.V[i]))
			}
			return r
		}
	}
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	return &MuxV{c, a, b}
}

// merge two disjoint states that have a common ancestor.
func mergeStates(a, b *State) *State {
	r, _ := mergeStates2(a, b)
	return r
}
func mergeStates2(a, b *State) (*State, *Term) {
	p := 0
	for p < len(a.pc) && p < len(b.pc) && a.pc[p] == b.pc[p] {
		p++
	}
	var da, db []*Term
	for _, x := range a.pc[p:] {
		if x.Br {
			da = append(da, x.T)
		}
	}
	for _, x := range b.pc[p:] {
		if x.Br {
			db = append(db, x.T)
		}
	}
	DA, DB := And(da...), And(db...)
	r := &State{heap: map[*Obj]Value{}, pc: a.pc[:p:p]}
	// choose the simpler discriminator
	D := DA
	if len(da) > 0 && len(db) > 0 && da[0] == Not(db[0]) {
		D = da[0]
	}
	either := Or(DA, DB)
	if len(da) > 0 && len(db) > 0 && da[0] == Not(db[0]) {
		either = And(Imp(da[0], And(da[1:]...)), Imp(db[0], And(db[1:]...)))
	}
	if either != True {
		r.pc = append(r.pc, PC{either, true})
	}
	for _, x := range a.pc[p:] {
		if !x.Br {
			r.pc = append(r.pc, PC{Imp(D, x.T), false})
		}
	}
	for _, x := range b.pc[p:] {
		if !x.Br {
			r.pc = append(r.pc, PC{Imp(Not(D), x.T), false})
		}
	}
	for o, v := range a.heap {
		w, ok := b.heap[o]
		if !ok || v == w {
			r.heap[o] = v
			continue
		}
		r.heap[o] = mergeVal(D, v, w)
	}
	for o, w := range b.heap {
		if _, ok := a.heap[o]; !ok {
			r.heap[o] = w
		}
	}
	return r, D
}

// ---------------------------------------------------------------- paths

func selSym(v Value, idx *Term) Value {
	return mapLeaves(v, func(t *Term) *Term { return Select(t, idx) })
}

func loadPath(v Value, path []Sel) Value {
	if len(path) == 0 {
		return v
	}
	if m, ok := v.(*MuxV); ok {
		return mergeVal(m.C, loadPath(m.A, path), loadPath(m.B, path))
	}
	s := path[0]
	if s.Idx == nil {
		st, ok := v.(*StructV)
		if !ok {
			panic(unsup(nil, "field of %T", v))
		}
		return loadPath(st.F[s.F], path[1:])
	}
	switch a := v.(type) {
	case *ArrV:
		if i, ok := s.Idx.IntVal(); ok {
			if i < 0 || int(i) >= len(a.E) {
				if len(a.E) > 0 {
					return loadPath(a.E[0], path[1:])
				}
				panic(unsup(nil, "index out of range of an empty array"))
			}
			return loadPath(a.E[i], path[1:])
		}
		if len(a.E) == 0 {
			panic(unsup(nil, "index into an empty array"))
		}
		r := loadPath(a.E[len(a.E)-1], path[1:])
		for i := len(a.E) - 2; i >= 0; i-- {
			r = mergeVal(Eq(s.Idx, Int(int64(i))), loadPath(a.E[i], path[1:]), r)
		}
		return r
	case *SymArr:
		return loadPath(selSym(a.Tree, s.Idx), path[1:])
	}
	panic(unsup(nil, "index of %T", v))
}

func storePath(v Value, path []Sel, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	if m, ok := v.(*MuxV); ok {
		return mergeVal(m.C, storePath(m.A, path, nv), storePath(m.B, path, nv))
	}
	s := path[0]
	if s.Idx == nil {
		st, ok := v.(*StructV)
		if !ok {
			panic(unsup(nil, "field of %T", v))
		}
		r := &StructV{T: st.T, F: append([]Value(nil), st.F...)}
		r.F[s.F] = storePath(st.F[s.F], path[1:], nv)
		return r
	}
	switch a := v.(type) {
	case *ArrV:
		r := &ArrV{E: append([]Value(nil), a.E...)}
		if i, ok := s.Idx.IntVal(); ok {
			if i < 0 || int(i) >= len(a.E) {
				return v
			}
			r.E[i] = storePath(a.E[i], path[1:], nv)
			return r
		}
		for i := range r.E {
			r.E[i] = mergeVal(Eq(s.Idx, Int(int64(i))), storePath(a.E[i], path[1:], nv), a.E[i])
		}
		return r
	case *SymArr:
		e := storePath(selSym(a.Tree, s.Idx), path[1:], nv)
		return &SymArr{Elem: a.Elem, Tree: zipLeaves(a.Tree, e, func(arr, x *Term) *Term { return Store(arr, s.Idx, x) })}
	}
	panic(unsup(nil, "index store to %T", v))
}

// symVal makes an arbitrary value of type t.  hyp receives type-range facts.
func symVal(st *State, name string, t types.Type, depth int) Value {
	if s := scalarSort(t); s != nil {
		return Fresh(name, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, symVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), depth+1))
		}
		return v
	case *types.Array:
		if u.Len() <= explodeLimit || !isScalarTree(u.Elem()) {
			a := &ArrV{}
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, symVal(st, fmt.Sprintf("%s.%d", name, i), u.Elem(), depth+1))
			}
			return a
		}
		return symArr(name, u.Elem())
	case *types.Slice:
		if !isScalarTree(u.Elem()) {
			return &OpaqueV{T: t, ID: newID()}
		}
		o := NewObj(name, t)
		o.Param = true
		o.Escaped = true
		st.heap[o] = symArr(name, u.Elem())
		n := Fresh(name+".len", IntS)
		nonNegVar[n] = true
		st.assume(mk(OLe, BoolS, "", nil, nil, Int(0), n), false)
		return &SliceV{Obj: o, Off: Int(0), Len: n, Cap: n, Elem: u.Elem()}
	case *types.Pointer:
		if depth > 4 {
			return &OpaqueV{T: t, ID: newID()}
		}
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok && !isScalarTree(u.Elem()) {
			return &OpaqueV{T: t, ID: newID()}
		}
		o := NewObj(name, u.Elem())
		o.Param = true
		o.Escaped = true
		st.heap[o] = symVal(st, name, u.Elem(), depth+1)
		return &PtrV{Obj: o}
	case *types.Interface:
		if t.String() == "error" {
			return &MuxV{Fresh(name+".isnil", BoolS), &IfaceV{}, opaqueErr()}
		}
		return &OpaqueV{T: t, ID: newID()}
	case *types.Signature:
		return &FuncV{Sym: Fresh(name, IntS).Name, Sig: u}
	}
	return &OpaqueV{T: t, ID: newID()}
}

var idCnt int

func newID() int { idCnt++; return idCnt }

var opaqueErrT = types.NewNamed(types.NewTypeName(0, nil, "opaqueError", nil), types.NewStruct(nil, nil), nil)

func opaqueErr() Value { return &IfaceV{T: opaqueErrT, V: &StructV{T: opaqueErrT}} }

func symArr(name string, elem types.Type) *SymArr {
	tree := mapLeaves(symLeaf(name, elem), func(t *Term) *Term { return Var(t.Name, ArrS(t.S)) })
	return &SymArr{Elem: elem, Tree: tree}
}
func symLeaf(name string, t types.Type) Value {
	if s := scalarSort(t); s != nil {
		return Fresh(name, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, symLeaf(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return v
	case *types.Array:
		a := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, symLeaf(fmt.Sprintf("%s.%d", name, i), u.Elem()))
		}
		return a
	}
	panic(unsup(nil, "symbolic element of type %v", t))
}
