package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---------------------------------------------------------------- sorts

type SK int

const (
	KBool SK = iota
	KInt
	KReal
	KBV
	KArr // Int -> Elem
	KStr // opaque sort for strings
)

type Sort struct {
	K    SK
	N    int
	Elem *Sort
}

var (
	BoolS = &Sort{K: KBool}
	IntS  = &Sort{K: KInt}
	RealS = &Sort{K: KReal}
	StrS  = &Sort{K: KStr}
	bvS   = map[int]*Sort{}
	arrS  = map[*Sort]*Sort{}
)

func BVS(n int) *Sort {
	if s, ok := bvS[n]; ok {
		return s
	}
	s := &Sort{K: KBV, N: n}
	bvS[n] = s
	return s
}
func ArrS(e *Sort) *Sort {
	if s, ok := arrS[e]; ok {
		return s
	}
	s := &Sort{K: KArr, Elem: e}
	arrS[e] = s
	return s
}
func (s *Sort) String() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KInt:
		return "Int"
	case KReal:
		return "Real"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.N)
	case KArr:
		return "(Array Int " + s.Elem.String() + ")"
	case KStr:
		return "Str"
	}
	return "?"
}

// ---------------------------------------------------------------- terms

type Op int

const (
	ONum Op = iota // Int / Real / BV literal
	OTrue
	OFalse
	OVar
	OBound
	OApp
	OAnd
	OOr
	ONot
	OIte
	OEq
	OLe
	OLt
	OAdd
	OMul
	ODiv  // real division
	OIDiv // SMT div
	OIMod // SMT mod
	OToReal
	OToInt // floor
	OSelect
	OStore
	OConstArr
	OForall
	OExists
	OBV // bit-vector operation, Name = SMT op
)

type Term struct {
	Op    Op
	S     *Sort
	A     []*Term
	V     *big.Rat
	Name  string
	ID    int
	Bound bool    // contains a bound variable
	QV    []*Term // quantified variables
	Quant bool    // contains a quantifier
}

var (
	termTab = map[string]*Term{}
	termCnt int
	symCnt  int
)

func mk(op Op, s *Sort, name string, v *big.Rat, qv []*Term, a ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(op)))
	sb.WriteByte(':')
	sb.WriteString(s.String())
	sb.WriteByte(':')
	sb.WriteString(name)
	if v != nil {
		sb.WriteByte('#')
		sb.WriteString(v.RatString())
	}
	for _, q := range qv {
		sb.WriteByte('q')
		sb.WriteString(strconv.Itoa(q.ID))
	}
	for _, x := range a {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(x.ID))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	if termCnt > 6000000 || termCnt%256 == 0 && !verifyStop.IsZero() && time.Now().After(verifyStop) {
		panic(resourceLimit{})
	}
	t := &Term{Op: op, S: s, A: a, V: v, Name: name, ID: termCnt, QV: qv}
	if op == OBound {
		t.Bound = true
	}
	for _, x := range a {
		if x.Bound {
			t.Bound = true
		}
		if x.Quant {
			t.Quant = true
		}
	}
	if op == OForall || op == OExists {
		t.Quant = true
		// bound flag: does any bound var other than qv occur free
		t.Bound = len(freeBound(t)) > 0
	}
	termTab[k] = t
	return t
}

func freeBound(t *Term) map[*Term]bool {
	res := map[*Term]bool{}
	var walk func(t *Term, bs map[*Term]bool)
	seen := map[*Term]bool{}
	walk = func(t *Term, bs map[*Term]bool) {
		if t.Op == OBound {
			if !bs[t] {
				res[t] = true
			}
			return
		}
		if t.Op == OForall || t.Op == OExists {
			nb := map[*Term]bool{}
			for k := range bs {
				nb[k] = true
			}
			for _, q := range t.QV {
				nb[q] = true
			}
			walk(t.A[0], nb)
			return
		}
		if !t.Bound && len(t.QV) == 0 {
			return
		}
		if len(bs) == 0 {
			if seen[t] {
				return
			}
			seen[t] = true
		}
		for _, a := range t.A {
			walk(a, bs)
		}
	}
	walk(t, map[*Term]bool{})
	return res
}

var (
	True  = mk(OTrue, BoolS, "", nil, nil)
	False = mk(OFalse, BoolS, "", nil, nil)
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Num(s *Sort, r *big.Rat) *Term { return mk(ONum, s, "", r, nil) }
func Int(i int64) *Term             { return Num(IntS, new(big.Rat).SetInt64(i)) }
func Real(i int64) *Term            { return Num(RealS, new(big.Rat).SetInt64(i)) }
func BVNum(n int, v *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(n))
	x := new(big.Int).Mod(v, m)
	return Num(BVS(n), new(big.Rat).SetInt(x))
}
func Var(name string, s *Sort) *Term { return mk(OVar, s, name, nil, nil) }
func Fresh(name string, s *Sort) *Term {
	symCnt++
	return Var(fmt.Sprintf("%s!%d", clean(name), symCnt), s)
}
func FreshBound(name string, s *Sort) *Term {
	symCnt++
	return mk(OBound, s, fmt.Sprintf("%s?%d", clean(name), symCnt), nil, nil)
}
func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}
func App(name string, s *Sort, a ...*Term) *Term { return mk(OApp, s, clean(name), nil, nil, a...) }

func (t *Term) IsNum() bool { return t.Op == ONum }
func (t *Term) IsConst() bool {
	return t.Op == ONum || t.Op == OTrue || t.Op == OFalse
}
func (t *Term) IntVal() (int64, bool) {
	if t.Op == ONum && t.V.IsInt() && t.V.Num().IsInt64() {
		return t.V.Num().Int64(), true
	}
	return 0, false
}

// ---------------------------------------------------------------- booleans

func Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.A[0]
	case OLe:
		return Lt(a.A[1], a.A[0])
	case OLt:
		return Le(a.A[1], a.A[0])
	}
	return mk(ONot, BoolS, "", nil, nil, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t] {
			return true
		}
		if t == False || seen[Not(t)] {
			return false
		}
		if t.Op == OAnd {
			for _, x := range t.A {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OAnd, BoolS, "", nil, nil, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False || seen[t] {
			return true
		}
		if t == True || seen[Not(t)] {
			return false
		}
		if t.Op == OOr {
			for _, x := range t.A {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OOr, BoolS, "", nil, nil, out...)
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.S == BoolS {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if c.Op == ONot {
		return Ite(c.A[0], b, a)
	}
	// ite(c, ite(c,x,y), z)
	if a.Op == OIte && a.A[0] == c {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == c {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	return mk(OIte, a.S, "", nil, nil, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sort mismatch: %v : %v vs %v : %v", a, a.S, b, b.S))
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a == b)
	}
	if a.S == BoolS {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.S == IntS || a.S == RealS {
		d := Sub(a, b)
		if d.IsNum() {
			return Bool(d.V.Sign() == 0)
		}
		if r := eqBV(d); r != nil {
			return r
		}
	}
	if a.S.K == KBV {
		for i := 0; i < 2; i++ {
			if a.IsNum() && b.Op == OBV && b.Name == "bvsub" && b.A[0].IsNum() {
				return Eq(b.A[1], BV("bvsub", a.S, b.A[0], a))
			}
			a, b = b, a
		}
	}
	for i := 0; i < 2; i++ {
		if b.IsConst() && a.Op == OIte && a.A[1].IsConst() && a.A[2].IsConst() {
			return Ite(a.A[0], Eq(a.A[1], b), Eq(a.A[2], b))
		}
		a, b = b, a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OEq, BoolS, "", nil, nil, a, b)
}

// eqBV: d == 0, where d is linear in the number of a single bit vector.
func eqBV(d *Term) *Term {
	l := linOf(d)
	if len(l.c) != 1 {
		return nil
	}
	for t, k := range l.c {
		if t.Op == OToReal {
			t = t.A[0]
		}
		if t.Op != OBV || t.Name != "bv2nat" || k.Sign() == 0 {
			return nil
		}
		v := new(big.Rat).Quo(new(big.Rat).Neg(l.k), k)
		n := t.A[0].S.N
		if !v.IsInt() || v.Sign() < 0 || v.Num().BitLen() > n {
			return False
		}
		return Eq(t.A[0], BVNum(n, v.Num()))
	}
	return nil
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func cmp(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("cmp sort mismatch: %v : %v vs %v : %v", a, a.S, b, b.S))
	}
	d := Sub(a, b)
	if d.IsNum() {
		if op == OLe {
			return Bool(d.V.Sign() <= 0)
		}
		return Bool(d.V.Sign() < 0)
	}
	if b.IsConst() && a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
		return Ite(a.A[0], cmp(op, a.A[1], b), cmp(op, a.A[2], b))
	}
	if a.IsConst() && b.Op == OIte && (b.A[1].IsConst() || b.A[2].IsConst()) {
		return Ite(b.A[0], cmp(op, a, b.A[1]), cmp(op, a, b.A[2]))
	}
	if a.S == IntS && op == OLt {
		// normalise a < b  to a+1 <= b
		return cmp(OLe, Add(a, Int(1)), b)
	}
	// cancel common terms: move everything negative to the right
	if d.Op == OAdd || d.Op == OMul {
		l, r := splitSign(d)
		return mk(op, BoolS, "", nil, nil, l, r)
	}
	return mk(op, BoolS, "", nil, nil, a, b)
}

func splitSign(d *Term) (l, r *Term) {
	var ls, rs []*Term
	lf := linOf(d)
	for _, m := range lf.order() {
		c := lf.c[m]
		if c.Sign() > 0 {
			ls = append(ls, scaleAtom(c, m))
		} else {
			rs = append(rs, scaleAtom(new(big.Rat).Neg(c), m))
		}
	}
	if lf.k.Sign() > 0 {
		ls = append(ls, Num(d.S, lf.k))
	} else if lf.k.Sign() < 0 {
		rs = append(rs, Num(d.S, new(big.Rat).Neg(lf.k)))
	}
	return addRaw(d.S, ls), addRaw(d.S, rs)
}
func addRaw(s *Sort, ts []*Term) *Term {
	if len(ts) == 0 {
		return Num(s, new(big.Rat))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return mk(OAdd, s, "", nil, nil, ts...)
}

func Le(a, b *Term) *Term { return cmp(OLe, a, b) }
func Lt(a, b *Term) *Term { return cmp(OLt, a, b) }

// ---------------------------------------------------------------- arithmetic

type lin struct {
	c map[*Term]*big.Rat
	k *big.Rat
	s *Sort
}

func (l *lin) order() []*Term {
	var ts []*Term
	for t := range l.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return ts
}

func linOf(t *Term) *lin {
	l := &lin{c: map[*Term]*big.Rat{}, k: new(big.Rat), s: t.S}
	l.addTerm(t, big.NewRat(1, 1))
	return l
}
func (l *lin) addTerm(t *Term, k *big.Rat) {
	switch t.Op {
	case ONum:
		l.k = new(big.Rat).Add(l.k, new(big.Rat).Mul(k, t.V))
	case OAdd:
		for _, a := range t.A {
			l.addTerm(a, k)
		}
	case OMul:
		if t.A[0].IsNum() {
			k2 := new(big.Rat).Mul(k, t.A[0].V)
			l.addAtom(mulAtoms(t.S, t.A[1:]), k2)
			return
		}
		l.addAtom(t, k)
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(t *Term, k *big.Rat) {
	if k.Sign() == 0 {
		return
	}
	if o, ok := l.c[t]; ok {
		n := new(big.Rat).Add(o, k)
		if n.Sign() == 0 {
			delete(l.c, t)
		} else {
			l.c[t] = n
		}
		return
	}
	l.c[t] = new(big.Rat).Set(k)
}
func mulAtoms(s *Sort, a []*Term) *Term {
	if len(a) == 1 {
		return a[0]
	}
	return mk(OMul, s, "", nil, nil, a...)
}
func scaleAtom(c *big.Rat, m *Term) *Term {
	if c.Cmp(big.NewRat(1, 1)) == 0 {
		return m
	}
	if m.Op == OMul {
		return mk(OMul, m.S, "", nil, nil, append([]*Term{Num(m.S, c)}, m.A...)...)
	}
	return mk(OMul, m.S, "", nil, nil, Num(m.S, c), m)
}
func (l *lin) term() *Term {
	var out []*Term
	for _, m := range l.order() {
		out = append(out, scaleAtom(l.c[m], m))
	}
	if l.k.Sign() != 0 || len(out) == 0 {
		out = append(out, Num(l.s, l.k))
	}
	return addRaw(l.s, out)
}

func Add(ts ...*Term) *Term {
	l := &lin{c: map[*Term]*big.Rat{}, k: new(big.Rat), s: ts[0].S}
	one := big.NewRat(1, 1)
	for _, t := range ts {
		if t.S != l.s {
			panic(fmt.Sprintf("Add sort mismatch %v %v", t.S, l.s))
		}
		l.addTerm(t, one)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := linOf(a)
	l.addTerm(b, big.NewRat(-1, 1))
	return l.term()
}
func Neg(a *Term) *Term {
	l := &lin{c: map[*Term]*big.Rat{}, k: new(big.Rat), s: a.S}
	l.addTerm(a, big.NewRat(-1, 1))
	return l.term()
}
func Scale(c *big.Rat, a *Term) *Term {
	l := &lin{c: map[*Term]*big.Rat{}, k: new(big.Rat), s: a.S}
	l.addTerm(a, c)
	return l.term()
}

func Mul(a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("Mul sort mismatch %v %v", a.S, b.S))
	}
	if a.IsNum() {
		return Scale(a.V, b)
	}
	if b.IsNum() {
		return Scale(b.V, a)
	}
	na, nb := 1, 1
	if a.Op == OAdd {
		na = len(a.A)
	}
	if b.Op == OAdd {
		nb = len(b.A)
	}
	lim := 1
	if a.S == IntS {
		lim = 48
	}
	if na*nb > 1 && na*nb <= lim {
		l := &lin{c: map[*Term]*big.Rat{}, k: new(big.Rat), s: a.S}
		one := big.NewRat(1, 1)
		for _, x := range addends(a) {
			for _, y := range addends(b) {
				l.addTerm(mulMono(x, y), one)
			}
		}
		return l.term()
	}
	return mulMono(a, b)
}
func addends(a *Term) []*Term {
	if a.Op == OAdd {
		return a.A
	}
	return []*Term{a}
}
func mulMono(a, b *Term) *Term {
	k := big.NewRat(1, 1)
	var fs []*Term
	for _, t := range []*Term{a, b} {
		switch {
		case t.IsNum():
			k = new(big.Rat).Mul(k, t.V)
		case t.Op == OMul:
			if t.A[0].IsNum() {
				k = new(big.Rat).Mul(k, t.A[0].V)
				fs = append(fs, t.A[1:]...)
			} else {
				fs = append(fs, t.A...)
			}
		default:
			fs = append(fs, t)
		}
	}
	if k.Sign() == 0 {
		return Num(a.S, k)
	}
	if len(fs) == 0 {
		return Num(a.S, k)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	return scaleAtom(k, mulAtoms(a.S, fs))
}

func Div(a, b *Term) *Term { // real
	if b.IsNum() && b.V.Sign() != 0 {
		return Scale(new(big.Rat).Inv(b.V), a)
	}
	if a.IsNum() && a.V.Sign() == 0 && false {
		return a
	}
	// pull numeric factors out of the denominator and numerator
	k := big.NewRat(1, 1)
	if b.Op == OMul && b.A[0].IsNum() {
		k = new(big.Rat).Inv(b.A[0].V)
		b = mulAtoms(b.S, b.A[1:])
	}
	if b.Op == OAdd {
		// leading coefficient one
		l := linOf(b)
		var lead *Term
		for t := range l.c {
			if lead == nil || t.ID < lead.ID {
				lead = t
			}
		}
		if c := l.c[lead]; c.Cmp(big.NewRat(1, 1)) != 0 {
			inv := new(big.Rat).Inv(c)
			a, b = Scale(inv, a), Scale(inv, b)
		}
	}
	return Scale(k, mk(ODiv, RealS, "", nil, nil, a, b))
}

// IDiv, IMod: SMT-LIB (Euclidean) division.
func IDiv(a, b *Term) *Term {
	if b.IsNum() && b.V.Sign() != 0 {
		if a.IsNum() {
			q, _ := euclid(a.V.Num(), b.V.Num())
			return Num(IntS, new(big.Rat).SetInt(q))
		}
		if b.V.Cmp(big.NewRat(1, 1)) == 0 {
			return a
		}
	}
	return mk(OIDiv, IntS, "", nil, nil, a, b)
}
func IMod(a, b *Term) *Term {
	if b.IsNum() && b.V.Sign() != 0 {
		if a.IsNum() {
			_, r := euclid(a.V.Num(), b.V.Num())
			return Num(IntS, new(big.Rat).SetInt(r))
		}
		if b.V.Cmp(big.NewRat(1, 1)) == 0 {
			return Int(0)
		}
	}
	return mk(OIMod, IntS, "", nil, nil, a, b)
}
func euclid(a, b *big.Int) (q, r *big.Int) {
	q, r = new(big.Int), new(big.Int)
	q.DivMod(a, b, r)
	return
}

// TDiv, TMod: Go (truncated) division.
func TDiv(a, b *Term) *Term {
	if nonNeg(a) {
		return IDiv(a, b)
	}
	return Ite(Le(Int(0), a), IDiv(a, b), Neg(IDiv(Neg(a), b)))
}
func TMod(a, b *Term) *Term {
	if nonNeg(a) {
		return IMod(a, b)
	}
	return Ite(Le(Int(0), a), IMod(a, b), Neg(IMod(Neg(a), b)))
}
func nonNeg(a *Term) bool {
	switch a.Op {
	case ONum:
		return a.V.Sign() >= 0
	case OIMod:
		return a.A[1].IsNum() && a.A[1].V.Sign() != 0
	case OAdd:
		for _, x := range a.A {
			if !nonNeg(x) {
				return false
			}
		}
		return true
	case OMul:
		for _, x := range a.A {
			if !nonNeg(x) {
				return false
			}
		}
		return true
	case OIDiv:
		return nonNeg(a.A[0]) && nonNeg(a.A[1])
	case OIte:
		return nonNeg(a.A[1]) && nonNeg(a.A[2])
	case OToReal:
		return nonNeg(a.A[0])
	}
	return nonNegVar[a]
}

var nonNegVar = map[*Term]bool{}

func ToReal(a *Term) *Term {
	if a.S == RealS {
		return a
	}
	if a.IsNum() {
		return Num(RealS, a.V)
	}
	switch a.Op {
	case OAdd:
		var ts []*Term
		for _, x := range a.A {
			ts = append(ts, ToReal(x))
		}
		return Add(ts...)
	case OMul:
		t := ToReal(a.A[0])
		for _, x := range a.A[1:] {
			t = Mul(t, ToReal(x))
		}
		return t
	case OIte:
		return Ite(a.A[0], ToReal(a.A[1]), ToReal(a.A[2]))
	}
	return mk(OToReal, RealS, "", nil, nil, a)
}
func ToInt(a *Term) *Term { // floor
	if a.IsNum() {
		q, _ := euclid(a.V.Num(), a.V.Denom())
		return Num(IntS, new(big.Rat).SetInt(q))
	}
	if a.Op == OToReal {
		return a.A[0]
	}
	// floor(int part + rest)
	if a.Op == OAdd {
		l := linOf(a)
		ip := &lin{c: map[*Term]*big.Rat{}, k: new(big.Rat), s: IntS}
		rest := &lin{c: map[*Term]*big.Rat{}, k: new(big.Rat), s: RealS}
		n := 0
		for m, c := range l.c {
			if m.Op == OToReal && c.IsInt() {
				ip.addTerm(m.A[0], c)
				n++
			} else {
				rest.c[m] = c
			}
		}
		if l.k.IsInt() {
			ip.k = l.k
			if l.k.Sign() != 0 {
				n++
			}
		} else {
			rest.k = l.k
		}
		if n > 0 {
			r := rest.term()
			if r.IsNum() {
				return Add(ip.term(), ToInt(r))
			}
			return Add(ip.term(), mk(OToInt, IntS, "", nil, nil, r))
		}
	}
	return mk(OToInt, IntS, "", nil, nil, a)
}

func Trunc(a *Term) *Term { // Go int(float)
	if a.Op == OToReal {
		return a.A[0]
	}
	if t := ToInt(a); t.Op != OToInt && a.Op == OAdd && false {
		return t
	}
	if allInt(a) {
		return ToInt(a)
	}
	if nonNeg(a) {
		return ToInt(a)
	}
	return Ite(Le(Real(0), a), ToInt(a), Neg(ToInt(Neg(a))))
}
func allInt(a *Term) bool {
	switch a.Op {
	case ONum:
		return a.V.IsInt()
	case OToReal:
		return true
	case OAdd, OMul:
		for _, x := range a.A {
			if !allInt(x) {
				return false
			}
		}
		return true
	case OIte:
		return allInt(a.A[1]) && allInt(a.A[2])
	}
	return false
}

// ---------------------------------------------------------------- arrays

func Select(a, i *Term) *Term {
	for {
		switch a.Op {
		case OStore:
			if a.A[1] == i {
				return a.A[2]
			}
			d := Sub(a.A[1], i)
			if d.IsNum() && d.V.Sign() != 0 {
				a = a.A[0]
				continue
			}
		case OConstArr:
			return a.A[0]
		case OIte:
			return Ite(a.A[0], Select(a.A[1], i), Select(a.A[2], i))
		}
		return mk(OSelect, a.S.Elem, "", nil, nil, a, i)
	}
}
func Store(a, i, v *Term) *Term {
	if a.Op == OStore && a.A[1] == i {
		a = a.A[0]
	}
	if v.Op == OSelect && v.A[0] == a && v.A[1] == i {
		return a
	}
	if (a.Op == OIte || a.Op == OStore) && v == Select(a, i) {
		return a
	}
	return mk(OStore, a.S, "", nil, nil, a, i, v)
}
func ConstArr(s *Sort, v *Term) *Term { return mk(OConstArr, s, "", nil, nil, v) }

func Forall(vs []*Term, body *Term) *Term {
	if body.IsConst() || !body.Bound {
		return body
	}
	return mk(OForall, BoolS, "", nil, vs, body)
}
func Exists(vs []*Term, body *Term) *Term {
	if body == False {
		return body
	}
	return mk(OExists, BoolS, "", nil, vs, body)
}

// ---------------------------------------------------------------- bit-vectors

func BV(name string, s *Sort, a ...*Term) *Term {
	all := true
	for _, x := range a {
		if !x.IsNum() {
			all = false
		}
	}
	if all && len(a) > 0 {
		n := a[0].S.N
		x := a[0].V.Num()
		mod := func(v *big.Int) *Term {
			if s == BoolS {
				panic("bv")
			}
			return BVNum(s.N, v)
		}
		z := new(big.Int)
		var y *big.Int
		if len(a) > 1 {
			y = a[1].V.Num()
		}
		switch name {
		case "bvadd":
			return mod(z.Add(x, y))
		case "bvsub":
			return mod(z.Sub(x, y))
		case "bvmul":
			return mod(z.Mul(x, y))
		case "bvand":
			return mod(z.And(x, y))
		case "bvor":
			return mod(z.Or(x, y))
		case "bvxor":
			return mod(z.Xor(x, y))
		case "bvudiv":
			if y.Sign() != 0 {
				return mod(z.Div(x, y))
			}
		case "bvurem":
			if y.Sign() != 0 {
				return mod(z.Mod(x, y))
			}
		case "bvshl":
			if y.Cmp(big.NewInt(int64(n))) >= 0 {
				return mod(z)
			}
			return mod(z.Lsh(x, uint(y.Int64())))
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(n))) >= 0 {
				return mod(z)
			}
			return mod(z.Rsh(x, uint(y.Int64())))
		case "bvnot":
			m := new(big.Int).Lsh(big.NewInt(1), uint(n))
			m.Sub(m, big.NewInt(1))
			return mod(z.Xor(x, m))
		case "bvneg":
			return mod(z.Neg(x))
		case "bvult":
			return Bool(x.Cmp(y) < 0)
		case "bvule":
			return Bool(x.Cmp(y) <= 0)
		case "bv2nat":
			return Num(IntS, new(big.Rat).SetInt(x))
		case "zext", "trunc":
			return mod(z.Set(x))
		}
	}
	if name == "int2bv" && a[0].IsNum() {
		return BVNum(s.N, a[0].V.Num())
	}
	if name == "int2bv" && a[0].Op == OBV && a[0].Name == "bv2nat" && a[0].A[0].S == s {
		return a[0].A[0]
	}
	if (name == "zext" || name == "trunc") && s == a[0].S {
		return a[0]
	}
	zero := func(t *Term) bool { return t.IsNum() && t.V.Sign() == 0 }
	switch name {
	case "bvadd", "bvor", "bvxor":
		if zero(a[0]) {
			return a[1]
		}
		if zero(a[1]) {
			return a[0]
		}
		if name == "bvxor" && a[0] == a[1] {
			return BVNum(s.N, new(big.Int))
		}
		if a[0].ID > a[1].ID {
			a = []*Term{a[1], a[0]}
		}
	case "bvand":
		if zero(a[0]) {
			return a[0]
		}
		if zero(a[1]) {
			return a[1]
		}
	case "bvshl", "bvlshr":
		if zero(a[1]) {
			return a[0]
		}
	case "bvult", "bvule":
		// ite with constant branches against a constant
		if a[1].IsNum() && a[0].Op == OIte && a[0].A[1].IsNum() && a[0].A[2].IsNum() {
			return Ite(a[0].A[0], BV(name, s, a[0].A[1], a[1]), BV(name, s, a[0].A[2], a[1]))
		}
	}
	return mk(OBV, s, name, nil, nil, a...)
}

// ---------------------------------------------------------------- printing

func ratStr(s *Sort, v *big.Rat) string {
	if s.K == KBV {
		return fmt.Sprintf("(_ bv%s %d)", v.Num().String(), s.N)
	}
	abs := new(big.Rat).Abs(v)
	var r string
	if s.K == KInt {
		r = abs.Num().String()
	} else if abs.IsInt() {
		r = abs.Num().String() + ".0"
	} else {
		r = "(/ " + abs.Num().String() + ".0 " + abs.Denom().String() + ".0)"
	}
	if v.Sign() < 0 {
		r = "(- " + r + ")"
	}
	return r
}

var opName = map[Op]string{OAnd: "and", OOr: "or", ONot: "not", OIte: "ite", OEq: "=", OLe: "<=", OLt: "<",
	OAdd: "+", OMul: "*", ODiv: "/", OIDiv: "div", OIMod: "mod", OToReal: "to_real", OToInt: "to_int",
	OSelect: "select", OStore: "store"}

func (t *Term) head(arg func(*Term) string) string {
	switch t.Op {
	case ONum:
		return ratStr(t.S, t.V)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar, OBound:
		return "|" + t.Name + "|"
	case OApp:
		if len(t.A) == 0 {
			return "|" + t.Name + "|"
		}
	case OForall, OExists:
		q := "forall"
		if t.Op == OExists {
			q = "exists"
		}
		var sb strings.Builder
		sb.WriteString("(" + q + " (")
		for _, v := range t.QV {
			sb.WriteString("(|" + v.Name + "| " + v.S.String() + ")")
		}
		sb.WriteString(") " + arg(t.A[0]) + ")")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.Op {
	case OApp:
		sb.WriteString("|" + t.Name + "|")
	case OConstArr:
		sb.WriteString("(as const " + t.S.String() + ")")
	case OBV:
		switch t.Name {
		case "zext":
			fmt.Fprintf(&sb, "(_ zero_extend %d)", t.S.N-t.A[0].S.N)
		case "trunc":
			fmt.Fprintf(&sb, "(_ extract %d 0)", t.S.N-1)
		case "int2bv":
			fmt.Fprintf(&sb, "(_ int2bv %d)", t.S.N)
		default:
			sb.WriteString(t.Name)
		}
	default:
		sb.WriteString(opName[t.Op])
	}
	for _, a := range t.A {
		sb.WriteByte(' ')
		sb.WriteString(arg(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	s := t.strDepth(0)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}
func (t *Term) strDepth(d int) string {
	if d > 12 {
		return "…"
	}
	return t.head(func(a *Term) string { return a.strDepth(d + 1) })
}

// ---------------------------------------------------------------- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var go1 func(t *Term) *Term
	go1 = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.A) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.A))
		ch := false
		for i, a := range t.A {
			na[i] = go1(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return go1(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case ONot:
		return Not(a[0])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OLe:
		return Le(a[0], a[1])
	case OLt:
		return Lt(a[0], a[1])
	case OAdd:
		return Add(a...)
	case OMul:
		r := a[0]
		for _, x := range a[1:] {
			r = Mul(r, x)
		}
		return r
	case ODiv:
		return Div(a[0], a[1])
	case OIDiv:
		return IDiv(a[0], a[1])
	case OIMod:
		return IMod(a[0], a[1])
	case OToReal:
		return ToReal(a[0])
	case OToInt:
		return ToInt(a[0])
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OForall:
		return Forall(t.QV, a[0])
	case OExists:
		return Exists(t.QV, a[0])
	case OBV:
		return BV(t.Name, t.S, a...)
	case OApp:
		if (t.Name == "cnt" || t.Name == "cntgt") && len(a) == 4 {
			return cntTerm(t.Name, a[0], a[1], a[2], a[3])
		}
		return mk(OApp, t.S, t.Name, nil, nil, a...)
	case OConstArr:
		return ConstArr(t.S, a[0])
	}
	return mk(t.Op, t.S, t.Name, t.V, t.QV, a...)
}

// verifyStop bounds the wall time spent on one function; running out of it
// fails the function's verification.
var verifyStop time.Time

type resourceLimit struct{}
