package main

import (
	"context"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"
)

// Identities between rational functions. An equality whose two sides agree as
// rational functions follows from its denominators being non-zero; the goal is
// replaced by these side conditions, which go to the solvers.

// rat is num / product of den[k].p ^ den[k].e.
type ratF struct {
	num poly
	den map[string]*denF
}
type denF struct {
	p poly
	e int
}

func polyString(p poly) string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(p[k].RatString() + "·" + k + ";")
	}
	return sb.String()
}

// monic divides p by its leading coefficient.
func monic(p poly) (poly, *big.Rat) {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c := p[ks[0]]
	r := poly{}
	for k, v := range p {
		r[k] = new(big.Rat).Quo(v, c)
	}
	return r, c
}

func polyMul(a, b poly, lim int) (poly, bool) {
	if len(a)*len(b) > lim*8 {
		return nil, false
	}
	n := poly{}
	for k1, v1 := range a {
		for k2, v2 := range b {
			k := mulKey(k1, k2)
			v := new(big.Rat).Mul(v1, v2)
			if o, ok := n[k]; ok {
				v = new(big.Rat).Add(o, v)
			}
			if v.Sign() == 0 {
				delete(n, k)
			} else {
				n[k] = v
			}
		}
	}
	return n, len(n) <= lim
}

func polyAdd(a, b poly) poly {
	n := poly{}
	for k, v := range a {
		n[k] = v
	}
	for k, v := range b {
		if o, ok := n[k]; ok {
			v = new(big.Rat).Add(o, v)
		}
		if v.Sign() == 0 {
			delete(n, k)
		} else {
			n[k] = v
		}
	}
	return n
}

type ratCtx struct {
	lim   int
	stop  time.Time
	conds map[*Term]bool
	order []*Term
	memo  map[*Term]*ratF
}

func (c *ratCtx) cond(t *Term) {
	if !c.conds[t] {
		c.conds[t] = true
		c.order = append(c.order, t)
	}
}

// missing returns the product of the factors that d lacks with respect to l.
func (c *ratCtx) missing(d, l map[string]*denF) (poly, bool) {
	m := poly{"": big.NewRat(1, 1)}
	ks := make([]string, 0, len(l))
	for k := range l {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	ok := true
	for _, k := range ks {
		e := l[k].e
		if o := d[k]; o != nil {
			e -= o.e
		}
		for ; e > 0; e-- {
			if m, ok = polyMul(m, l[k].p, c.lim); !ok {
				return nil, false
			}
		}
	}
	return m, true
}

func (c *ratCtx) norm(t *Term) (*ratF, bool) {
	if r, ok := c.memo[t]; ok {
		return r, r != nil
	}
	if time.Now().After(c.stop) {
		return nil, false
	}
	r, ok := c.norm1(t)
	if !ok {
		r = nil
	}
	c.memo[t] = r
	return r, ok
}

func (c *ratCtx) norm1(t *Term) (*ratF, bool) {
	switch t.Op {
	case ONum:
		if t.V.Sign() == 0 {
			return &ratF{poly{}, nil}, true
		}
		return &ratF{poly{"": t.V}, nil}, true
	case OAdd:
		var fs []*ratF
		l := map[string]*denF{}
		for _, a := range t.A {
			f, ok := c.norm(a)
			if !ok {
				return nil, false
			}
			fs = append(fs, f)
			for k, d := range f.den {
				if o := l[k]; o == nil || o.e < d.e {
					l[k] = d
				}
			}
		}
		sum := poly{}
		for _, f := range fs {
			m, ok := c.missing(f.den, l)
			if !ok {
				return nil, false
			}
			q, ok := polyMul(f.num, m, c.lim)
			if !ok {
				return nil, false
			}
			sum = polyAdd(sum, q)
			if len(sum) > c.lim {
				return nil, false
			}
		}
		return &ratF{sum, l}, true
	case OMul:
		r := &ratF{poly{"": big.NewRat(1, 1)}, nil}
		for _, a := range t.A {
			f, ok := c.norm(a)
			if !ok {
				return nil, false
			}
			if r, ok = c.mul(r, f); !ok {
				return nil, false
			}
		}
		return r, true
	case ODiv:
		n, ok := c.norm(t.A[0])
		if !ok {
			return nil, false
		}
		d, ok := c.norm(t.A[1])
		if !ok || len(d.num) == 0 {
			return nil, false
		}
		c.cond(t.A[1])
		// 1/d = den(d) / num(d)
		inv := &ratF{poly{"": big.NewRat(1, 1)}, map[string]*denF{}}
		for _, f := range sortedDen(d.den) {
			for e := f.e; e > 0; e-- {
				if inv.num, ok = polyMul(inv.num, f.p, c.lim); !ok {
					return nil, false
				}
			}
		}
		if len(d.num) == 1 {
			if k, ok := d.num[""]; ok {
				for m, v := range inv.num {
					inv.num[m] = new(big.Rat).Quo(v, k)
				}
				return c.mul(n, inv)
			}
		}
		p, k := monic(d.num)
		q := poly{}
		for m, v := range inv.num {
			q[m] = new(big.Rat).Quo(v, k)
		}
		inv.num = q
		inv.den[polyString(p)] = &denF{p, 1}
		return c.mul(n, inv)
	}
	return &ratF{poly{fmt.Sprintf("v%d", t.ID): big.NewRat(1, 1)}, nil}, true
}

func sortedDen(d map[string]*denF) []*denF {
	ks := make([]string, 0, len(d))
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*denF
	for _, k := range ks {
		out = append(out, d[k])
	}
	return out
}

func (c *ratCtx) mul(a, b *ratF) (*ratF, bool) {
	n, ok := polyMul(a.num, b.num, c.lim)
	if !ok {
		return nil, false
	}
	den := map[string]*denF{}
	for k, d := range a.den {
		den[k] = d
	}
	for k, d := range b.den {
		if o := den[k]; o != nil {
			den[k] = &denF{d.p, o.e + d.e}
		} else {
			den[k] = d
		}
	}
	return &ratF{n, den}, true
}

// hasDiv reports whether t contains a division by a non-constant outside of
// atoms.
func hasDiv(t *Term) bool {
	switch t.Op {
	case ODiv:
		return true
	case OAdd, OMul:
		for _, a := range t.A {
			if hasDiv(a) {
				return true
			}
		}
	}
	return false
}

// ratGoal replaces identities between rational functions by the conditions
// under which they hold; ok is false when nothing was replaced.
func ratGoal(g *Term) (*Term, bool) {
	switch g.Op {
	case OForall:
		if b, ok := ratGoal(g.A[0]); ok {
			return Forall(g.QV, b), true
		}
	case OAnd, OOr:
		any := false
		as := make([]*Term, len(g.A))
		for i, a := range g.A {
			if b, ok := ratGoal(a); ok {
				as[i] = b
				any = true
			} else {
				as[i] = a
			}
		}
		if any {
			if g.Op == OAnd {
				return And(as...), true
			}
			return Or(as...), true
		}
	case OEq:
		if g.A[0].S != RealS {
			return g, false
		}
		d := Sub(g.A[0], g.A[1])
		c := &ratCtx{lim: 1500, stop: time.Now().Add(3 * time.Second), conds: map[*Term]bool{}, memo: map[*Term]*ratF{}}
		f, ok := c.norm(d)
		if !ok || len(f.num) != 0 {
			return g, false
		}
		var cs []*Term
		for _, t := range c.order {
			cs = append(cs, nonzero(t))
		}
		return And(cs...), true
	}
	return g, false
}

// nonzero states t != 0, factor by factor.
func nonzero(t *Term) *Term {
	switch t.Op {
	case OMul:
		var cs []*Term
		for _, a := range t.A {
			cs = append(cs, nonzero(a))
		}
		return And(cs...)
	case ONum:
		return Bool(t.V.Sign() != 0)
	}
	return Not(Eq(t, Num(t.S, new(big.Rat))))
}

// bySubst replaces variables and array elements that the hypotheses equate
// with a term.
func bySubst(o *Obl, g *Term) *Term {
	var eqs [][2]*Term
	var w func(h *Term)
	w = func(h *Term) {
		switch h.Op {
		case OAnd:
			for _, a := range h.A {
				w(a)
			}
		case OEq:
			if !h.Bound && !h.Quant && (h.A[0].S == RealS || h.A[0].S == IntS) {
				eqs = append(eqs, [2]*Term{h.A[0], h.A[1]})
			}
		}
	}
	for _, h := range o.Hyps {
		w(h)
	}
	apply := func(m map[*Term]*Term, t *Term) *Term {
		for i := 0; i < 4 && len(m) > 0; i++ {
			n := Subst(t, m)
			if n == t {
				break
			}
			t = n
		}
		return t
	}
	vars := map[*Term]*Term{}
	for _, e := range eqs {
		a, b := e[0], e[1]
		if a.S == IntS && a.Op != OVar && b.Op != OVar {
			// an integer variable with coefficient one
			l := linOf(Sub(a, b))
			var v *Term
			for t, c := range l.c {
				if t.Op == OVar && c.IsInt() && new(big.Rat).Abs(c).Cmp(big.NewRat(1, 1)) == 0 && (v == nil || t.ID > v.ID) {
					v = t
				}
			}
			if v != nil {
				r := Sub(v, Scale(l.c[v], Sub(a, b)))
				if !occurs(v, r) {
					a, b = v, r
				}
			}
		}
		if b.Op == OVar && (a.Op != OVar || a.ID < b.ID) {
			a, b = b, a
		}
		if a.Op == OVar && vars[a] == nil && !occurs(a, b) {
			vars[a] = b
		}
	}
	g = apply(vars, g)
	sels := map[*Term]*Term{}
	for _, e := range eqs {
		a, b := apply(vars, e[0]), apply(vars, e[1])
		if b.Op == OSelect && (a.Op != OSelect || a.ID < b.ID) {
			a, b = b, a
		}
		if a.Op == OSelect && sels[a] == nil && !occurs(a, b) {
			sels[a] = b
		}
	}
	return apply(sels, g)
}

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.A {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// congruent finds applications of the functions named by //verif:congr in the
// goal and, for each, applications of the same function to the same numbers
// but other arrays among the ground instances of the hypotheses. Those that
// can be proved equal, with the function unfolded, become hypotheses; the
// goal is then proved without unfolding it.
func (pv *prover) congruent(o *Obl, g *Term) bool {
	x := pv.x
	if len(x.congr) == 0 {
		return false
	}
	apps := func(ts ...*Term) []*Term {
		var out []*Term
		seen := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == OApp && x.congr[t.Name] {
				out = append(out, t)
			}
			for _, a := range t.A {
				w(a)
			}
		}
		for _, t := range ts {
			w(t)
		}
		return out
	}
	if len(apps(g)) == 0 {
		return false
	}
	if g.Op == OForall {
		m := map[*Term]*Term{}
		for _, q := range g.QV {
			m[q] = Fresh("sk."+q.Name, q.S)
		}
		g = Subst(g.A[0], m)
	}
	o2 := *o
	o2.Hyps = append([]*Term(nil), o.Hyps...)
	lit := g
	if g.Op == OOr {
		var gs []*Term
		for _, a := range g.A {
			if len(apps(a)) > 0 {
				gs = append(gs, a)
			} else {
				o2.Hyps = append(o2.Hyps, Not(a))
			}
		}
		lit = Or(gs...)
	}
	p := prepare(x, &o2, lit, pv.rounds, pv.limit)
	unfold := func(t *Term) *Term {
		d := x.recDefs[t.Name]
		if d == nil || d.body == nil {
			return t
		}
		m := map[*Term]*Term{}
		for i, q := range d.params {
			m[q] = t.A[i]
		}
		return Subst(d.body, m)
	}
	// arrays that differ where both are read at a plain index are not worth
	// a longer attempt
	known := map[[2]*Term]bool{}
	plausible := func(t, r *Term) bool {
		for i := range t.A {
			a, b := t.A[i], r.A[i]
			if a == b || a.S.K != KArr {
				continue
			}
			if v, ok := known[[2]*Term{a, b}]; ok {
				if !v {
					return false
				}
				continue
			}
			v := true
			for _, k := range t.A {
				if k.Op == OVar && k.S == IntS && strings.HasPrefix(k.Name, "sk.") {
					s1, _, _, _ := pv.texts(&o2, Eq(Select(a, k), Select(b, k)))
					if s1 != nil {
						a, _ := runSolver(context.Background(), s1[0].be.bin, s1[0].be.args(10*time.Second), s1[0].text, 10*time.Second)
						v = a != "sat"
					}
					break
				}
			}
			known[[2]*Term{a, b}] = v
			if !v {
				return false
			}
		}
		return true
	}
	var eqs, goals []*Term
	hy := apps(p.ground...)
	for _, t := range apps(lit) {
		for _, r := range hy {
			if r == t || r.Name != t.Name || r.Bound {
				continue
			}
			ok, arr := true, false
			gs := []*Term{nil}
			for i := range t.A {
				switch {
				case t.A[i] == r.A[i]:
				case t.A[i].S.K == KArr:
					arr = true
				case t.A[i].S == BoolS:
					gs = append(gs, Not(Eq(t.A[i], r.A[i])))
				default:
					ok = false
				}
			}
			if ok && arr && plausible(t, r) {
				gs[0] = Eq(unfold(t), unfold(r))
				goals = append(goals, Or(gs...))
				gs[0] = Eq(t, r)
				eqs = append(eqs, Or(gs...))
			}
		}
	}
	type job struct {
		e      *Term
		s1, s2 []queryText
		comp   bool
		ok     bool
	}
	var js []*job
	var wg sync.WaitGroup
	for i, e := range eqs {
		j := &job{e: e}
		js = append(js, j)
		j.s1, j.s2, j.comp, _ = pv.texts(&o2, goals[i])
		if j.s1 == nil {
			j.ok = true
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			// a candidate that is not an equality is refuted by the ground
			// instances at once; no point in a long race
			ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
			defer cancel()
			ch := make(chan string, 2)
			for _, q := range []queryText{j.s1[0], j.s2[0]} {
				q := q
				go func() {
					a, _ := runSolver(ctx, q.be.bin, q.be.args(25*time.Second), q.text, 25*time.Second)
					ch <- a
				}()
			}
			for i := 0; i < 2 && !j.ok; i++ {
				a := <-ch
				j.ok = a == "unsat"
				if a == "sat" {
					break
				}
			}
		}()
	}
	wg.Wait()
	any := false
	for _, j := range js {
		if j.ok {
			any = true
			o2.Hyps = append(o2.Hyps, j.e)
		}
	}
	if !any {
		return false
	}
	s1, s2, comp, _ := pv.texts(&o2, lit)
	return s1 == nil || pv.race(s1, s2, comp).ans == "unsat"
}
