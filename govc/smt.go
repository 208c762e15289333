package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- preparation

type Prep struct {
	ground []*Term
	univ   []*Term // OForall
	key    map[*Term]bool
	x      *Exec
	inst   map[string]bool // instances made so far
	pats   map[*Term][]pat
}

// instance substitutes once per (formula, tuple).
func (p *Prep) instance(u *Term, m map[*Term]*Term) *Term {
	k := make([]byte, 0, 64)
	k = strconv.AppendInt(k, int64(u.ID), 36)
	for _, v := range u.QV {
		k = append(k, '.')
		k = strconv.AppendInt(k, int64(m[v].ID), 36)
	}
	if p.inst == nil {
		p.inst = map[string]bool{}
	}
	if p.inst[string(k)] {
		return nil
	}
	p.inst[string(k)] = true
	t := Subst(u.A[0], m)
	if p.key[t] || t.Bound {
		return nil
	}
	return t
}

func (p *Prep) add(t *Term) {
	switch t.Op {
	case OTrue:
		return
	case OAnd:
		for _, a := range t.A {
			p.add(a)
		}
		return
	}
	if p.key[t] {
		return
	}
	if !t.Quant {
		p.key[t] = true
		p.ground = append(p.ground, t)
		return
	}
	// quantifier somewhere
	switch t.Op {
	case OForall:
		b := t.A[0]
		// forall over a conjunction
		if b.Op == OAnd {
			for _, c := range b.A {
				p.add(Forall(t.QV, c))
			}
			return
		}
		if b.Op == OForall {
			p.add(mk(OForall, BoolS, "", nil, append(append([]*Term(nil), t.QV...), b.QV...), b.A[0]))
			return
		}
		if b.Op == OOr { // pull inner foralls out
			for i, d := range b.A {
				if d.Op == OForall {
					rest := append(append([]*Term(nil), b.A[:i]...), b.A[i+1:]...)
					p.add(Forall(append(append([]*Term(nil), t.QV...), d.QV...), Or(append(rest, d.A[0])...)))
					return
				}
				if d.Op == OAnd && d.Quant {
					rest := append(append([]*Term(nil), b.A[:i]...), b.A[i+1:]...)
					for _, c := range d.A {
						p.add(Forall(t.QV, Or(append(append([]*Term(nil), rest...), c)...)))
					}
					return
				}
				if d.Op == ONot && d.A[0].Op == OExists {
					rest := append(append([]*Term(nil), b.A[:i]...), b.A[i+1:]...)
					e := d.A[0]
					p.add(Forall(append(append([]*Term(nil), t.QV...), e.QV...), Or(append(rest, Not(e.A[0]))...)))
					return
				}
			}
		}
		p.key[t] = true
		p.univ = append(p.univ, t)
		return
	case OExists:
		p.add(skolem(t.QV, t.A[0]))
		return
	case ONot:
		a := t.A[0]
		switch a.Op {
		case OForall:
			p.add(skolem(a.QV, Not(a.A[0])))
			return
		case OExists:
			p.add(Forall(a.QV, Not(a.A[0])))
			return
		case OOr:
			for _, d := range a.A {
				p.add(Not(d))
			}
			return
		case OAnd:
			var ds []*Term
			for _, d := range a.A {
				ds = append(ds, Not(d))
			}
			p.add(Or(ds...))
			return
		case OEq:
			if a.A[0].S == BoolS {
				p.add(Or(And(a.A[0], Not(a.A[1])), And(Not(a.A[0]), a.A[1])))
				return
			}
		case OIte:
			p.add(And(Or(Not(a.A[0]), Not(a.A[1])), Or(a.A[0], Not(a.A[2]))))
			return
		}
	case OIte:
		p.add(And(Or(Not(t.A[0]), t.A[1]), Or(t.A[0], t.A[2])))
		return
	case OEq:
		if t.A[0].S == BoolS {
			p.add(And(Or(Not(t.A[0]), t.A[1]), Or(t.A[0], Not(t.A[1]))))
			return
		}
	case OOr:
		for i, d := range t.A {
			rest := append(append([]*Term(nil), t.A[:i]...), t.A[i+1:]...)
			if !d.Quant {
				continue
			}
			switch d.Op {
			case OForall:
				p.add(Forall(d.QV, Or(append(rest, d.A[0])...)))
				return
			case OExists:
				p.add(Or(append(rest, skolem(d.QV, d.A[0]))...))
				return
			case OAnd:
				for _, c := range d.A {
					p.add(Or(append(append([]*Term(nil), rest...), c)...))
				}
				return
			case ONot:
				a := d.A[0]
				switch a.Op {
				case OForall:
					p.add(Or(append(rest, skolem(a.QV, Not(a.A[0])))...))
					return
				case OExists:
					p.add(Or(append(rest, Forall(a.QV, Not(a.A[0])))...))
					return
				case OOr:
					for _, c := range a.A {
						p.add(Or(append(append([]*Term(nil), rest...), Not(c))...))
					}
					return
				case OAnd:
					var ds []*Term
					for _, c := range a.A {
						ds = append(ds, Not(c))
					}
					p.add(Or(append(rest, ds...)...))
					return
				}
			case OIte:
				p.add(Or(append(append([]*Term(nil), rest...), Or(Not(d.A[0]), d.A[1]))...))
				p.add(Or(append(append([]*Term(nil), rest...), Or(d.A[0], d.A[2]))...))
				return
			case OEq:
				if d.A[0].S == BoolS {
					p.add(Or(append(append([]*Term(nil), rest...), Not(d.A[0]), d.A[1])...))
					p.add(Or(append(append([]*Term(nil), rest...), d.A[0], Not(d.A[1]))...))
					return
				}
			}
		}
	}
	p.key[t] = true
	p.univ = append(p.univ, t)
}

func skolem(qv []*Term, b *Term) *Term {
	m := map[*Term]*Term{}
	for _, q := range qv {
		m[q] = Fresh("sk_"+strings.TrimRight(q.Name, "0123456789?"), q.S)
	}
	return Subst(b, m)
}

// ground terms of interest
type gterms struct {
	sel  map[*Sort][]*Term // array sort -> index terms
	apps map[string][]*Term
	all  map[*Term]bool
	wr   []*Term // integer terms
}

func (p *Prep) collect() *gterms {
	g := &gterms{sel: map[*Sort][]*Term{}, apps: map[string][]*Term{}, all: map[*Term]bool{}}
	seenIdx := map[string]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if g.all[t] {
			return
		}
		g.all[t] = true
		if t.Op == OForall || t.Op == OExists {
			return
		}
		switch t.Op {
		case OSelect, OStore:
			if !t.A[1].Bound {
				k := t.A[0].S.String() + fmt.Sprint(t.A[1].ID)
				if !seenIdx[k] {
					seenIdx[k] = true
					g.sel[t.A[0].S] = append(g.sel[t.A[0].S], t.A[1])
				}
			}
		case OApp:
			if len(t.A) > 0 && !t.Bound {
				g.apps[t.Name] = append(g.apps[t.Name], t)
			}
		}
		for _, a := range t.A {
			w(a)
		}
	}
	for _, t := range p.ground {
		w(t)
	}
	return g
}

// patterns of a universal formula: for each bound variable the select-index
// and application-argument positions where it occurs linearly.
type pat struct {
	v     *Term
	sort  *Sort  // select pattern: array sort
	coef  int64  // +1 / -1
	rest  *Term  // index = coef*v + rest
	app   string // application pattern
	pos   int
	whole *Term // application containing several variables as direct arguments
}

func patterns(u *Term) []pat {
	qs := map[*Term]bool{}
	for _, q := range u.QV {
		qs[q] = true
	}
	var ps []pat
	seen := map[*Term]bool{}
	dup := map[string]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] || !t.Bound {
			return
		}
		seen[t] = true
		lin1 := func(i *Term) (v *Term, c int64, rest *Term, ok bool) {
			l := linOf(i)
			for m, k := range l.c {
				if qs[m] {
					if v != nil {
						return nil, 0, nil, false
					}
					if k.Cmp(big.NewRat(1, 1)) == 0 {
						c = 1
					} else if k.Cmp(big.NewRat(-1, 1)) == 0 {
						c = -1
					} else {
						return nil, 0, nil, false
					}
					v = m
				} else if m.Bound {
					return nil, 0, nil, false
				}
			}
			if v == nil {
				return nil, 0, nil, false
			}
			r := Sub(i, Scale(big.NewRat(c, 1), v))
			return v, c, r, true
		}
		switch t.Op {
		case OSelect, OStore:
			if v, c, r, ok := lin1(t.A[1]); ok {
				k := fmt.Sprint(v.ID, t.A[0].S, c, r.ID)
				if !dup[k] {
					dup[k] = true
					ps = append(ps, pat{v: v, sort: t.A[0].S, coef: c, rest: r})
				}
			}
		case OApp:
			n := 0
			for _, a := range t.A {
				if qs[a] {
					n++
				}
			}
			if n == len(u.QV) && n > 0 {
				k := fmt.Sprint("w", t.ID)
				if !dup[k] {
					dup[k] = true
					ps = append(ps, pat{whole: t})
				}
			}
			for i, a := range t.A {
				if a.S != IntS && a.S != RealS {
					continue
				}
				if v, c, r, ok := lin1(a); ok {
					k := fmt.Sprint("a", v.ID, t.Name, i, c, r.ID)
					if !dup[k] {
						dup[k] = true
						ps = append(ps, pat{v: v, app: t.Name, pos: i, coef: c, rest: r})
					}
				}
			}
		}
		for _, a := range t.A {
			w(a)
		}
	}
	w(u.A[0])
	return ps
}

func (p *Prep) instantiate(g *gterms, limit int) []*Term {
	var out []*Term
	for _, u := range p.univ {
		if u.Op != OForall {
			continue
		}
		ps, ok := p.pats[u]
		if !ok {
			ps = patterns(u)
			if p.pats == nil {
				p.pats = map[*Term][]pat{}
			}
			p.pats[u] = ps
		}
		cand := map[*Term][]*Term{}
		has := map[*Term]map[*Term]bool{}
		addc := func(v, t *Term) {
			if t.S != v.S || t.Bound {
				return
			}
			if has[v] == nil {
				has[v] = map[*Term]bool{}
			}
			if !has[v][t] {
				has[v][t] = true
				cand[v] = append(cand[v], t)
			}
		}
		whole := false
		for _, q := range ps {
			if q.whole != nil {
				whole = true
				for _, a := range g.apps[q.whole.Name] {
					m := map[*Term]*Term{}
					ok := true
					for i, x := range q.whole.A {
						if x.Op == OBound {
							if o, ok2 := m[x]; ok2 && o != a.A[i] {
								ok = false
							}
							m[x] = a.A[i]
						} else if x.Bound {
							// recomputed below
						} else if x != a.A[i] && !x.S.isArr() {
							ok = false
						}
					}
					if ok && len(m) == len(u.QV) {
						if t := p.instance(u, m); t != nil {
							out = append(out, t)
						}
					}
				}
				continue
			}
			if q.app != "" {
				for _, a := range g.apps[q.app] {
					if q.pos < len(a.A) {
						d := Sub(a.A[q.pos], q.rest)
						if q.coef < 0 {
							d = Neg(d)
						}
						addc(q.v, d)
					}
				}
				continue
			}
			for _, i := range g.sel[q.sort] {
				d := Sub(i, q.rest)
				if q.coef < 0 {
					d = Neg(d)
				}
				addc(q.v, d)
			}
		}
		for _, v := range u.QV {
			for _, h := range p.x.hints {
				addc(v, h)
			}
		}
		if whole && len(u.QV) > 1 {
			continue
		}
		tot := 1
		for _, v := range u.QV {
			tot *= len(cand[v])
		}
		if tot == 0 {
			continue
		}
		if tot > limit {
			// keep the simplest candidates
			per := limit
			if len(u.QV) == 2 {
				per = 20
			} else if len(u.QV) > 2 {
				per = 7
			}
			for _, v := range u.QV {
				c := cand[v]
				sort.SliceStable(c, func(i, j int) bool { return tsize(c[i]) < tsize(c[j]) })
				if len(c) > per {
					c = c[:per]
				}
				cand[v] = c
			}
		}
		var rec func(i int, m map[*Term]*Term)
		rec = func(i int, m map[*Term]*Term) {
			if i == len(u.QV) {
				if t := p.instance(u, m); t != nil {
					out = append(out, t)
				}
				return
			}
			for _, c := range cand[u.QV[i]] {
				m[u.QV[i]] = c
				rec(i+1, m)
			}
			delete(m, u.QV[i])
		}
		rec(0, map[*Term]*Term{})
	}
	return out
}

func (s *Sort) isArr() bool { return s.K == KArr }

var sizeMemo = map[*Term]int{}

func tsize(t *Term) int {
	if n, ok := sizeMemo[t]; ok {
		return n
	}
	n := 1
	for _, a := range t.A {
		n += tsize(a)
		if n > 100000 {
			n = 100000
		}
	}
	sizeMemo[t] = n
	return n
}

var sharesCnt map[*Term]bool

// unfold adds definitional equations for ground applications of recursive
// specification functions, and axioms of the built-in functions.
func (p *Prep) unfold(g *gterms, done map[*Term]bool) []*Term {
	var out []*Term
	// end points of counts before unfolding; only these are split points
	if sharesCnt == nil || len(done) == 0 {
		sharesCnt = map[*Term]bool{}
		for _, f := range []string{"cnt", "cntgt"} {
			for _, b := range g.apps[f] {
				sharesCnt[b.A[1]] = true
				sharesCnt[b.A[2]] = true
			}
		}
	}
	var names []string
	for n := range g.apps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := p.x.recDefs[n]
		for _, a := range g.apps[n] {
			if done[a] {
				continue
			}
			done[a] = true
			if d != nil && d.body != nil && !p.x.opaque[n] {
				m := map[*Term]*Term{}
				for i, q := range d.params {
					m[q] = a.A[i]
				}
				out = append(out, Eq(a, Subst(d.body, m)))
			}
			switch n {
			case "sqrt":
				y := a.A[0]
				out = append(out, Or(Lt(y, Real(0)), And(Le(Real(0), a), Eq(mk(OMul, RealS, "", nil, nil, a, a), y))))
			case "math.Exp":
				out = append(out, Lt(Real(0), a), Or(Lt(a.A[0], Real(0)), Le(Add(Real(1), a.A[0]), a)))
			case "math.Pow":
				out = append(out, Or(Le(a.A[0], Real(0)), Lt(Real(0), a)))
			case "strlen":
				out = append(out, Le(Int(0), a))
			case "pow2":
				out = append(out, Le(Int(1), a))
			case "math.Sin", "math.Cos":
				out = append(out, Le(Real(-1), a), Le(a, Real(1)))
				s, c := App("math.Sin", RealS, a.A[0]), App("math.Cos", RealS, a.A[0])
				out = append(out, Eq(Add(Mul(s, s), Mul(c, c)), Real(1)))
			case "cnt", "cntgt":
				arr, lo, hi, v := a.A[0], a.A[1], a.A[2], a.A[3]
				out = append(out, Le(Int(0), a), Or(Lt(hi, lo), Le(a, Sub(hi, lo))), Or(Lt(lo, hi), Eq(a, Int(0))))
				h1 := Sub(hi, Int(1))
				last := cntOne(n, Select(arr, h1), v)
				out = append(out, Or(Le(hi, lo), Eq(a, Add(cntTerm(n, arr, lo, h1, v), last))))
				// splitting at the end points of other counts
				pts := map[*Term]bool{}
				var ps []*Term
				for _, b := range g.apps[n] {
					for _, q := range []*Term{b.A[1], b.A[2]} {
						if !pts[q] && q != lo && q != hi && !q.Bound && len(ps) < 6 && sharesCnt[q] {
							pts[q] = true
							ps = append(ps, q)
						}
					}
				}
				for _, q := range ps {
					out = append(out, Or(Lt(q, lo), Lt(hi, q), Eq(a, Add(cntTerm(n, arr, lo, q, v), cntTerm(n, arr, q, hi, v)))))
				}
			}
		}
	}
	return out
}

func prepare(x *Exec, o *Obl, goal *Term, rounds, limit int) *Prep {
	p := &Prep{key: map[*Term]bool{}, x: x}
	for _, h := range o.Hyps {
		p.add(h)
	}
	p.add(Not(goal))
	done := map[*Term]bool{}
	for r := 0; r < rounds; r++ {
		g := p.collect()
		n0 := len(p.ground)
		for _, t := range p.unfold(g, done) {
			p.add(t)
		}
		g = p.collect()
		for _, t := range p.instantiate(g, limit) {
			p.add(t)
		}
		if len(p.ground) == n0 || len(p.ground) > 6000 {
			break
		}
	}
	// final unfolding so that the last instances have their axioms
	g := p.collect()
	for _, t := range p.unfold(g, done) {
		if !t.Quant {
			p.add(t)
		}
	}
	return p
}

// ---------------------------------------------------------------- emission

func emit(ground, univ []*Term, opts string, post string) string {
	var sb strings.Builder
	sb.WriteString(opts)
	refs := map[*Term]int{}
	var order []*Term
	decl := map[*Term]bool{}
	apps := map[string]*Term{}
	hasStr := false
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if t.S == StrS || t.S.K == KArr && t.S.Elem == StrS {
			hasStr = true
		}
		if t.Op == OVar || t.Op == OApp && len(t.A) == 0 {
			decl[t] = true
		} else if t.Op == OApp {
			apps[t.Name+sig(t)] = t
		}
		for _, a := range t.A {
			walk(a)
		}
		order = append(order, t)
	}
	for _, t := range ground {
		walk(t)
	}
	for _, t := range univ {
		walk(t)
	}
	if hasStr {
		sb.WriteString("(declare-sort Str 0)\n")
	}
	var ds []*Term
	for t := range decl {
		ds = append(ds, t)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].ID < ds[j].ID })
	for _, t := range ds {
		fmt.Fprintf(&sb, "(declare-fun |%s| () %s)\n", t.Name, t.S)
	}
	var as []string
	for k := range apps {
		as = append(as, k)
	}
	sort.Strings(as)
	for _, k := range as {
		t := apps[k]
		fmt.Fprintf(&sb, "(declare-fun |%s| (", t.Name)
		for _, a := range t.A {
			sb.WriteString(a.S.String() + " ")
		}
		fmt.Fprintf(&sb, ") %s)\n", t.S)
	}
	named := map[*Term]string{}
	var pr func(t *Term) string
	pr = func(t *Term) string {
		if n, ok := named[t]; ok {
			return n
		}
		return t.head(pr)
	}
	for _, t := range order {
		if refs[t] > 1 && len(t.A) > 0 && !t.Bound && t.Op != OForall && t.Op != OExists {
			n := fmt.Sprintf("t%d", t.ID)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.S, t.head(pr))
			named[t] = n
		}
	}
	// distinct string constants
	if hasStr {
		var cs []string
		for _, t := range ds {
			if t.S == StrS && strings.HasPrefix(t.Name, "str") && !strings.Contains(t.Name, "!") {
				cs = append(cs, "|"+t.Name+"|")
			}
		}
		if len(cs) > 1 {
			sb.WriteString("(assert (distinct " + strings.Join(cs, " ") + "))\n")
		}
	}
	for _, t := range ground {
		sb.WriteString("(assert " + pr(t) + ")\n")
	}
	for _, t := range univ {
		sb.WriteString("(assert " + pr(t) + ")\n")
	}
	sb.WriteString(post)
	return sb.String()
}
func sig(t *Term) string {
	s := ""
	for _, a := range t.A {
		s += "|" + a.S.String()
	}
	return s
}

// ---------------------------------------------------------------- solving

var solverSem = make(chan struct{}, maxInt(2, runtime.NumCPU()))

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

type solveRes struct {
	ans     string // unsat, sat, unknown
	backend string
	out     string
	dur     float64
}

func runSolver(ctx context.Context, bin string, args []string, text string, tmo time.Duration) (string, string) {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "unknown", ""
	}
	defer func() { <-solverSem }()
	c2, cancel := context.WithTimeout(ctx, tmo+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c2, bin, args...)
	cmd.Stdin = strings.NewReader(text)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	for _, ln := range strings.Split(s, "\n") {
		switch strings.TrimSpace(ln) {
		case "unsat", "sat", "unknown":
			return strings.TrimSpace(ln), s
		}
	}
	return "unknown", s
}

type backend struct {
	name string
	bin  string
	args func(tmo time.Duration) []string
	opts string
	chk  string
}

func ms(t time.Duration) string { return fmt.Sprint(int(t / time.Millisecond)) }

var beZ3New = backend{"z3-5.3", "z3-new", func(t time.Duration) []string {
	return []string{"-in", "-T:" + fmt.Sprint(int(t/time.Second)+1), "-memory:3000"}
}, "", "(check-sat)\n"}
var beZ3Lin = backend{"z3-5.3-linear", "z3-new", beZ3New.args, "", "(check-sat)\n"}
var beZ3NLS = backend{"z3-5.3-nlsat", "z3-new", beZ3New.args, "", "(check-sat-using (then simplify propagate-values solve-eqs purify-arith simplify elim-term-ite solve-eqs tseitin-cnf qfnra-nlsat))\n"}
var beZ3Old = backend{"z3-4.8", "z3", beZ3New.args, "", "(check-sat)\n"}
var beZ3Seed = backend{"z3-5.3-arith2", "z3-new", beZ3New.args, "(set-option :smt.arith.solver 2)\n", "(check-sat)\n"}
var beCVC5 = backend{"cvc5-1.1", "cvc5", func(t time.Duration) []string {
	return []string{"--lang=smt2", "--tlimit=" + ms(t), "--nl-ext-tplanes"}
}, "(set-logic ALL)\n", "(check-sat)\n"}

type prover struct {
	conds    map[*Term]map[*Term]bool
	x        *Exec
	quickT   time.Duration
	fullT    time.Duration
	rounds   int
	limit    int
	stats    map[string]int
	smtTime  float64
	queries  int
	mu       *sync.Mutex
	cache    map[string]solveRes
	dumpDir  string
	seq      int
	noModel  bool
	deadline time.Time
	lite     bool // first stage only
	final    bool // after case splits
}

// split decomposes a goal into independent subgoals.
func split(g *Term) []*Term {
	switch g.Op {
	case OAnd:
		var out []*Term
		for _, a := range g.A {
			out = append(out, split(a)...)
		}
		return out
	case OOr:
		// a => (b and c)
		for i, d := range g.A {
			if d.Op == OAnd && len(d.A) <= 8 {
				rest := append(append([]*Term(nil), g.A[:i]...), g.A[i+1:]...)
				var out []*Term
				for _, c := range d.A {
					out = append(out, split(Or(append(append([]*Term(nil), rest...), c)...))...)
				}
				return out
			}
		}
	case OForall:
		if b := g.A[0]; b.Op == OOr {
			for i, d := range b.A {
				if d.Op == OAnd {
					rest := append(append([]*Term(nil), b.A[:i]...), b.A[i+1:]...)
					var out []*Term
					for _, c := range d.A {
						out = append(out, split(Forall(g.QV, Or(append(append([]*Term(nil), rest...), c)...)))...)
					}
					return out
				}
			}
		} else if b.Op == OAnd {
			var out []*Term
			for _, c := range b.A {
				out = append(out, split(Forall(g.QV, c))...)
			}
			return out
		}
	}
	return []*Term{g}
}

type job struct {
	o     *Obl
	texts []queryText
	prep  *Prep
}
type queryText struct {
	be   backend
	text string
	full bool // includes the quantified hypotheses
}

// prepare the query texts of one goal (single threaded: term construction).
func (pv *prover) texts(o *Obl, goal *Term) (stage1, stage2 []queryText, complete bool, p *Prep) {
	for _, h := range o.Hyps {
		if h == goal || h == False {
			return nil, nil, true, nil
		}
	}
	if polyZero(goal) {
		return nil, nil, true, nil
	}
	hyps, goal := pv.decideItes(o.Hyps, goal)
	o2 := *o
	o = &o2
	o.Hyps = hyps
	p = prepare(pv.x, o, goal, pv.rounds, pv.limit)
	for _, t := range p.ground {
		if t == False {
			return nil, nil, true, nil
		}
	}
	complete = len(p.univ) == 0 && !hasApps(p.ground)
	qf := emit(p.ground, nil, "", "(check-sat)\n")
	stage1 = append(stage1, queryText{beZ3New, qf, false})
	stage2 = append(stage2, queryText{beCVC5, beCVC5.opts + qf, false})
	abs, pure := abstractReal(p.ground)
	if pure != nil {
		_ = abs
		t := emit(pure, nil, "", beZ3NLS.chk)
		stage2 = append(stage2, queryText{beZ3NLS, t, false})
	}
	if lin := abstractNonlinear(p.ground); lin != nil {
		stage2 = append(stage2, queryText{beZ3Lin, emit(lin, nil, "", "(check-sat)\n"), false})
	}
	if len(p.univ) > 0 {
		// original problem with quantifiers, few instances
		q := &Prep{key: map[*Term]bool{}, x: pv.x}
		for _, h := range o.Hyps {
			q.add(h)
		}
		q.add(Not(goal))
		full := emit(p.ground, p.univ, "", "(check-sat)\n")
		small := emit(q.ground, q.univ, "", "(check-sat)\n")
		stage2 = append(stage2, queryText{beZ3New, full, true})
		stage2 = append(stage2, queryText{beCVC5, beCVC5.opts + small, true})
	} else {
		stage2 = append(stage2, queryText{beZ3Seed, beZ3Seed.opts + qf, false})
	}
	stage2 = append(stage2, queryText{beZ3Old, qf, false})
	return
}

func hasApps(ts []*Term) bool { return false }

// abstractReal replaces array reads, integer conversions and uninterpreted
// applications by fresh variables; the result is unsatisfiable only if the
// original is. It returns nil when the abstraction is not a pure real problem.
func abstractReal(ts []*Term) (map[*Term]*Term, []*Term) {
	m := map[*Term]*Term{}
	var out []*Term
	var f func(t *Term) *Term
	memo := map[*Term]*Term{}
	okAll := true
	f = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.Op {
		case OSelect, OApp, OToReal:
			if t.S == RealS {
				r = Var(fmt.Sprintf("abs_%d", t.ID), RealS)
				m[t] = r
			}
		}
		if r == nil {
			if t.S != RealS && t.S != BoolS || t.Op == OForall || t.Op == OExists {
				okAll = false
				return t
			}
			if t.S == BoolS && len(t.A) > 0 && t.Op != OAnd && t.Op != OOr && t.Op != ONot && t.Op != OIte && t.A[0].S != RealS && !(t.Op == OEq && t.A[0].S == BoolS) {
				// an integer / array atom: an unconstrained boolean
				r = Var(fmt.Sprintf("absb_%d", t.ID), BoolS)
			} else if len(t.A) == 0 {
				r = t
			} else {
				na := make([]*Term, len(t.A))
				for i, a := range t.A {
					na[i] = f(a)
					if !okAll {
						return t
					}
				}
				r = rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	real := false
	for _, t := range ts {
		okAll = true
		r := f(t)
		if okAll {
			out = append(out, r)
			real = true
		}
	}
	if !real {
		return nil, nil
	}
	return m, out
}

// abstractNonlinear replaces products, quotients and remainders of unknowns by
// applications of uninterpreted functions (products commute); the result is
// unsatisfiable only if the original is. It returns nil when there are none.
func abstractNonlinear(ts []*Term) []*Term {
	memo := map[*Term]*Term{}
	any := false
	var facts []*Term
	app := func(name string, s *Sort, a, b *Term) *Term {
		any = true
		if s == IntS {
			name += ".int"
		}
		r := App(name, s, a, b)
		if strings.HasPrefix(name, "nl.mul") && a != b {
			facts = append(facts, Eq(r, App(name, s, b, a)))
		}
		if strings.HasPrefix(name, "nl.mul") && s == RealS {
			zero := Real(0)
			facts = append(facts, Or(Not(Eq(a, zero)), Eq(r, zero)), Or(Not(Eq(b, zero)), Eq(r, zero)))
		}
		return r
	}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch {
		case len(t.A) == 0 || t.Bound || t.Op == OForall || t.Op == OExists:
		case t.Op == OMul:
			var k *Term
			fs := t.A
			if fs[0].IsNum() {
				k, fs = fs[0], fs[1:]
			}
			for i, c := range fs {
				if c.Op == OIte && c.A[1].IsNum() && c.A[2].IsNum() {
					rest := Real(1)
					if t.S == IntS {
						rest = Int(1)
					}
					if k != nil {
						rest = k
					}
					for j, x := range fs {
						if j != i {
							rest = Mul(rest, x)
						}
					}
					r = f(Ite(c.A[0], Mul(c.A[1], rest), Mul(c.A[2], rest)))
					memo[t] = r
					return r
				}
			}
			if len(fs) > 1 {
				r = f(fs[0])
				for _, x := range fs[1:] {
					r = app("nl.mul", t.S, r, f(x))
				}
			} else {
				r = f(fs[0])
			}
			if k != nil {
				r = Mul(k, r)
			}
		case (t.Op == ODiv || t.Op == OIDiv || t.Op == OIMod) && !t.A[1].IsNum():
			r = app([]string{"nl.div", "nl.idiv", "nl.imod"}[map[Op]int{ODiv: 0, OIDiv: 1, OIMod: 2}[t.Op]], t.S, f(t.A[0]), f(t.A[1]))
		default:
			na := make([]*Term, len(t.A))
			for i, a := range t.A {
				na[i] = f(a)
			}
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	var out []*Term
	for _, t := range ts {
		out = append(out, f(t))
	}
	if !any {
		return nil
	}
	return append(out, facts...)
}

// solveAll discharges obligations in parallel.
func (pv *prover) solveAll(obls []*Obl) {
	type sub struct {
		o    *Obl
		goal *Term
		s1   []queryText
		s2   []queryText
		comp bool
		prep *Prep
		wit  []*Term
		orig []queryText // before the predicate was unfolded
		res  solveRes
	}
	var subs []*sub
	var wg sync.WaitGroup
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		for _, g := range split(pv.x.unfoldGoal(o.Goal)) {
			s := &sub{o: o, goal: g}
			if pv.congruent(o, g) {
				s.res = solveRes{"unsat", "congruence (z3-5.3)", "", 0}
				subs = append(subs, s)
				continue
			}
			if g != o.Goal && len(witnessVars(g)) > 0 {
				s.orig, _, _, _ = pv.texts(o, o.Goal)
				if s.orig == nil {
					s.res = solveRes{"unsat", "simplifier", "", 0}
					subs = append(subs, s)
					continue
				}
			}
			s.s1, s.s2, s.comp, s.prep = pv.texts(o, g)
			var wits [][]*sub
			alt := func(gs []*Term) {
				var ws []*sub
				for _, wg := range gs {
					t := &sub{o: o, goal: wg}
					t.s1, t.s2, t.comp, t.prep = pv.texts(o, wg)
					ws = append(ws, t)
				}
				wits = append(wits, ws)
			}
			if s.s1 != nil {
				if r, ok := ratGoal(bySubst(o, g)); ok {
					alt(split(r))
				}
				s.wit = witnesses(o, s.prep, g)
			}
			subs = append(subs, s)
			if s.s1 == nil {
				s.res = solveRes{"unsat", "simplifier", "", 0}
				continue
			}
			if s.wit != nil {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				t0 := time.Now()
			next:
				for _, ws := range wits {
					for _, t := range ws {
						if t.s1 != nil && pv.race(t.s1, t.s2, t.comp).ans != "unsat" {
							continue next
						}
					}
					s.res = solveRes{"unsat", "witness (z3-5.3)", "", time.Since(t0).Seconds()}
					return
				}
				s.res = pv.race(s.s1, s.s2, s.comp)
			}()
		}
	}
	wg.Wait()
	for _, s := range subs {
		if s.wit == nil {
			continue
		}
		t0 := time.Now()
		if s.orig != nil {
			// the predicate as such may follow from the hypotheses
			if a, _ := runSolver(context.Background(), beZ3New.bin, beZ3New.args(pv.quickT), s.orig[0].text, pv.quickT); a == "unsat" {
				s.res = solveRes{"unsat", beZ3New.name, "", time.Since(t0).Seconds()}
				continue
			}
		}
		for _, w := range s.wit {
			if time.Since(t0) > 30*time.Second {
				break
			}
			var gs []*Term
			for _, wg := range split(w) {
				if r, ok := ratGoal(bySubst(s.o, wg)); ok {
					wg = r
				}
				gs = append(gs, split(wg)...)
			}
			var ts []*sub
			for _, wg := range gs {
				t := &sub{o: s.o, goal: wg}
				t.s1, t.s2, t.comp, t.prep = pv.texts(s.o, wg)
				if t.s1 != nil {
					ts = append(ts, t)
				}
			}
			good := true
			for _, t := range ts {
				t := t
				wg.Add(1)
				go func() {
					defer wg.Done()
					t.res = pv.race(t.s1, t.s2, t.comp)
				}()
			}
			wg.Wait()
			for _, t := range ts {
				good = good && t.res.ans == "unsat"
			}
			if good {
				s.res = solveRes{"unsat", "witness (z3-5.3)", "", time.Since(t0).Seconds()}
				break
			}
		}
		if s.res.ans != "unsat" {
			s.res = pv.race(s.s1, s.s2, s.comp)
		}
	}
	if pv.x.cases {
		for _, s := range subs {
			if s.res.ans != "unsat" && s.prep != nil {
				t0 := time.Now()
				if pv.caseSplit(s.prep.ground, s.prep.splitPairs()) {
					s.res = solveRes{"unsat", "case split (z3-5.3)", "", time.Since(t0).Seconds()}
				} else if !pv.lite {
					pv.final = true
					s.res = pv.race(s.s1, s.s2, s.comp)
					pv.final = false
				}
			}
		}
	}
	byO := map[*Obl][]*sub{}
	for _, s := range subs {
		byO[s.o] = append(byO[s.o], s)
	}
	for _, o := range obls {
		ss := byO[o]
		if o.Status != "" {
			continue
		}
		o.Status = "proved"
		for _, s := range ss {
			o.Time += s.res.dur
			if s.res.ans == "unsat" {
				if o.Backend == "" || s.res.backend != "simplifier" {
					o.Backend = s.res.backend
				}
				continue
			}
			if s.res.ans == "sat" {
				o.Status = "failed"
			} else if o.Status == "proved" {
				o.Status = "unknown"
			}
			o.Why = "subgoal " + s.goal.String() + ": " + s.res.ans + " (" + s.res.backend + ")"
			if s.prep != nil && s.res.ans == "sat" && !pv.noModel && o.Model == nil && !o.Auto {
				o.Model = pv.model(s.prep, o)
			}
			if pv.dumpDir != "" && len(s.s1) > 0 {
				pv.seq++
				os.WriteFile(fmt.Sprintf("%s/q%03d.smt2", pv.dumpDir, pv.seq), []byte("; "+o.Name+" @ "+o.Pos+"\n; "+s.goal.String()+"\n"+s.s1[0].text), 0o644)
				for _, q := range s.s2 {
					if q.be.name == beZ3Lin.name {
						os.WriteFile(fmt.Sprintf("%s/q%03d_lin.smt2", pv.dumpDir, pv.seq), []byte(q.text), 0o644)
					}
				}
				os.WriteFile(fmt.Sprintf("%s/q%03d_full.smt2", pv.dumpDir, pv.seq), []byte(s.s2[len(s.s2)-2].text), 0o644)
			}
		}
	}
}

// unfoldGoal replaces a goal that is an application of a specification
// predicate by its definition.
func (x *Exec) unfoldGoal(g *Term) *Term {
	switch g.Op {
	case OAnd, OOr:
		as := make([]*Term, len(g.A))
		for i, a := range g.A {
			as[i] = x.unfoldGoal(a)
		}
		if g.Op == OAnd {
			return And(as...)
		}
		return Or(as...)
	case OApp:
		if d := x.recDefs[g.Name]; g.S == BoolS && d != nil && d.body != nil && !x.opaque[g.Name] && !occursApp(g.Name, d.body) {
			m := map[*Term]*Term{}
			for i, q := range d.params {
				m[q] = g.A[i]
			}
			return Subst(d.body, m)
		}
	}
	return g
}

func occursApp(n string, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == OApp && t.Name == n {
			return true
		}
		for _, a := range t.A {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// witnessVars returns the variables of the existential part of a goal.
func witnessVars(g *Term) []*Term {
	if g.Op == OExists {
		return g.QV
	}
	if g.Op == OOr {
		for _, d := range g.A {
			if d.Op == OExists {
				return d.QV
			}
		}
	}
	return nil
}

// witnesses lists instances of an existential goal: every quantified variable
// is replaced by a term that occurs in the hypotheses as the same argument of
// the same function application.
func witnesses(o *Obl, p *Prep, g *Term) []*Term {
	var rest []*Term
	e := g
	if g.Op == OOr {
		n := 0
		for _, d := range g.A {
			if d.Op == OExists {
				e = d
				n++
			} else {
				rest = append(rest, d)
			}
		}
		if n != 1 {
			return nil
		}
	}
	if e.Op != OExists {
		return nil
	}
	var qs []*Term
	body := e
	var flat func(t *Term) *Term
	flat = func(t *Term) *Term {
		switch t.Op {
		case OExists:
			qs = append(qs, t.QV...)
			return flat(t.A[0])
		case OAnd:
			var as []*Term
			for _, a := range t.A {
				as = append(as, flat(a))
			}
			return And(as...)
		}
		return t
	}
	body = flat(body)
	if len(qs) > 3 {
		return nil
	}
	apps := p.collect().apps
	cand := make([][]*Term, len(qs))
	for i, q := range qs {
		dup := map[*Term]bool{}
		seen := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if seen[t] || !t.Bound {
				return
			}
			seen[t] = true
			if t.Op == OApp {
				for j, a := range t.A {
					if a != q {
						continue
					}
				match:
					for _, b := range apps[t.Name] {
						for k := range b.A {
							if k != j && (k >= len(t.A) || b.A[k] != t.A[k]) {
								continue match
							}
						}
						if v := b.A[j]; !dup[v] && !v.Bound {
							dup[v] = true
							cand[i] = append(cand[i], v)
						}
					}
				}
			}
			for _, a := range t.A {
				w(a)
			}
		}
		w(body)
		if len(cand[i]) == 0 {
			return nil
		}
		sort.SliceStable(cand[i], func(a, b int) bool { return tsize(cand[i][a]) < tsize(cand[i][b]) })
		if len(cand[i]) > 4 {
			cand[i] = cand[i][:4]
		}
	}
	var out []*Term
	m := map[*Term]*Term{}
	var rec func(i int)
	rec = func(i int) {
		if i == len(qs) {
			out = append(out, Or(append(append([]*Term(nil), rest...), Subst(body, m))...))
			return
		}
		for _, c := range cand[i] {
			m[qs[i]] = c
			rec(i + 1)
		}
	}
	rec(0)
	if len(out) > 16 {
		out = out[:16]
	}
	return out
}

// cacheKey covers every query text: the ground part alone does not determine
// the answer of the quantified queries.
func cacheKey(s1, s2 []queryText) string {
	h := sha256.New()
	for _, q := range s1 {
		h.Write([]byte(q.be.name + "\x00" + q.text + "\x00"))
	}
	for _, q := range s2 {
		h.Write([]byte(q.be.name + "\x00" + q.text + "\x00"))
	}
	return string(h.Sum(nil))
}

func (pv *prover) race(s1, s2 []queryText, complete bool) solveRes {
	t0 := time.Now()
	key := cacheKey(s1, s2)
	pv.mu.Lock()
	if r, ok := pv.cache[key]; ok {
		pv.mu.Unlock()
		return r
	}
	pv.mu.Unlock()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	fin := func(r solveRes) solveRes {
		r.dur = time.Since(t0).Seconds()
		pv.mu.Lock()
		pv.queries++
		pv.smtTime += r.dur
		pv.cache[key] = r
		pv.mu.Unlock()
		return r
	}
	fullT := pv.fullT
	if !pv.deadline.IsZero() && time.Now().After(pv.deadline) {
		fullT = 1 * time.Second
	}
	q1 := pv.quickT
	if pv.x.cases && !pv.final && q1 > 1500*time.Millisecond {
		q1 = 1500 * time.Millisecond
	}
	a, out := runSolver(ctx, s1[0].be.bin, s1[0].be.args(q1), s1[0].text, q1)
	if a == "unsat" || a == "sat" && complete {
		return fin(solveRes{a, s1[0].be.name, out, 0})
	}
	if strings.Contains(out, "error") && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver error:", out[:minInt(300, len(out))])
	}
	sat1 := a == "sat"
	if pv.lite || pv.x.cases && len(s2) > 0 && !pv.final {
		if pv.x.cases && !pv.lite {
			r := solveRes{"unknown", s1[0].be.name, "", 0}
			if sat1 {
				r.ans = "sat"
			}
			return r
		}
		if sat1 {
			return fin(solveRes{"sat", s1[0].be.name, "", 0})
		}
		return solveRes{"unknown", s1[0].be.name, "", 0}
	}
	if sat1 && fullT > 4*time.Second {
		// instances are satisfiable: only the quantified queries can still help
		var n []queryText
		for _, q := range s2 {
			if q.full {
				n = append(n, q)
			}
		}
		s2 = n
		fullT = maxDur(fullT/2, 4*time.Second)
	}
	ch := make(chan solveRes, len(s2))
	for _, q := range s2 {
		q := q
		go func() {
			a, out := runSolver(ctx, q.be.bin, q.be.args(fullT), q.text, fullT)
			if a == "sat" && (q.be.name == beZ3NLS.name || q.be.name == beZ3Lin.name) {
				a = "unknown"
			}
			if a == "sat" && !q.full && !complete {
				a = "satqf"
			}
			if strings.Contains(out, "error") && os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver error:", q.be.name, out[:minInt(300, len(out))])
			}
			ch <- solveRes{a, q.be.name, out, 0}
		}()
	}
	for range s2 {
		r := <-ch
		if r.ans == "unsat" {
			return fin(r)
		}
		if r.ans == "sat" {
			return fin(r)
		}
		if r.ans == "satqf" {
			sat1 = true
		}
	}
	if sat1 {
		return fin(solveRes{"sat", "z3-5.3 (ground instances)", "", 0})
	}
	return fin(solveRes{"unknown", "portfolio", "", 0})
}
func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func maxDur(a, b time.Duration) time.Duration {
	if a > b {
		return a
	}
	return b
}

// model extracts values of the parameters from a satisfiable query.
func (pv *prover) model(p *Prep, o *Obl) map[string]string {
	if len(o.params) == 0 {
		return nil
	}
	var ts []*Term
	var names []string
	addT := func(n string, t *Term) {
		ts = append(ts, t)
		names = append(names, n)
	}
	for _, pr := range o.params {
		paramLeaves(pr.Name, pr.V, pr.St, 9, map[*Obj]bool{}, addT)
	}
	if len(ts) > 4000 {
		ts, names = ts[:4000], names[:4000]
	}
	// keep lengths small
	var soft []*Term
	for i, n := range names {
		if strings.HasSuffix(n, "#len") {
			soft = append(soft, Le(ts[i], Int(8)))
		}
	}
	for _, extra := range [][]*Term{soft, nil} {
		g := append(append([]*Term(nil), p.ground...), extra...)
		// mention every requested term so that it is declared
		var mention []*Term
		for _, t := range ts {
			mention = append(mention, mk(OEq, BoolS, "", nil, nil, t, t))
		}
		g = append(g, mention...)
		var sb strings.Builder
		sb.WriteString("(check-sat)\n(get-value (")
		for _, t := range ts {
			sb.WriteString(t.head(func(t *Term) string { return t.strFull() }) + " ")
		}
		sb.WriteString("))\n")
		text := emit(g, nil, "(set-option :produce-models true)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n", sb.String())
		a, out := runSolver(context.Background(), "z3-new", beZ3New.args(6*time.Second), text, 6*time.Second)
		if a != "sat" {
			continue
		}
		vals := parseValues(out)
		if len(vals) != len(ts) {
			continue
		}
		m := map[string]string{}
		for i := range ts {
			m[names[i]] = vals[i]
		}
		return m
	}
	return nil
}

func (t *Term) strFull() string { return t.head(func(a *Term) string { return a.strFull() }) }

// parseValues parses the ((term value) ...) answer into value strings.
func parseValues(out string) []string {
	i := strings.Index(out, "((")
	if i < 0 {
		return nil
	}
	toks := tokenize(out[i:])
	pos := 0
	var parse func() interface{}
	parse = func() interface{} {
		if pos >= len(toks) {
			return nil
		}
		t := toks[pos]
		pos++
		if t == "(" {
			var l []interface{}
			for pos < len(toks) && toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		return t
	}
	top, ok := parse().([]interface{})
	if !ok {
		return nil
	}
	var res []string
	for _, e := range top {
		p, ok := e.([]interface{})
		if !ok || len(p) != 2 {
			return nil
		}
		res = append(res, sval(p[1]))
	}
	return res
}
func sval(v interface{}) string {
	switch v := v.(type) {
	case string:
		return strings.TrimSuffix(v, "?")
	case []interface{}:
		if len(v) == 2 && v[0] == "-" {
			return "-" + sval(v[1])
		}
		if len(v) == 3 && v[0] == "/" {
			a, ok1 := new(big.Rat).SetString(sval(v[1]))
			b, ok2 := new(big.Rat).SetString(sval(v[2]))
			if ok1 && ok2 && b.Sign() != 0 {
				return new(big.Rat).Quo(a, b).FloatString(20)
			}
		}
		if len(v) == 3 && v[0] == "_" {
			if s, ok := v[1].(string); ok && strings.HasPrefix(s, "bv") {
				return s[2:]
			}
		}
	}
	return "?"
}
func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			tok := s[i:j]
			if strings.HasPrefix(tok, "#x") || strings.HasPrefix(tok, "#b") {
				b := 16
				if tok[1] == 'b' {
					b = 2
				}
				if n, ok := new(big.Int).SetString(tok[2:], b); ok {
					tok = n.String()
				}
			}
			out = append(out, tok)
			i = j
		}
	}
	return out
}

func paramLeaves(name string, v Value, st *State, n int, seen map[*Obj]bool, add func(string, *Term)) {
	switch p := v.(type) {
	case *Term:
		add(name, p)
	case *StructV:
		for i, f := range p.F {
			paramLeaves(name+"."+fieldName(p.T, i), f, st, n, seen, add)
		}
	case *ArrV:
		for i, f := range p.E {
			paramLeaves(fmt.Sprintf("%s[%d]", name, i), f, st, n, seen, add)
		}
	case *SymArr:
		for i := 0; i < n; i++ {
			paramLeaves(fmt.Sprintf("%s[%d]", name, i), selSym(p.Tree, Int(int64(i))), st, n, seen, add)
		}
	case *SliceV:
		if p.Obj == nil {
			return
		}
		add(name+"#len", p.Len)
		paramLeaves(name, st.heap[p.Obj], st, n, seen, add)
	case *PtrV:
		if p.Obj == nil || seen[p.Obj] {
			return
		}
		seen[p.Obj] = true
		paramLeaves(name, loadPath(st.heap[p.Obj], p.Path), st, n, seen, add)
	}
}

// ---------------------------------------------------------------- polynomial identities

type poly map[string]*big.Rat

// polyZero decides equalities between polynomials by expansion.
func polyZero(g *Term) bool {
	if g.Op == OForall {
		return polyZero(g.A[0])
	}
	if g.Op == OOr {
		for _, d := range g.A {
			if d.Op == OEq && polyZero(d) {
				return true
			}
		}
		return false
	}
	if g.Op != OEq || g.A[0].S != RealS && g.A[0].S != IntS {
		return false
	}
	d := Sub(g.A[0], g.A[1])
	if d.IsNum() {
		return d.V.Sign() == 0
	}
	p, ok := expand(d, 4000)
	return ok && len(p) == 0
}

func expand(t *Term, lim int) (poly, bool) {
	switch t.Op {
	case ONum:
		if t.V.Sign() == 0 {
			return poly{}, true
		}
		return poly{"": t.V}, true
	case OAdd:
		r := poly{}
		for _, a := range t.A {
			p, ok := expand(a, lim)
			if !ok {
				return nil, false
			}
			for k, v := range p {
				if o, ok := r[k]; ok {
					n := new(big.Rat).Add(o, v)
					if n.Sign() == 0 {
						delete(r, k)
					} else {
						r[k] = n
					}
				} else {
					r[k] = v
				}
			}
			if len(r) > lim {
				return nil, false
			}
		}
		return r, true
	case OMul:
		r := poly{"": big.NewRat(1, 1)}
		for _, a := range t.A {
			p, ok := expand(a, lim)
			if !ok {
				return nil, false
			}
			n := poly{}
			if len(p)*len(r) > lim*4 {
				return nil, false
			}
			for k1, v1 := range r {
				for k2, v2 := range p {
					k := mulKey(k1, k2)
					v := new(big.Rat).Mul(v1, v2)
					if o, ok := n[k]; ok {
						v = new(big.Rat).Add(o, v)
						if v.Sign() == 0 {
							delete(n, k)
							continue
						}
					}
					n[k] = v
				}
			}
			r = n
			if len(r) > lim {
				return nil, false
			}
		}
		return r, true
	case ODiv:
		p, ok := expand(t.A[0], lim)
		if !ok {
			return nil, false
		}
		r := poly{}
		inv := fmt.Sprintf("i%d", t.A[1].ID)
		for k, v := range p {
			r[mulKey(k, inv)] = v
		}
		return r, true
	}
	return poly{fmt.Sprintf("v%d", t.ID): big.NewRat(1, 1)}, true
}
func mulKey(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	fs := append(strings.Split(a, "*"), strings.Split(b, "*")...)
	sort.Strings(fs)
	return strings.Join(fs, "*")
}

// ---------------------------------------------------------------- case splits

// splitPairs lists pairs of integer variables used as index of the same array
// or as the same argument of the same function; at least one of them is a
// Skolem constant.
func (p *Prep) splitPairs() [][2]*Term {
	groups := map[string][]*Term{}
	var order []string
	seen := map[*Term]bool{}
	put := func(k string, i *Term) {
		if i.S != IntS {
			return
		}
		l := linOf(i)
		if len(l.c) != 1 {
			return
		}
		for v, c := range l.c {
			if v.Op != OVar || c.Cmp(big.NewRat(1, 1)) != 0 {
				return
			}
			if groups[k] == nil {
				order = append(order, k)
			}
			for _, o := range groups[k] {
				if o == v {
					return
				}
			}
			groups[k] = append(groups[k], v)
		}
	}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OSelect:
			put(fmt.Sprint("s", t.A[0].ID), t.A[1])
		case OApp:
			for i, a := range t.A {
				if a.S == IntS {
					k := fmt.Sprint("a", t.Name, i)
					for j, b := range t.A {
						if j != i {
							k += fmt.Sprint(",", b.ID)
						}
					}
					put(k, a)
				}
			}
		}
		for _, a := range t.A {
			w(a)
		}
	}
	for _, t := range p.ground {
		w(t)
	}
	var out [][2]*Term
	dup := map[[2]*Term]bool{}
	for _, k := range order {
		g := groups[k]
		for i := range g {
			for j := i + 1; j < len(g); j++ {
				a, b := g[i], g[j]
				if !strings.HasPrefix(a.Name, "sk_") {
					a, b = b, a
				}
				if !strings.HasPrefix(a.Name, "sk_") || dup[[2]*Term{a, b}] || len(out) >= 6 {
					continue
				}
				dup[[2]*Term{a, b}] = true
				out = append(out, [2]*Term{a, b})
			}
		}
	}
	return out
}

func (pv *prover) caseSplit(ground []*Term, pairs [][2]*Term) bool {
	try := func(g []*Term, rest [][2]*Term, last bool) bool {
		for _, t := range g {
			if t == False {
				return true
			}
		}
		tmo := 2 * time.Second
		a, _ := runSolver(context.Background(), "z3-new", beZ3New.args(tmo), emit(g, nil, "", "(check-sat)\n"), tmo)
		pv.queries++
		if a == "unsat" {
			return true
		}
		if abs, pure := abstractReal(g); pure != nil && len(rest) == 0 {
			_ = abs
			a, _ = runSolver(context.Background(), "z3-new", beZ3New.args(tmo), emit(pure, nil, "", beZ3NLS.chk), tmo)
			if a == "unsat" {
				return true
			}
		}
		if len(rest) == 0 {
			return false
		}
		return pv.caseSplit(g, rest)
	}
	if len(pairs) == 0 {
		return false
	}
	a, b := pairs[0][0], pairs[0][1]
	rest := pairs[1:]
	for d := int64(-1); d <= 1; d++ {
		m := map[*Term]*Term{a: Add(b, Int(d))}
		var g []*Term
		for _, t := range ground {
			r := Subst(t, m)
			if r != True {
				g = append(g, r)
			}
		}
		var rs [][2]*Term
		for _, q := range rest {
			if q[0] != a && q[1] != a {
				rs = append(rs, q)
			}
		}
		if !try(g, rs, false) {
			return false
		}
	}
	for _, c := range []*Term{Le(a, Sub(b, Int(2))), Le(Add(b, Int(2)), a)} {
		if !try(append(append([]*Term(nil), ground...), c), rest, false) {
			return false
		}
	}
	return true
}
