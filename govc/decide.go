package main

import (
	"math/big"
	"strconv"
	"strings"
)

// decideItes replaces the conditions of conditional terms that the hypotheses
// decide (the same literal, or a tighter bound on the same linear expression)
// by true or false, in the hypotheses and in the goal. Every new formula is
// equivalent to the old one under the old hypotheses.
func (pv *prover) decideItes(hyps []*Term, goal *Term) ([]*Term, *Term) {
	conds := map[*Term]bool{}
	for _, h := range hyps {
		pv.iteConds(h, conds)
	}
	pv.iteConds(goal, conds)
	if len(conds) == 0 {
		return hyps, goal
	}
	lits := map[*Term]bool{}
	low := map[string]*big.Rat{} // linear form >= bound
	var flat []*Term
	var facts func(t *Term)
	facts = func(t *Term) {
		if t.Op == OAnd {
			for _, a := range t.A {
				facts(a)
			}
			return
		}
		flat = append(flat, t)
		if t.Quant {
			return
		}
		lits[t] = true
		for _, f := range pv.bounds(t) {
			if b, ok := low[f.key]; !ok || b.Cmp(f.k) < 0 {
				low[f.key] = f.k
			}
		}
	}
	for _, h := range hyps {
		facts(h)
	}
	m := map[*Term]*Term{}
	for c := range conds {
		if lits[c] {
			m[c] = True
		} else if lits[Not(c)] {
			m[c] = False
		} else if pv.implied(c, low) {
			m[c] = True
		} else if pv.implied(Not(c), low) {
			m[c] = False
		}
	}
	if len(m) == 0 {
		return hyps, goal
	}
	out := make([]*Term, len(flat))
	for i, h := range flat {
		if m[h] != nil || h.Op == ONot && m[h.A[0]] != nil {
			out[i] = h
		} else {
			out[i] = Subst(h, m)
		}
	}
	return out, Subst(goal, m)
}

// iteConds collects the ground conditions of conditional terms.
func (pv *prover) iteConds(t *Term, out map[*Term]bool) {
	if pv.conds == nil {
		pv.conds = map[*Term]map[*Term]bool{}
	}
	for c := range pv.condsOf(t) {
		out[c] = true
	}
}

func (pv *prover) condsOf(t *Term) map[*Term]bool {
	if len(t.A) == 0 {
		return nil
	}
	if r, ok := pv.conds[t]; ok {
		return r
	}
	var r map[*Term]bool
	own := false
	merge := func(s map[*Term]bool) {
		if len(s) == 0 {
			return
		}
		if r == nil {
			r = s
			return
		}
		for c := range s {
			if !r[c] {
				if !own {
					n := make(map[*Term]bool, len(r)+len(s))
					for k := range r {
						n[k] = true
					}
					r, own = n, true
				}
				r[c] = true
			}
		}
	}
	for _, a := range t.A {
		merge(pv.condsOf(a))
	}
	if t.Op == OIte && !t.A[0].Bound && !t.A[0].Quant {
		switch t.A[0].Op {
		case OAnd, OOr:
		default:
			merge(map[*Term]bool{t.A[0]: true})
		}
	}
	pv.conds[t] = r
	return r
}

type bound struct {
	key string
	k   *big.Rat
}

// bounds lists what an inequality says: a linear form is at least a number.
func (pv *prover) bounds(t *Term) []bound {
	switch t.Op {
	case OLe, OLt:
		return []bound{linBound(t.A[0], t.A[1])}
	case OEq:
		if s := t.A[0].S.K; s == KInt || s == KReal {
			return []bound{linBound(t.A[0], t.A[1]), linBound(t.A[1], t.A[0])}
		}
	}
	return nil
}

// linBound turns a <= b into: form >= k.
func linBound(a, b *Term) bound {
	l := linOf(b)
	l.addTerm(a, big.NewRat(-1, 1))
	var sb strings.Builder
	ts := l.order()
	var scale *big.Rat
	for _, t := range ts {
		c := l.c[t]
		if c.Sign() == 0 {
			continue
		}
		if scale == nil {
			scale = new(big.Rat).Inv(new(big.Rat).Abs(c))
		}
		sb.WriteString(strconv.Itoa(t.ID))
		sb.WriteByte('*')
		sb.WriteString(new(big.Rat).Mul(c, scale).RatString())
		sb.WriteByte(' ')
	}
	k := new(big.Rat).Neg(l.k)
	if scale != nil {
		k.Mul(k, scale)
	}
	return bound{sb.String(), k}
}

// implied: an inequality follows from a bound on the same linear form.
func (pv *prover) implied(c *Term, low map[string]*big.Rat) bool {
	if c.Op != OLe {
		return false
	}
	b := linBound(c.A[0], c.A[1])
	k, ok := low[b.key]
	return ok && k.Cmp(b.k) >= 0
}
