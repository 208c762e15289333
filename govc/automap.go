package main

// Automatic invariants of element-wise loops: a loop whose counter moves by
// one and that stores into an array only at the counter (plus a constant),
// from values that do not depend on other entries it changes, has done the
// entries it passed and left the others alone. The candidates are checked
// like any other invariant and dropped when they do not hold.

// storeIndex is the one index a term stores into the array h at, nil when
// there are several or the term has another shape.
func storeIndex(t, h, idx *Term) (*Term, bool) {
	if t == h {
		return idx, true
	}
	switch t.Op {
	case OStore:
		if idx != nil && idx != t.A[1] {
			return nil, false
		}
		return storeIndex(t.A[0], h, t.A[1])
	case OIte:
		i, ok := storeIndex(t.A[1], h, idx)
		if !ok {
			return nil, false
		}
		return storeIndex(t.A[2], h, i)
	}
	return nil, false
}

func storeValue(t, h, idx *Term) *Term {
	switch {
	case t == h:
		return Select(h, idx)
	case t.Op == OStore:
		return t.A[2]
	case t.Op == OIte:
		return Ite(t.A[0], storeValue(t.A[1], h, idx), storeValue(t.A[2], h, idx))
	}
	return nil
}

type autoMap struct {
	name string
	t    *Term
}

func autoMaps(hv []hvar, prev map[*Term]*Term, mine map[*Term]bool, before, after func(hvar) *Term) []autoMap {
	var out []autoMap
	for _, v := range hv {
		if v.h.S.K != KArr {
			continue
		}
		v0, ve := before(v), after(v)
		if v0 == nil || ve == nil || v0.S != v.h.S {
			continue
		}
		idx, ok := storeIndex(ve, v.h, nil)
		if !ok || idx == nil {
			continue
		}
		for _, c := range hv {
			p, ok := prev[c.h]
			if !ok {
				continue
			}
			step, ok := Sub(c.h, p).IntVal()
			if !ok || step != 1 && step != -1 {
				continue
			}
			off := Sub(idx, c.h)
			if len(mentions(off, mine)) > 0 {
				continue
			}
			c0 := before(c)
			if c0 == nil {
				continue
			}
			k := FreshBound("am", IntS)
			m := map[*Term]*Term{c.h: Sub(k, off)}
			for _, w := range hv {
				if w.h.S.K == KArr {
					if w0 := before(w); w0 != nil && w0.S == w.h.S {
						m[Select(w.h, idx)] = Select(w0, k)
					}
				}
			}
			val := Subst(storeValue(ve, v.h, idx), m)
			if len(mentions(val, mine)) > 0 || val.Quant {
				continue
			}
			lo, hi := Add(c0, off), idx
			if step < 0 {
				lo, hi = Add(idx, Int(1)), Add(Add(c0, off), Int(1))
			}
			in := And(Le(lo, k), Lt(k, hi))
			out = append(out,
				autoMap{v.h.Name + ".done", Forall([]*Term{k}, Or(Not(in), Eq(Select(v.h, k), val)))},
				autoMap{v.h.Name + ".rest", Forall([]*Term{k}, Or(in, Eq(Select(v.h, k), Select(v0, k))))})
			break
		}
	}
	return out
}
