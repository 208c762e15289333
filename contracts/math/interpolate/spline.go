package interpolate

// pivotAt is the k-th pivot of the elimination, with multipliers tmp.
func pivotAt(k int, as, bs, tmp []float64) float64 { return pick(k <= 0, bs[0], bs[k]-as[k]*tmp[k]) }

func abs(x float64) float64 { return pick(x < 0, -x, x) }

// dominant: in each row, the diagonal outweighs the two others.
func dominant(as, bs, cs []float64) bool {
	return all(i, 0, len(bs), abs(as[i])+abs(cs[i]) < abs(bs[i]))
}

// row is the left hand side of equation i.
func row(i, n int, as, bs, cs, us []float64) float64 {
	r := bs[i] * us[i]
	if i > 0 {
		r += as[i] * us[i-1]
	}
	if i < n-1 {
		r += cs[i] * us[i+1]
	}
	return r
}

// lemma_pivot: the pivots of a dominant system outweigh the entry above the
// diagonal, and the next multiplier is below one.
//
//verif:lemma
func lemma_pivot(a, b, c, t float64) {
	requires(abs(a)+abs(c) < abs(b) && abs(t) <= 1)
	ensures("pivot", abs(c) < abs(b-a*t))
	assert("product", abs(a*t) <= abs(a))
}

// lemma_multiplier: the multiplier of a row is below one.
//
//verif:lemma
func lemma_multiplier(c, p float64) {
	requires(abs(c) < abs(p))
	ensures("below one", p != 0 && abs(c/p) <= 1)
}

// lemma_row: what substituting back does to a row. o0, o1 and o2 are the final
// values of the neighbours, o0 + t1*o1 is the value before.
//
//verif:lemma
func lemma_row(a, b, c, r, t1, t2, y0, o1, o2 float64) {
	requires(b-a*t1 != 0 && t2 == c/(b-a*t1) && o1+t2*o2 == (r-a*y0)/(b-a*t1))
	p := b - a*t1
	assert("multiplier", t2*p == c)
	assert("value", (o1+t2*o2)*p == r-a*y0)
	assert("expanded", o1*b-o1*a*t1+c*o2 == r-a*y0)
	ensures("row", feq(a*(y0-t1*o1)+b*o1+c*o2, r))
}

// lemma_first: the first row.
//
//verif:lemma
func lemma_first(last bool, b, c, r, t, o0, o1 float64) {
	requires(imp(last, b != 0 && t == c/b && o0+t*o1 == r/b))
	if last {
		assert("multiplier", t*b == c)
		assert("value", (o0+t*o1)*b == r)
	}
	ensures("row", imp(last, feq(b*o0+c*o1, r)))
}

//verif:contract TriDiagAt
//verif:property C06
func Contract_TriDiagAt(as, bs, cs, rs, out []float64) {
	requires(len(as) > 0 && len(bs) == len(as) && len(cs) == len(as) && len(rs) == len(as) && len(out) == len(as) && dominant(as, bs, cs))
	loop(0, "1 <= i && i <= len(out)", "len(tmp) == len(out)", "abs(cs[i-1]) < abs(beta)",
		"beta == pivotAt(i-1, as, bs, tmp)",
		"all(k, 0, i, pivotAt(k, as, bs, tmp) != 0)",
		"all(k, 1, i, tmp[k] == cs[k-1]/pivotAt(k-1, as, bs, tmp))",
		"all(k, 1, i, out[k] == (rs[k]-as[k]*out[k-1])/pivotAt(k, as, bs, tmp))",
		"out[0] == rs[0]/bs[0]",
		"start: lemma_multiplier(cs[i-1], beta)", "start: lemma_pivot(as[i], bs[i], cs[i], cs[i-1]/beta)")
	loop(1, "-1 <= i && i <= len(out)-2", "len(tmp) == len(out)",
		"all(k, 0, len(out), pivotAt(k, as, bs, tmp) != 0)",
		"all(k, 1, len(out), tmp[k] == cs[k-1]/pivotAt(k-1, as, bs, tmp))",
		"all(k, 1, i+1, out[k] == (rs[k]-as[k]*out[k-1])/pivotAt(k, as, bs, tmp))",
		"imp(i >= 0, out[0] == rs[0]/bs[0])",
		"imp(i >= 0, out[i+1]+pick(i+2 < len(out), tmp[i+2]*out[i+2], 0) == (rs[i+1]-as[i+1]*out[i])/pivotAt(i+1, as, bs, tmp))",
		"imp(i < 0, out[0]+pick(1 < len(out), tmp[1]*out[1], 0) == rs[0]/bs[0])",
		"all(k, i+2, len(out), row(k, len(out), as, bs, cs, out) == rs[k])",
		"start: lemma_row(as[i+1], bs[i+1], pick(i+2 < len(out), cs[i+1], 0), rs[i+1], tmp[i+1], pick(i+2 < len(out), tmp[i+2], 0), out[i], out[i+1], pick(i+2 < len(out), out[i+2], 0))",
		"pre: lemma_first(i < 0, bs[0], pick(1 < len(out), cs[0], 0), rs[0], pick(1 < len(out), tmp[1], 0), out[0], pick(1 < len(out), out[1], 0))")
	modifies(out)
	TriDiagAt(as, bs, cs, rs, out)
	ensures("solves the equations", all(k, 0, len(as), feqTol(row(k, len(as), as, bs, cs, out), rs[k], 1)))
}

// ---------------------------------------------------------------- the spline

// cubic is the value of the i-th piece at x, slope its derivative, bend the
// second one.
func cubic(sp *Spline, i int, x float64) float64 {
	c, h := sp.coeffs[i], x-sp.xs[i]
	return c.a*h*h*h + c.b*h*h + c.c*h + c.d
}

func slope(sp *Spline, i int, x float64) float64 {
	c, h := sp.coeffs[i], x-sp.xs[i]
	return 3*c.a*h*h + 2*c.b*h + c.c
}

func bend(sp *Spline, i int, x float64) float64 {
	c, h := sp.coeffs[i], x-sp.xs[i]
	return 6*c.a*h + 2*c.b
}

// okKnots: the table of a spline.
func okKnots(sp *Spline) bool {
	return len(sp.xs) >= 2 && len(sp.ys) == len(sp.xs) && len(sp.y2s) == len(sp.xs) && len(sp.coeffs) == len(sp.xs)-1 &&
		sp.incr == (sp.xs[0] < sp.xs[1]) && imp(sp.incr, ascending(sp.xs)) && imp(!sp.incr, descending(sp.xs)) &&
		feq(sp.dx*float64(len(sp.xs)-1), sp.xs[len(sp.xs)-1]-sp.xs[0])
}

// balance is the left hand side of the equation that makes the first
// derivative continuous at a point.
func balance(h1, h2, m0, m1, m2 float64) float64 {
	return h1/6*m0 + (h1+h2)/3*m1 + h2/6*m2
}

// balanced says that the second derivatives make the first one continuous at
// point j.
func balanced(xs, ys, y2s []float64, j int) bool {
	return feqTol(balance(xs[j]-xs[j-1], xs[j+1]-xs[j], y2s[j-1], y2s[j], y2s[j+1]),
		(ys[j+1]-ys[j])/(xs[j+1]-xs[j])-(ys[j]-ys[j-1])/(xs[j]-xs[j-1]), abs((ys[j+1]-ys[j])/(xs[j+1]-xs[j]))+abs((ys[j]-ys[j-1])/(xs[j]-xs[j-1])))
}

//verif:contract Spline.calcY2s
//verif:property C06
//verif:paths
func Contract_calcY2s(sp *Spline) {
	requires(okKnots(sp))
	modifies(sp.y2s)
	sp.calcY2s()
	n := len(sp.xs)
	ensures("natural", sp.y2s[0] == 0 && sp.y2s[n-1] == 0)
	ensures("balanced", all(j, 1, n-1, balanced(sp.xs, sp.ys, sp.y2s, j)))
}

// isPiece says that a, b and c are the coefficients of the cubic over a cell of
// width h that runs between the points y0 and y1 and bends by m0 and m1 there.
func isPiece(h, y0, y1, m0, m1, a, b, c float64) bool {
	return h != 0 && a == (-m0/6+m1/6)/h && b == m0/2 && c == (y1-y0)/h+h*(-m0/3-m1/6)
}

// lemma_piece: a piece meets its two points and the second derivatives there.
//
//verif:lemma
func lemma_piece(h, y0, y1, m0, m1, a, b, c float64) {
	requires(isPiece(h, y0, y1, m0, m1, a, b, c))
	assert("a", a*h == -m0/6+m1/6)
	assert("c", c*h == y1-y0+h*h*(-m0/3-m1/6))
	assert("a3", a*h*h*h == h*h*(-m0/6+m1/6))
	ensures("meets the point", a*h*h*h+b*h*h+c*h+y0 == y1)
	ensures("bends as told", 6*a*h+2*b == m1 && h*h*(6*a*h+2*b) == h*h*m1)
}

// lemma_smooth: the first derivatives of two pieces agree where they meet.
//
//verif:lemma
func lemma_smooth(h1, h2, y0, y1, y2, m0, m1, m2, a, b, c, c2 float64) {
	requires(isPiece(h1, y0, y1, m0, m1, a, b, c) && h2 != 0 && c2 == (y2-y1)/h2+h2*(-m1/3-m2/6))
	requires(balance(h1, h2, m0, m1, m2) == (y2-y1)/h2-(y1-y0)/h1)
	assert("a", a*h1 == -m0/6+m1/6)
	assert("a2", a*h1*h1 == h1*(-m0/6+m1/6))
	ensures("smooth", 3*a*h1*h1+2*b*h1+c == c2 && h1*(3*a*h1*h1+2*b*h1+c) == h1*c2)
}

// joined says that piece i runs between the two points of its cell and bends
// by the second derivatives there.
func joined(sp *Spline, i int) bool {
	h := sp.xs[i+1] - sp.xs[i]
	s := abs(sp.coeffs[i].a*h*h*h) + abs(sp.coeffs[i].b*h*h) + abs(sp.coeffs[i].c*h) + abs(sp.coeffs[i].d)
	return sp.coeffs[i].d == sp.ys[i] && 2*sp.coeffs[i].b == sp.y2s[i] &&
		feqTol(cubic(sp, i, sp.xs[i+1]), sp.ys[i+1], s) && feqTol(h*h*bend(sp, i, sp.xs[i+1]), h*h*sp.y2s[i+1], s)
}

// smooth says that pieces j-1 and j have the same slope at point j.
func smooth(sp *Spline, j int) bool {
	c, h := sp.coeffs[j-1], sp.xs[j]-sp.xs[j-1]
	s := abs(c.a*h*h*h) + abs(c.b*h*h) + abs(c.c*h) + abs(c.d) + abs(sp.ys[j])
	return feqTol(h*slope(sp, j-1, sp.xs[j]), h*sp.coeffs[j].c, s+abs(h/(sp.xs[j+1]-sp.xs[j]))*(abs(sp.ys[j])+abs(sp.ys[j+1])))
}

// okSpline is the representation invariant: a natural cubic spline through the
// points of the table.
func okSpline(sp *Spline) bool {
	n := len(sp.xs)
	return okKnots(sp) && sp.y2s[0] == 0 && sp.y2s[n-1] == 0 &&
		all(i, 0, n-1, joined(sp, i)) && all(j, 1, n-1, smooth(sp, j))
}

//verif:contract Spline.calcCoeffs
//verif:property C06
func Contract_calcCoeffs(sp *Spline) {
	requires(okKnots(sp) && sp.y2s[0] == 0 && sp.y2s[len(sp.xs)-1] == 0 && all(j, 1, len(sp.xs)-1, balanced(sp.xs, sp.ys, sp.y2s, j)))
	modifies(sp.coeffs)
	sp.calcCoeffs()
	n := len(sp.xs)
	always(func(i int) {
		if 0 <= i && i < n-1 {
			lemma_piece(sp.xs[i+1]-sp.xs[i], sp.ys[i], sp.ys[i+1], sp.y2s[i], sp.y2s[i+1], sp.coeffs[i].a, sp.coeffs[i].b, sp.coeffs[i].c)
		}
		if 1 <= i && i < n-1 {
			lemma_smooth(sp.xs[i]-sp.xs[i-1], sp.xs[i+1]-sp.xs[i], sp.ys[i-1], sp.ys[i], sp.ys[i+1], sp.y2s[i-1], sp.y2s[i], sp.y2s[i+1],
				sp.coeffs[i-1].a, sp.coeffs[i-1].b, sp.coeffs[i-1].c, sp.coeffs[i].c)
		}
	})
	ensures("runs through the points", all(i, 0, n-1, joined(sp, i)))
	ensures("smooth", all(j, 1, n-1, smooth(sp, j)))
}

//verif:client
//verif:property C06
func Client_NewSpline(xs, ys []float64) {
	requires(len(xs) >= 2 && len(xs) == len(ys) && (ascending(xs) || descending(xs)))
	sp := NewSpline(xs, ys)
	ensures("keeps the table", len(sp.xs) == len(xs) && len(sp.ys) == len(xs) && all(i, 0, len(xs), sp.xs[i] == xs[i] && sp.ys[i] == ys[i]))
	ensures("a natural spline through the points", okSpline(sp))
}

//verif:contract Spline.Init
//verif:property C06
func Contract_Init(sp *Spline, xs, ys []float64) {
	requires(len(sp.xs) >= 2 && len(sp.ys) == len(sp.xs) && len(sp.y2s) == len(sp.xs) && len(sp.coeffs) == len(sp.xs)-1 &&
		len(xs) == len(sp.xs) && len(ys) == len(xs) && (ascending(xs) || descending(xs)))
	modifies(sp, sp.y2s, sp.coeffs)
	sp.Init(xs, ys)
	ensures("takes the table", len(sp.xs) == len(xs) && len(sp.ys) == len(xs) && all(i, 0, len(xs), sp.xs[i] == xs[i] && sp.ys[i] == ys[i]))
	ensures("a natural spline through the points", okSpline(sp))
}

// inTable says that x lies within the table.
func inTable(sp *Spline, x float64) bool {
	return between(sp.xs[0], x, sp.xs[len(sp.xs)-1])
}

//verif:contract Spline.bsearch
//verif:functional
//verif:property C06
func Contract_bsearch(sp *Spline, x float64) {
	requires(okKnots(sp) && inTable(sp, x))
	loop(0, "0 <= lo && lo < hi && hi <= len(sp.xs)-1", "between(sp.xs[lo], x, sp.xs[hi])", "dec: hi-lo")
	i := sp.bsearch(x)
	ensures("a cell of the table", 0 <= i && i < len(sp.xs)-1)
	ensures("the cell contains x", between(sp.xs[i], x, sp.xs[i+1]))
}

// size bounds the terms of piece i at x, for rounding.
func size(sp *Spline, i int, x float64) float64 {
	c, h := sp.coeffs[i], x-sp.xs[i]
	return abs(c.a*h*h*h) + abs(c.b*h*h) + abs(c.c*h) + abs(c.d)
}

// onPiece says that x lies in cell i.
func onPiece(sp *Spline, i int, x float64) bool {
	return 0 <= i && i < len(sp.coeffs) && between(sp.xs[i], x, sp.xs[i+1])
}

//verif:lemma
func lemma_cancel(h, a, b float64) {
	requires(h != 0 && h*a == h*b)
	ensures("equal", a == b)
}

//verif:lemma
func lemma_cancel2(h, a, b float64) {
	requires(h != 0 && h*h*a == h*h*b)
	assert("square", h*h != 0)
	ensures("equal", a == b)
}

// lemma_next: neighbouring pieces agree where they meet.
//
//verif:lemma
func lemma_next(sp *Spline, i int) {
	requires(okSpline(sp) && 0 <= i && i+1 < len(sp.coeffs))
	h, x := sp.xs[i+1]-sp.xs[i], sp.xs[i+1]
	assert("smooth", smooth(sp, i+1))
	assert("joined", joined(sp, i) && joined(sp, i+1))
	lemma_cancel(h, slope(sp, i, x), sp.coeffs[i+1].c)
	lemma_cancel2(h, bend(sp, i, x), sp.y2s[i+1])
	ensures("value", feq(cubic(sp, i, x), cubic(sp, i+1, x)))
	ensures("slope", feq(slope(sp, i, x), slope(sp, i+1, x)))
	ensures("bend", feq(bend(sp, i, x), bend(sp, i+1, x)))
}

// lemma_pieces: it does not matter which of the pieces around x is taken.
//
//verif:lemma
func lemma_pieces(sp *Spline, i, j int, x float64) {
	requires(okSpline(sp) && onPiece(sp, i, x) && onPiece(sp, j, x))
	if j == i+1 {
		lemma_next(sp, i)
	} else if i == j+1 {
		lemma_next(sp, j)
	} else {
		assert("same", i == j)
	}
	ensures("value", feq(cubic(sp, i, x), cubic(sp, j, x)))
	ensures("slope", feq(slope(sp, i, x), slope(sp, j, x)))
	ensures("bend", feq(bend(sp, i, x), bend(sp, j, x)))
}

// onSpline says that y is the value of the spline at x: of a piece around x,
// and it does not matter which (lemma_pieces).
//
//verif:rec
func onSpline(sp *Spline, n int, x, y float64) bool {
	return ex(i, 0, n, between(sp.xs[i], x, sp.xs[i+1]) && feqTol(y, cubic(sp, i, x), size(sp, i, x)))
}

//verif:contract Spline.Eval
//verif:property C06
func Contract_Eval(sp *Spline, x float64) {
	requires(okSpline(sp))
	panicsWhen(!inTable(sp, x))
	y := sp.Eval(x)
	assert("first", imp(len(sp.xs) >= 2, feq(cubic(sp, 0, sp.xs[0]), sp.ys[0])))
	assert("last", joined(sp, len(sp.xs)-2))
	ensures("on the spline", onSpline(sp, len(sp.coeffs), x, y))
}

//verif:contract Spline.Deriv
//verif:property C06
func Contract_Deriv(sp *Spline, x float64, order int) {
	requires(okSpline(sp))
	panicsWhen(!inTable(sp, x))
	d := sp.Deriv(x, order)
	ensures("value", imp(order == 0, onSpline(sp, len(sp.coeffs), x, d)))
	ensures("slope", imp(order == 1, ex(i, 0, len(sp.coeffs), onPiece(sp, i, x) && feqTol(d, slope(sp, i, x), size(sp, i, x)/abs(sp.xs[i+1]-sp.xs[i])))))
	ensures("bend", imp(order == 2, ex(i, 0, len(sp.coeffs), onPiece(sp, i, x) && feqTol(d, bend(sp, i, x), abs(sp.coeffs[i].b)))))
	ensures("third", imp(order == 3, ex(i, 0, len(sp.coeffs), onPiece(sp, i, x) && feq(d, 6*sp.coeffs[i].a))))
	ensures("other", imp(order < 0 || order > 3, d == 0))
}

// upTo is the integral of piece i from the start of its cell to x.
func upTo(sp *Spline, i int, x float64) float64 {
	c, h := sp.coeffs[i], x-sp.xs[i]
	return c.a*h*h*h*h/4 + c.b*h*h*h/3 + c.c*h*h/2 + c.d*h
}

// total is the integral of the spline over its first i cells.
//
//verif:rec
func total(sp *Spline, i int) float64 {
	if i <= 0 {
		return 0
	}
	return total(sp, i-1) + upTo(sp, i-1, sp.xs[i])
}

// lemma_upTo: upTo is an antiderivative of the piece: the difference over any
// span is what integrating the cubic gives, by Simpson's rule, which is exact.
//
//verif:lemma
func lemma_upTo(a, b, c, d, p, q float64) {
	h, m := q-p, (p+q)/2
	ensures("antiderivative", feq(a*q*q*q*q/4+b*q*q*q/3+c*q*q/2+d*q-(a*p*p*p*p/4+b*p*p*p/3+c*p*p/2+d*p),
		h/6*((a*p*p*p+b*p*p+c*p+d)+4*(a*m*m*m+b*m*m+c*m+d)+(a*q*q*q+b*q*q+c*q+d))))
}

// lemma_totals: it does not matter which of the pieces around x is taken.
//
//verif:lemma
func lemma_totals(sp *Spline, i, j int, x float64) {
	requires(okKnots(sp) && onPiece(sp, i, x) && onPiece(sp, j, x))
	assert("neighbours", i == j || i == j+1 && x == sp.xs[i] || j == i+1 && x == sp.xs[j])
	ensures("integral", feq(total(sp, i)+upTo(sp, i, x), total(sp, j)+upTo(sp, j, x)))
}

//verif:contract Spline.Integrate
//verif:property C06
//verif:paths
func Contract_Integrate(sp *Spline, lo, hi float64) {
	requires(okKnots(sp))
	decreases(pick(lo > hi, 1, 0))
	panicsWhen(!inTable(sp, lo) || !inTable(sp, hi))
	loop(0, "iLo < i && i <= iHi", "sum == total(sp, i)-total(sp, iLo)-upTo(sp, iLo, lo)+upTo(sp, iHi, hi)")
	r := sp.Integrate(lo, hi)
	i, j := sp.bsearch(lo), sp.bsearch(hi)
	ensures("around the bounds", onPiece(sp, i, lo) && onPiece(sp, j, hi))
	ensures("integral", feqTol(r, total(sp, j)+upTo(sp, j, hi)-total(sp, i)-upTo(sp, i, lo),
		abs(total(sp, j))+abs(upTo(sp, j, hi))+abs(total(sp, i))+abs(upTo(sp, i, lo))))
}

func Gen_Contract_Integrate(r *vpRng) (*Spline, float64, float64) {
	sp := genSpline(r)
	return sp, genAt(r, sp), genAt(r, sp)
}

//verif:annot Spline.EvalAll
func Annot_SplineEvalAll() {
	loop(0, "all(m, 0, iter(), onSpline(sp, len(sp.coeffs), xs[m], out[0][m]))")
}

//verif:client
//verif:property C06
//verif:opaque onSpline
func Client_SplineEvalAll(sp *Spline, xs []float64) {
	requires(okSpline(sp) && all(k, 0, len(xs), inTable(sp, xs[k])))
	ys := sp.EvalAll(xs)
	ensures("one value per point", len(ys) == len(xs))
	ensures("on the spline", all(k, 0, len(xs), onSpline(sp, len(sp.coeffs), xs[k], ys[k])))
}

//verif:client
//verif:property C06
//verif:opaque onSpline
func Client_SplineEvalAllOut(sp *Spline, xs, out []float64) {
	requires(okSpline(sp) && all(k, 0, len(xs), inTable(sp, xs[k])) && len(out) == len(xs))
	ys := sp.EvalAll(xs, out)
	ensures("in place", samebase(ys, out) && len(ys) == len(out))
	ensures("on the spline", all(k, 0, len(xs), onSpline(sp, len(sp.coeffs), xs[k], out[k])))
}

func genSpline(r *vpRng) *Spline {
	n := []int{r.Range(2, 4), r.Range(2, 12)}[r.Intn(2)]
	xs := r.Increasing(n)
	if r.Intn(3) == 0 {
		for i := range xs {
			xs[i] = -xs[i]
		}
	}
	return NewSpline(xs, r.Floats(n))
}

func genAt(r *vpRng, sp *Spline) float64 {
	a, b := sp.xs[0], sp.xs[len(sp.xs)-1]
	switch r.Intn(6) {
	case 0:
		return a
	case 1:
		return b
	case 2, 3:
		return sp.xs[r.Range(0, len(sp.xs)-1)]
	}
	x := a + r.Float64()*(b-a)
	if !between(a, x, b) {
		return a
	}
	return x
}

func Gen_Client_NewSpline(r *vpRng) ([]float64, []float64) { sp := genSpline(r); return sp.xs, sp.ys }
func Gen_Contract_Init(r *vpRng) (*Spline, []float64, []float64) {
	sp := genSpline(r)
	xs := append([]float64(nil), sp.xs...)
	for i := range xs {
		xs[i] = 2*xs[i] + 1
	}
	return sp, xs, r.Floats(len(xs))
}
func Gen_Contract_calcY2s(r *vpRng) *Spline               { return genSpline(r) }
func Gen_Contract_calcCoeffs(r *vpRng) *Spline            { return genSpline(r) }
func Gen_Contract_bsearch(r *vpRng) (*Spline, float64)    { sp := genSpline(r); return sp, genAt(r, sp) }
func Gen_Contract_Eval(r *vpRng) (*Spline, float64)       { sp := genSpline(r); return sp, genAt(r, sp) }
func Gen_Contract_Deriv(r *vpRng) (*Spline, float64, int) { sp := genSpline(r); return sp, genAt(r, sp), r.Range(-1, 4) }
func Gen_Client_SplineEvalAll(r *vpRng) (*Spline, []float64) {
	sp := genSpline(r)
	xs := make([]float64, r.Range(0, 5))
	for i := range xs {
		xs[i] = genAt(r, sp)
	}
	return sp, xs
}
func Gen_Client_SplineEvalAllOut(r *vpRng) (*Spline, []float64, []float64) {
	sp, xs := Gen_Client_SplineEvalAll(r)
	return sp, xs, make([]float64, len(xs))
}

func Gen_Contract_TriDiagAt(r *vpRng) ([]float64, []float64, []float64, []float64, []float64) {
	n := r.Range(1, 6)
	as, bs, cs := r.Floats(n), r.Floats(n), r.Floats(n)
	for i := range bs {
		bs[i] = abs(as[i]) + abs(cs[i]) + r.Pos()
		if r.Intn(2) == 0 {
			bs[i] = -bs[i]
		}
	}
	return as, bs, cs, r.Floats(n), r.Floats(n)
}
