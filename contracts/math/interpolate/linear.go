package interpolate

// ---------------------------------------------------------------- vocabulary

// ascending and descending are stated over all pairs, so that no induction is
// needed where they are used.
func ascending(xs []float64) bool {
	return all(i, 0, len(xs), all(j, i+1, len(xs), xs[i] < xs[j]))
}

func descending(xs []float64) bool {
	return all(i, 0, len(xs), all(j, i+1, len(xs), xs[i] > xs[j]))
}

// knot is the i-th grid line of a table.
//
//verif:rec
func knot(s *searcher, i int) float64 {
	if s.unif {
		return s.x0 + float64(i)*s.dx
	}
	return s.xs[i]
}

// okTable is the representation invariant of a table of grid lines.
func okTable(s *searcher) bool {
	if s.n < 2 || s.dx == 0 || s.incr != (s.dx > 0) || !feq(s.lim, s.x0+float64(s.n-1)*s.dx) {
		return false
	}
	if s.unif {
		return true
	}
	return len(s.xs) == s.n && s.x0 == s.xs[0] && s.lim == s.xs[s.n-1] &&
		imp(s.incr, ascending(s.xs)) && imp(!s.incr, descending(s.xs))
}

// inRange says that x lies inside the table.
func inRange(s *searcher, x float64) bool {
	return between(s.x0, x, s.lim)
}

func between(a, x, b float64) bool {
	return a <= x && x <= b || b <= x && x <= a
}

// about is between up to rounding.
func about(a, x, b float64) bool {
	return fle(a, x) && fle(x, b) || fle(b, x) && fle(x, a)
}

// okLin is the representation invariant of a linear interpolator.
func okLin(lin *Linear) bool {
	return okTable(&lin.xs) && len(lin.vals) == lin.xs.n
}

// onSegment says that (x, r) lies on the straight line through (x1, v1) and
// (x2, v2).
func onSegment(x1, v1, x2, v2, x, r float64) bool {
	return feqTol((r-v1)*(x2-x1), (v2-v1)*(x-x1), (x2-x1)*v1)
}

// linSpec: r is the value of the polyline at x.
func linSpec(lin *Linear, x, r float64) bool {
	return all(j, 0, lin.xs.n-1, imp(between(knot(&lin.xs, j), x, knot(&lin.xs, j+1)),
		onSegment(knot(&lin.xs, j), lin.vals[j], knot(&lin.xs, j+1), lin.vals[j+1], x, r)))
}

// ---------------------------------------------------------------- search

//verif:lemma
func lemma_knots(s *searcher) {
	requires(okTable(s))
	ensures("the grid lines are ordered", all(i, 0, s.n, all(j, i+1, s.n,
		imp(s.incr, knot(s, i) < knot(s, j)) && imp(!s.incr, knot(s, i) > knot(s, j)))))
}

//verif:contract searcher.val
//verif:property C05
func Contract_val(s *searcher, i int) {
	requires(okTable(s) && 0 <= i && i < s.n)
	v := s.val(i)
	ensures("the grid line", feq(v, knot(s, i)))
}

func Gen_Contract_val(r *vpRng) (*searcher, int) {
	s := genTable(r)
	return s, r.Range(0, s.n-1)
}

//verif:contract searcher.search
//verif:property C05
func Contract_search(s *searcher, x float64) {
	requires(okTable(s))
	loop(0, "0 <= lo && lo < hi && hi <= s.n-1", "between(s.xs[lo], x, s.xs[hi])", "dec: hi-lo")
	panicsWhen(!inRange(s, x))
	i := s.search(x)
	ensures("a cell of the table", 0 <= i && i < s.n-1)
	ensures("the cell contains x", about(knot(s, i), x, knot(s, i+1)))
}

func Gen_Contract_search(r *vpRng) (*searcher, float64) {
	s := genTable(r)
	return s, genIn(r, s)
}

func genTable(r *vpRng) *searcher {
	s := &searcher{}
	n := []int{r.Range(2, 4), r.Range(2, 12)}[r.Intn(2)]
	if r.Intn(2) == 0 {
		dx := r.Pos()
		if r.Intn(3) == 0 {
			dx = -dx
		}
		s.unifInit(r.Float(), dx, n)
	} else {
		xs := r.Increasing(n)
		if r.Intn(3) == 0 {
			for i := range xs {
				xs[i] = -xs[i]
			}
		}
		s.init(xs)
	}
	return s
}

func genIn(r *vpRng, s *searcher) float64 {
	switch r.Intn(6) {
	case 0:
		return s.x0
	case 1:
		return s.lim
	case 2, 3:
		return knot(s, r.Range(0, s.n-1))
	}
	return s.x0 + r.Float64()*(s.lim-s.x0)
}

// ---------------------------------------------------------------- linear

//verif:contract Linear.Eval
//verif:cases
//verif:opaque knot
//verif:property C05
func Contract_LinearEval(lin *Linear, x float64) {
	requires(okLin(lin))
	lemma_knots(&lin.xs)
	panicsWhen(!inRange(&lin.xs, x))
	r := lin.Eval(x)
	ensures("the polyline through the points", linSpec(lin, x, r))
}

func Gen_Contract_LinearEval(r *vpRng) (*Linear, float64) {
	lin := &Linear{xs: *genTable(r)}
	lin.vals = r.Floats(lin.xs.n)
	return lin, genIn(r, &lin.xs)
}

//verif:annot Linear.EvalAll
func Annot_LinearEvalAll() {
	loop(0, "all(m, 0, k, linSpec(lin, xs[m], out[0][m]))")
}

//verif:client
//verif:property C05
func Client_Linear(xs, vals []float64, x float64) {
	requires(len(xs) == len(vals) && len(xs) >= 2 && (ascending(xs) || descending(xs)))
	requires(between(xs[0], x, xs[len(xs)-1]))
	lin := NewLinear(xs, vals)
	r := lin.Eval(x)
	ensures("the invariant is established", okLin(lin))
	ensures("the table is the one given", all(k, 0, len(xs), knot(&lin.xs, k) == xs[k] && lin.vals[k] == vals[k]))
	ensures("the polyline through the points", linSpec(lin, x, r))
	s := NewLinearInterpolator(xs, vals).Eval(x)
	ensures("the polyline through the points, through the interface", linSpec(lin, x, s))
}

//verif:client
//verif:property C05
func Client_UniformLinear(x0, dx float64, vals []float64, x float64) {
	requires(len(vals) >= 2 && dx != 0)
	lin := NewUniformLinear(x0, dx, vals)
	ensures("the invariant is established", okLin(lin))
	ensures("the table is the one given", all(k, 0, len(vals), feq(knot(&lin.xs, k), x0+float64(k)*dx) && lin.vals[k] == vals[k]))
	requires(inRange(&lin.xs, x))
	r := lin.Eval(x)
	ensures("the polyline through the points", linSpec(lin, x, r))
	s := NewUniformLinearInterpolator(x0, dx, vals).Eval(x)
	ensures("the polyline through the points, through the interface", linSpec(lin, x, s))
}

// okXs says that every point lies inside the table.
func okXs(s *searcher, xs []float64) bool {
	return all(k, 0, len(xs), inRange(s, xs[k]))
}

//verif:client
//verif:property C05
func Client_LinearEvalAll(lin *Linear, xs []float64) {
	requires(okLin(lin) && okXs(&lin.xs, xs))
	r := lin.EvalAll(xs)
	ensures("one value per point", len(r) == len(xs))
	ensures("the values of the interpolator", all(k, 0, len(xs), linSpec(lin, xs[k], r[k])))
}

//verif:client
//verif:property C05
func Client_LinearEvalAllOut(lin *Linear, xs, out []float64) {
	requires(okLin(lin) && okXs(&lin.xs, xs) && len(out) == len(xs))
	r := lin.EvalAll(xs, out)
	ensures("the given slice is returned", len(r) == len(out) && samebase(r, out))
	ensures("the values of the interpolator", all(k, 0, len(xs), linSpec(lin, xs[k], out[k])))
}

func Gen_Client_Linear(r *vpRng) ([]float64, []float64, float64) {
	s := genTable(r)
	for s.unif {
		s = genTable(r)
	}
	return s.xs, r.Floats(s.n), genIn(r, s)
}

func Gen_Client_UniformLinear(r *vpRng) (float64, float64, []float64, float64) {
	s := genTable(r)
	for !s.unif {
		s = genTable(r)
	}
	return s.x0, s.dx, r.Floats(s.n), genIn(r, s)
}

func Gen_Client_LinearEvalAll(r *vpRng) (*Linear, []float64) {
	lin, _ := Gen_Contract_LinearEval(r)
	xs := make([]float64, r.Range(0, 5))
	for i := range xs {
		xs[i] = genIn(r, &lin.xs)
	}
	return lin, xs
}

func Gen_Client_LinearEvalAllOut(r *vpRng) (*Linear, []float64, []float64) {
	lin, xs := Gen_Client_LinearEvalAll(r)
	return lin, xs, r.Floats(len(xs))
}
