package interpolate

// ---------------------------------------------------------------- two dimensions

// okBi is the representation invariant of a bilinear interpolator.
func okBi(bi *BiLinear) bool {
	return okTable(&bi.xs) && okTable(&bi.ys) && bi.nx == bi.xs.n &&
		len(bi.vals) == bi.xs.n*bi.ys.n
}

// okTri is the representation invariant of a trilinear interpolator.
func okTri(tri *TriLinear) bool {
	return okTable(&tri.xs) && okTable(&tri.ys) && okTable(&tri.zs) &&
		tri.nx == tri.xs.n && tri.ny == tri.ys.n &&
		len(tri.vals) == tri.xs.n*tri.ys.n*tri.zs.n
}

// lerp is the straight line through (x1, v1) and (x2, v2) at x.
func lerp(x1, v1, x2, v2, x float64) float64 {
	return v1 + (v2-v1)*((x-x1)/(x2-x1))
}

// inCell says that x lies in cell i of the table.
func inCell(s *searcher, i int, x float64) bool {
	return about(knot(s, i), x, knot(s, i+1))
}

// cellVal2 is the bilinear function of cell (i, j) at (x, y).
func cellVal2(bi *BiLinear, i, j int, x, y float64) float64 {
	k := i + bi.xs.n*j
	return lerp(knot(&bi.ys, j), lerp(knot(&bi.xs, i), bi.vals[k], knot(&bi.xs, i+1), bi.vals[k+1], x),
		knot(&bi.ys, j+1), lerp(knot(&bi.xs, i), bi.vals[k+bi.xs.n], knot(&bi.xs, i+1), bi.vals[k+bi.xs.n+1], x), y)
}

// biSpec: r is the value at (x, y) of the bilinear function of a cell that
// contains (x, y).
//
//verif:rec
func biSpec(bi *BiLinear, x, y, r float64) bool {
	return ex(i, 0, bi.xs.n-1, ex(j, 0, bi.ys.n-1, inCell(&bi.xs, i, x) && inCell(&bi.ys, j, y) &&
		feqTol(r, cellVal2(bi, i, j, x, y), 100)))
}

//verif:lemma
func lemma_index2(i, j, nx, ny int) {
	requires(0 <= i && i < nx && 0 <= j && j < ny)
	ensures("inside", 0 <= i+nx*j && i+nx*j < nx*ny)
}

//verif:contract BiLinear.Eval
//verif:prune
//verif:opaque knot
//verif:property C05
func Contract_BiLinearEval(bi *BiLinear, x, y float64) {
	requires(okBi(bi))
	lemma_knots(&bi.xs)
	lemma_knots(&bi.ys)
	always(func(i, j int) { lemma_index2(i, j, bi.xs.n, bi.ys.n) })
	panicsWhen(!inRange(&bi.xs, x) || !inRange(&bi.ys, y))
	r := bi.Eval(x, y)
	ensures("the bilinear function of a cell around the point", biSpec(bi, x, y, r))
}

func Gen_Contract_BiLinearEval(r *vpRng) (*BiLinear, float64, float64) {
	bi := &BiLinear{xs: *genTable(r), ys: *genTable(r)}
	bi.nx = bi.xs.n
	bi.vals = r.Floats(bi.xs.n * bi.ys.n)
	return bi, genIn(r, &bi.xs), genIn(r, &bi.ys)
}

//verif:annot BiLinear.EvalAll
func Annot_BiLinearEvalAll() {
	loop(0, "all(m, 0, k, biSpec(bi, xs[m], ys[m], out[0][m]))")
}

//verif:client
//verif:property C05
func Client_BiLinear(xs, ys, vals []float64, x, y float64) {
	requires(len(xs) >= 2 && (ascending(xs) || descending(xs)))
	requires(len(ys) >= 2 && (ascending(ys) || descending(ys)))
	panicsWhen(len(xs)*len(ys) != len(vals) || !between(xs[0], x, xs[len(xs)-1]) || !between(ys[0], y, ys[len(ys)-1]))
	bi := NewBiLinear(xs, ys, vals)
	ensures("the invariant is established", okBi(bi))
	ensures("the table is the one given", all(k, 0, len(xs), knot(&bi.xs, k) == xs[k]) &&
		all(k, 0, len(ys), knot(&bi.ys, k) == ys[k]) && all(k, 0, len(vals), bi.vals[k] == vals[k]))
	r := NewBiLinearInterpolator(xs, ys, vals).Eval(x, y)
	ensures("the bilinear function of a cell around the point", biSpec(bi, x, y, r))
}

func Gen_Client_BiLinear(r *vpRng) ([]float64, []float64, []float64, float64, float64) {
	s, t := genKnots(r), genKnots(r)
	n := s.n * t.n
	if r.Intn(8) == 0 {
		n = r.Range(0, n+2)
	}
	return s.xs, t.xs, r.Floats(n), genIn(r, s), genIn(r, t)
}

func genKnots(r *vpRng) *searcher {
	s := genTable(r)
	for s.unif {
		s = genTable(r)
	}
	return s
}

func genUnif(r *vpRng) *searcher {
	s := genTable(r)
	for !s.unif {
		s = genTable(r)
	}
	return s
}

//verif:client
//verif:property C05
func Client_UniformBiLinear(x0, dx float64, nx int, y0, dy float64, ny int, vals []float64, x, y float64) {
	requires(nx >= 2 && ny >= 2 && dx != 0 && dy != 0)
	panicsWhen(nx*ny != len(vals) || !between(x0, x, float64(nx-1)*dx+x0) || !between(y0, y, float64(ny-1)*dy+y0))
	bi := NewUniformBiLinear(x0, dx, nx, y0, dy, ny, vals)
	ensures("the invariant is established", okBi(bi))
	ensures("the table is the one given", all(k, 0, nx, feq(knot(&bi.xs, k), x0+float64(k)*dx)) &&
		all(k, 0, ny, feq(knot(&bi.ys, k), y0+float64(k)*dy)) && all(k, 0, len(vals), bi.vals[k] == vals[k]))
	r := NewUniformBiLinearInterpolator(x0, dx, nx, y0, dy, ny, vals).Eval(x, y)
	ensures("the bilinear function of a cell around the point", biSpec(bi, x, y, r))
}

func Gen_Client_UniformBiLinear(r *vpRng) (float64, float64, int, float64, float64, int, []float64, float64, float64) {
	s, t := genUnif(r), genUnif(r)
	n := s.n * t.n
	if r.Intn(8) == 0 {
		n = r.Range(0, n+2)
	}
	return s.x0, s.dx, s.n, t.x0, t.dx, t.n, r.Floats(n), genIn(r, s), genIn(r, t)
}

//verif:client
//verif:opaque biSpec
//verif:property C05
func Client_BiLinearEvalAll(bi *BiLinear, xs, ys []float64) {
	requires(okBi(bi) && okXs(&bi.xs, xs) && okXs(&bi.ys, ys) && len(xs) == len(ys))
	r := bi.EvalAll(xs, ys)
	ensures("one value per point", len(r) == len(xs))
	ensures("the values of the interpolator", all(k, 0, len(xs), biSpec(bi, xs[k], ys[k], r[k])))
}

//verif:client
//verif:opaque biSpec
//verif:property C05
func Client_BiLinearEvalAllOut(bi *BiLinear, xs, ys, out []float64) {
	requires(okBi(bi) && okXs(&bi.xs, xs) && okXs(&bi.ys, ys) && len(xs) == len(ys) && len(out) == len(xs))
	r := bi.EvalAll(xs, ys, out)
	ensures("the given slice is returned", len(r) == len(out) && samebase(r, out))
	ensures("the values of the interpolator", all(k, 0, len(xs), biSpec(bi, xs[k], ys[k], out[k])))
}

func Gen_Client_BiLinearEvalAll(r *vpRng) (*BiLinear, []float64, []float64) {
	bi, _, _ := Gen_Contract_BiLinearEval(r)
	n := r.Range(0, 5)
	return bi, genIns(r, &bi.xs, n), genIns(r, &bi.ys, n)
}

func genIns(r *vpRng, s *searcher, n int) []float64 {
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = genIn(r, s)
	}
	return xs
}

func Gen_Client_BiLinearEvalAllOut(r *vpRng) (*BiLinear, []float64, []float64, []float64) {
	bi, xs, ys := Gen_Client_BiLinearEvalAll(r)
	return bi, xs, ys, r.Floats(len(xs))
}

// ---------------------------------------------------------------- three dimensions

// line3 is the linear function along x in the row of cells that starts at k.
func line3(tri *TriLinear, i, k int, x float64) float64 {
	return lerp(knot(&tri.xs, i), tri.vals[k], knot(&tri.xs, i+1), tri.vals[k+1], x)
}

// plane3 is the bilinear function of the cell face that starts at k.
func plane3(tri *TriLinear, i, j, k int, x, y float64) float64 {
	return lerp(knot(&tri.ys, j), line3(tri, i, k, x), knot(&tri.ys, j+1), line3(tri, i, k+tri.xs.n, x), y)
}

// cellVal3 is the trilinear function of cell (i, j, l) at (x, y, z).
func cellVal3(tri *TriLinear, i, j, l int, x, y, z float64) float64 {
	k := i + tri.xs.n*j + tri.xs.n*tri.ys.n*l
	return lerp(knot(&tri.zs, l), plane3(tri, i, j, k, x, y),
		knot(&tri.zs, l+1), plane3(tri, i, j, k+tri.xs.n*tri.ys.n, x, y), z)
}

// triSpec: r is the value at (x, y, z) of the trilinear function of a cell
// that contains the point.
//
//verif:rec
func triSpec(tri *TriLinear, x, y, z, r float64) bool {
	return ex(i, 0, tri.xs.n-1, ex(j, 0, tri.ys.n-1, ex(l, 0, tri.zs.n-1,
		inCell(&tri.xs, i, x) && inCell(&tri.ys, j, y) && inCell(&tri.zs, l, z) &&
			feqTol(r, cellVal3(tri, i, j, l, x, y, z), 100))))
}

//verif:lemma
func lemma_index3(i, j, l, nx, ny, nz int) {
	requires(0 <= i && i < nx && 0 <= j && j < ny && 0 <= l && l < nz)
	lemma_index2(i, j, nx, ny)
	lemma_index2(i+nx*j, l, nx*ny, nz)
	ensures("inside", 0 <= i+nx*j+nx*ny*l && i+nx*j+nx*ny*l < nx*ny*nz)
}

//verif:contract TriLinear.Eval
//verif:opaque knot
//verif:prune
//verif:property C05
func Contract_TriLinearEval(tri *TriLinear, x, y, z float64) {
	requires(okTri(tri))
	lemma_knots(&tri.xs)
	lemma_knots(&tri.ys)
	lemma_knots(&tri.zs)
	always(func(i, j, l int) { lemma_index3(i, j, l, tri.xs.n, tri.ys.n, tri.zs.n) })
	panicsWhen(!inRange(&tri.xs, x) || !inRange(&tri.ys, y) || !inRange(&tri.zs, z))
	r := tri.Eval(x, y, z)
	ensures("the trilinear function of a cell around the point", triSpec(tri, x, y, z, r))
}

func Gen_Contract_TriLinearEval(r *vpRng) (*TriLinear, float64, float64, float64) {
	tri := &TriLinear{xs: *genTable(r), ys: *genTable(r), zs: *genTable(r)}
	tri.nx, tri.ny = tri.xs.n, tri.ys.n
	tri.vals = r.Floats(tri.xs.n * tri.ys.n * tri.zs.n)
	return tri, genIn(r, &tri.xs), genIn(r, &tri.ys), genIn(r, &tri.zs)
}

//verif:annot TriLinear.EvalAll
func Annot_TriLinearEvalAll() {
	loop(0, "all(m, 0, k, triSpec(tri, xs[m], ys[m], zs[m], out[0][m]))")
}

//verif:client
//verif:property C05
func Client_TriLinear(xs, ys, zs, vals []float64, x, y, z float64) {
	requires(len(xs) >= 2 && (ascending(xs) || descending(xs)))
	requires(len(ys) >= 2 && (ascending(ys) || descending(ys)))
	requires(len(zs) >= 2 && (ascending(zs) || descending(zs)))
	panicsWhen(len(xs)*len(ys)*len(zs) != len(vals) || !between(xs[0], x, xs[len(xs)-1]) ||
		!between(ys[0], y, ys[len(ys)-1]) || !between(zs[0], z, zs[len(zs)-1]))
	tri := NewTriLinear(xs, ys, zs, vals)
	ensures("the invariant is established", okTri(tri))
	ensures("the table is the one given", all(k, 0, len(xs), knot(&tri.xs, k) == xs[k]) &&
		all(k, 0, len(ys), knot(&tri.ys, k) == ys[k]) && all(k, 0, len(zs), knot(&tri.zs, k) == zs[k]) &&
		all(k, 0, len(vals), tri.vals[k] == vals[k]))
	r := NewTriLinearInterpolator(xs, ys, zs, vals).Eval(x, y, z)
	ensures("the trilinear function of a cell around the point", triSpec(tri, x, y, z, r))
}

func Gen_Client_TriLinear(r *vpRng) ([]float64, []float64, []float64, []float64, float64, float64, float64) {
	s, t, u := genKnots(r), genKnots(r), genKnots(r)
	n := s.n * t.n * u.n
	if r.Intn(8) == 0 {
		n = r.Range(0, n+2)
	}
	return s.xs, t.xs, u.xs, r.Floats(n), genIn(r, s), genIn(r, t), genIn(r, u)
}

//verif:client
//verif:property C05
func Client_UniformTriLinear(x0, dx float64, nx int, y0, dy float64, ny int, z0, dz float64, nz int, vals []float64, x, y, z float64) {
	requires(nx >= 2 && ny >= 2 && nz >= 2 && dx != 0 && dy != 0 && dz != 0)
	panicsWhen(nx*ny*nz != len(vals) || !between(x0, x, float64(nx-1)*dx+x0) ||
		!between(y0, y, float64(ny-1)*dy+y0) || !between(z0, z, float64(nz-1)*dz+z0))
	tri := NewUniformTriLinear(x0, dx, nx, y0, dy, ny, z0, dz, nz, vals)
	ensures("the invariant is established", okTri(tri))
	ensures("the table is the one given", all(k, 0, nx, feq(knot(&tri.xs, k), x0+float64(k)*dx)) &&
		all(k, 0, ny, feq(knot(&tri.ys, k), y0+float64(k)*dy)) && all(k, 0, nz, feq(knot(&tri.zs, k), z0+float64(k)*dz)) &&
		all(k, 0, len(vals), tri.vals[k] == vals[k]))
	r := NewUniformTriLinearInterpolator(x0, dx, nx, y0, dy, ny, z0, dz, nz, vals).Eval(x, y, z)
	ensures("the trilinear function of a cell around the point", triSpec(tri, x, y, z, r))
}

func Gen_Client_UniformTriLinear(r *vpRng) (float64, float64, int, float64, float64, int, float64, float64, int, []float64, float64, float64, float64) {
	s, t, u := genUnif(r), genUnif(r), genUnif(r)
	n := s.n * t.n * u.n
	if r.Intn(8) == 0 {
		n = r.Range(0, n+2)
	}
	return s.x0, s.dx, s.n, t.x0, t.dx, t.n, u.x0, u.dx, u.n, r.Floats(n), genIn(r, s), genIn(r, t), genIn(r, u)
}

//verif:client
//verif:opaque triSpec
//verif:property C05
func Client_TriLinearEvalAll(tri *TriLinear, xs, ys, zs []float64) {
	requires(okTri(tri) && okXs(&tri.xs, xs) && okXs(&tri.ys, ys) && okXs(&tri.zs, zs) && len(xs) == len(ys) && len(xs) == len(zs))
	r := tri.EvalAll(xs, ys, zs)
	ensures("one value per point", len(r) == len(xs))
	ensures("the values of the interpolator", all(k, 0, len(xs), triSpec(tri, xs[k], ys[k], zs[k], r[k])))
}

//verif:client
//verif:opaque triSpec
//verif:property C05
func Client_TriLinearEvalAllOut(tri *TriLinear, xs, ys, zs, out []float64) {
	requires(okTri(tri) && okXs(&tri.xs, xs) && okXs(&tri.ys, ys) && okXs(&tri.zs, zs) && len(xs) == len(ys) && len(xs) == len(zs) && len(out) == len(xs))
	r := tri.EvalAll(xs, ys, zs, out)
	ensures("the given slice is returned", len(r) == len(out) && samebase(r, out))
	ensures("the values of the interpolator", all(k, 0, len(xs), triSpec(tri, xs[k], ys[k], zs[k], out[k])))
}

func Gen_Client_TriLinearEvalAll(r *vpRng) (*TriLinear, []float64, []float64, []float64) {
	tri, _, _, _ := Gen_Contract_TriLinearEval(r)
	n := r.Range(0, 4)
	return tri, genIns(r, &tri.xs, n), genIns(r, &tri.ys, n), genIns(r, &tri.zs, n)
}

func Gen_Client_TriLinearEvalAllOut(r *vpRng) (*TriLinear, []float64, []float64, []float64, []float64) {
	tri, xs, ys, zs := Gen_Client_TriLinearEvalAll(r)
	return tri, xs, ys, zs, r.Floats(len(xs))
}
