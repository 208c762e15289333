package geom

// ---------------------------------------------------------------- cells of a slice
//
// The coordinates of the k-th cell, counted from the corner of the grid, and
// back. A is the number of cells of a plane.

//verif:rec
func px(k, L int) int { return k % L }

//verif:rec
func py(k, L, A int) int { return (k % A) / L }

//verif:rec
func pz(k, A int) int { return k / A }

//verif:rec
func gi(x, y, z, L, A int) int { return x + y*L + z*A }

func pos(k, axis, L, A int) int {
	if axis == 0 {
		return px(k, L)
	}
	if axis == 1 {
		return py(k, L, A)
	}
	return pz(k, A)
}

func stride(axis, L, A int) int {
	if axis == 0 {
		return 1
	}
	if axis == 1 {
		return L
	}
	return A
}

//verif:lemma
//verif:property C18
func lemma_cell(k, L, W1, W2, A int) {
	requires(L >= 1 && W1 >= 1 && W2 >= 1 && A == L*W1 && 0 <= k && k < A*W2)
	lemma_euclid(k, L)
	lemma_euclid(k, A)
	lemma_euclid(k%A, L)
	lemma_quotient(k, A, W2)
	lemma_quotient(k%A, L, W1)
	b := (k % A) / L
	c := k / A
	lemma_divmod(b+W1*c, k%A-L*b, L)
	ensures("the coordinates are in the grid", 0 <= px(k, L) && px(k, L) < L && 0 <= py(k, L, A) && py(k, L, A) < W1 && 0 <= pz(k, A) && pz(k, A) < W2)
	ensures("the cell is recovered", gi(px(k, L), py(k, L, A), pz(k, A), L, A) == k)
}

//verif:lemma
//verif:property C18
func lemma_at(x, y, z, L, W1, W2, A int) {
	requires(0 <= x && x < L && 0 <= y && y < W1 && 0 <= z && z < W2 && A == L*W1)
	lemma_rowmajor(x, y, z, L, W1, W2)
	lemma_divmod(z, x+L*y, A)
	lemma_divmod(y+W1*z, x, L)
	lemma_divmod(y, x, L)
	i := x + y*L + z*A
	ensures("the cell is in the grid", 0 <= i && i < A*W2)
	ensures("the index", gi(x, y, z, L, A) == i)
	ensures("the coordinates", px(i, L) == x && py(i, L, A) == y && pz(i, A) == z)
}

// lemma_step: a step along an axis that stays in the grid.
//
//verif:lemma
//verif:split axis=0|1|2
//verif:property C18
func lemma_step(x, y, z, m, axis, L, W1, W2, A int) {
	requires(0 <= x && x < L && 0 <= y && y < W1 && 0 <= z && z < W2 && A == L*W1)
	i := x + y*L + z*A
	if axis == 0 && 0 <= x+m && x+m < L {
		lemma_rowmajor(x+m, y, z, L, W1, W2)
		assert("in the grid", 0 <= i+m && i+m < A*W2)
	}
	if axis == 1 && 0 <= y+m && y+m < W1 {
		lemma_rowmajor(x, y+m, z, L, W1, W2)
		assert("in the grid", 0 <= i+m*L && i+m*L < A*W2)
	}
	if axis == 2 && 0 <= z+m && z+m < W2 {
		lemma_rowmajor(x, y, z+m, L, W1, W2)
		assert("in the grid", 0 <= i+m*A && i+m*A < A*W2)
	}
	c := pick(axis == 0, x, pick(axis == 1, y, z))
	w := pick(axis == 0, L, pick(axis == 1, W1, W2))
	ensures("the cell reached is in the grid", imp(0 <= c+m && c+m < w, 0 <= i+m*stride(axis, L, A) && i+m*stride(axis, L, A) < A*W2))
}

// ---------------------------------------------------------------- finite differences

// cell reads the value m cells further along an axis.
func cell(vals []float32, k, m, di int) float64 { return float64(vals[k+m*di]) }

// ring reads it with the axis closed to a ring of w cells.
func ring(vals []float32, k, m, di, p, w int) float64 {
	if p+m < 0 {
		return float64(vals[k+(w+m)*di])
	}
	if p+m >= w {
		return float64(vals[k-(w-m)*di])
	}
	return float64(vals[k+m*di])
}

// diffOf is the finite difference at a cell at position p of w.
//
//verif:rec
func diffOf(vals []float32, k, p, w, di, order int, h float64, wrap bool) float64 {
	return stencil(vals, k, p, w, di, order, h, wrap)
}

//verif:lemma
//verif:split order=2|4
//verif:property C18
func lemma_diff(vals []float32, k, p, w, di, order int, h float64, wrap bool) {
	ensures("the definition", feq(diffOf(vals, k, p, w, di, order, h, wrap), stencil(vals, k, p, w, di, order, h, wrap)))
}

func stencil(vals []float32, k, p, w, di, order int, h float64, wrap bool) float64 {
	if order == 2 {
		if wrap || 1 <= p && p < w-1 {
			return (ring(vals, k, 1, di, p, w) - ring(vals, k, -1, di, p, w)) / (2 * h)
		}
		if p == 0 {
			return (-3*cell(vals, k, 0, di) + 4*cell(vals, k, 1, di) - cell(vals, k, 2, di)) / (2 * h)
		}
		return -(-3*cell(vals, k, 0, di) + 4*cell(vals, k, -1, di) - cell(vals, k, -2, di)) / (2 * h)
	}
	if wrap || 2 <= p && p < w-2 {
		return (-ring(vals, k, 2, di, p, w) + 8*ring(vals, k, 1, di, p, w) - 8*ring(vals, k, -1, di, p, w) + ring(vals, k, -2, di, p, w)) / (12 * h)
	}
	if p == 0 {
		return (-25*cell(vals, k, 0, di) + 48*cell(vals, k, 1, di) - 36*cell(vals, k, 2, di) + 16*cell(vals, k, 3, di) - 3*cell(vals, k, 4, di)) / (12 * h)
	}
	if p == 1 {
		return (-3*cell(vals, k, -1, di) - 10*cell(vals, k, 0, di) + 18*cell(vals, k, 1, di) - 6*cell(vals, k, 2, di) + cell(vals, k, 3, di)) / (12 * h)
	}
	if p == w-2 {
		return -(-3*cell(vals, k, 1, di) - 10*cell(vals, k, 0, di) + 18*cell(vals, k, -1, di) - 6*cell(vals, k, -2, di) + cell(vals, k, -3, di)) / (12 * h)
	}
	return -(-25*cell(vals, k, 0, di) + 48*cell(vals, k, -1, di) - 36*cell(vals, k, -2, di) + 16*cell(vals, k, -3, di) - 3*cell(vals, k, -4, di)) / (12 * h)
}

func combine(op DerivOp, old, d float64) float64 {
	if op == Add {
		return old + d
	}
	if op == Subtract {
		return old - d
	}
	return d
}

// derivAt says what a cell of the output is: done cells have their finite
// difference, the others are unchanged.
func derivAt(g *Grid, vals, out, out0 []float32, k, axis int, op DerivOp, order int, h float64, wrap, done bool) bool {
	d := diffOf(vals, k, pos(k, axis, g.Length, g.Area), g.Width[axis], stride(axis, g.Length, g.Area), order, h, wrap)
	return near(float64(out[k]), pick(done, combine(op, float64(out0[k]), d), float64(out0[k])), 100)
}

func inner(p, w, order int) bool { return order/2 <= p && p < w-order/2 }

// before3: cell k comes before the cell (x, y, z) of a nest of loops.
func before3(g *Grid, k, x, y, z int) bool {
	return px(k, g.Length) < x || px(k, g.Length) == x && (py(k, g.Length, g.Area) < y || py(k, g.Length, g.Area) == y && pz(k, g.Area) < z)
}

// flatDone: the inner cells before (x, y, z) are done.
func flatDone(g *Grid, vals, out, out0 []float32, axis int, op DerivOp, order int, h float64, x, y, z int) bool {
	return all(k, 0, len(out0), derivAt(g, vals, out, out0, k, axis, op, order, h, false, inner(pos(k, axis, g.Length, g.Area), g.Width[axis], order) && before3(g, k, x, y, z)))
}

// base is what the six ways of storing a difference share.
func base(d derivTaker) *derivBase {
	switch t := d.(type) {
	case *deriv2:
		return &t.derivBase
	case *deriv2Add:
		return &t.derivBase
	case *deriv2Sub:
		return &t.derivBase
	case *deriv4:
		return &t.derivBase
	case *deriv4Add:
		return &t.derivBase
	case *deriv4Sub:
		return &t.derivBase
	}
	return nil
}

func spacing(d derivTaker, order int) float64 {
	return pick(order == 2, float64(base(d).denom)/2, float64(base(d).denom)/12)
}

// seen: positions whose cells are done before step s of the edges.
func seen(p, w, order, s int) bool {
	return pick(s < 0, w-order/2 <= p && p < w+s, w-order/2 <= p || p < s-1)
}

// before2: cell k comes before (u, v) of the two loops over a plane.
func before2(g *Grid, k, axis, u, v int) bool {
	a := pick(axis == 2, py(k, g.Length, g.Area), pz(k, g.Area))
	b := pick(axis == 0, py(k, g.Length, g.Area), px(k, g.Length))
	return a < u || a == u && b < v
}

func edgeDone(g *Grid, d derivTaker, out0 []float32, axis int, opt *DerivOptions, s, at, u, v int, wrap bool) bool {
	return all(k, 0, len(out0), derivAt(g, base(d).vals, base(d).out, out0, k, axis, opt.Op, opt.Order, spacing(d, opt.Order), wrap,
		seen(pos(k, axis, g.Length, g.Area), g.Width[axis], opt.Order, s) || pos(k, axis, g.Length, g.Area) == at && before2(g, k, axis, u, v)))
}

func stepUses(x, y, z, axis int, g *Grid, d derivTaker, opt *DerivOptions, wrap bool) {
	lemma_diff(base(d).vals, x+y*g.Length+z*g.Area, pick(axis == 0, x, pick(axis == 1, y, z)), g.Width[axis], stride(axis, g.Length, g.Area), opt.Order, spacing(d, opt.Order), wrap)
	L, W1, W2, A := g.Length, g.Width[1], g.Width[2], g.Area
	lemma_at(x, y, z, L, W1, W2, A)
	lemma_step(x, y, z, 1, axis, L, W1, W2, A)
	lemma_step(x, y, z, 2, axis, L, W1, W2, A)
	lemma_step(x, y, z, 3, axis, L, W1, W2, A)
	lemma_step(x, y, z, 4, axis, L, W1, W2, A)
	lemma_step(x, y, z, -1, axis, L, W1, W2, A)
	lemma_step(x, y, z, -2, axis, L, W1, W2, A)
	lemma_step(x, y, z, -3, axis, L, W1, W2, A)
	lemma_step(x, y, z, -4, axis, L, W1, W2, A)
	w := g.Width[axis]
	lemma_step(x, y, z, w-1, axis, L, W1, W2, A)
	lemma_step(x, y, z, w-2, axis, L, W1, W2, A)
	lemma_step(x, y, z, 1-w, axis, L, W1, W2, A)
	lemma_step(x, y, z, 2-w, axis, L, W1, W2, A)
}

//verif:annot Grid.edgesDeriv
func Annot_edgesDeriv() {
	loop(0, "when(axis != 2): edgeDone(g, d, old(base(d).out), axis, opt, pos, aIdx, z, 0, false)",
		"when(axis == 2): edgeDone(g, d, old(base(d).out), axis, opt, pos, aIdx, y, 0, false)")
	loop(1, "when(axis == 0): edgeDone(g, d, old(base(d).out), axis, opt, pos, aIdx, z, y, false)",
		"when(axis == 1): edgeDone(g, d, old(base(d).out), axis, opt, pos, aIdx, z, x, false)",
		"when(axis == 2): edgeDone(g, d, old(base(d).out), axis, opt, pos, aIdx, y, x, false)",
		"use: stepUses(x, y, z, axis, g, d, opt, false)")
}

//verif:annot Grid.wrapDeriv
func Annot_wrapDeriv() {
	loop(0, "when(axis != 2): edgeDone(g, d, old(base(d).out), axis, opt, pos, aIdx, z, 0, true)",
		"when(axis == 2): edgeDone(g, d, old(base(d).out), axis, opt, pos, aIdx, y, 0, true)")
	loop(1, "when(axis == 0): edgeDone(g, d, old(base(d).out), axis, opt, pos, aIdx, z, y, true)",
		"when(axis == 1): edgeDone(g, d, old(base(d).out), axis, opt, pos, aIdx, z, x, true)",
		"when(axis == 2): edgeDone(g, d, old(base(d).out), axis, opt, pos, aIdx, y, x, true)",
		"use: stepUses(x, y, z, axis, g, d, opt, true)")
}

//verif:contract GridLocation.Deriv
//verif:split axis=0|1|2 opt.Op=0|1|2 opt.Order=2|4
//verif:opaque px py pz gi diffOf
//verif:property C18
func Contract_Deriv(g *GridLocation, vals, out []float32, axis int, opt *DerivOptions) {
	requires(okGrid(&g.Grid) && g.Width[axis] > opt.Order && g.BoxWidth > 0 && g.Cells >= 1)
	requires(len(vals) == g.Volume && len(out) == g.Volume)
	always(func(k int) { lemma_cell(k, g.Length, g.Width[1], g.Width[2], g.Area) })
	h := g.BoxWidth / float64(g.Cells)
	out0 := snap(out)
	modifies(out)
	loop(0, "flatDone(&g.Grid, vals, out, old(out), axis, opt.Op, opt.Order, dx, x, 0, 0)")
	loop(1, "flatDone(&g.Grid, vals, out, old(out), axis, opt.Op, opt.Order, dx, x, y, 0)")
	loop(2, "flatDone(&g.Grid, vals, out, old(out), axis, opt.Op, opt.Order, dx, x, y, z)",
		"use: lemma_at(x, y, z, g.Length, g.Width[1], g.Width[2], g.Area)",
		"use: lemma_diff(vals, x+y*g.Length+z*g.Area, pick(axis == 0, x, pick(axis == 1, y, z)), g.Width[axis], di, opt.Order, dx, false)",
		"use: lemma_step(x, y, z, 1, axis, g.Length, g.Width[1], g.Width[2], g.Area)",
		"use: lemma_step(x, y, z, 2, axis, g.Length, g.Width[1], g.Width[2], g.Area)",
		"use: lemma_step(x, y, z, -1, axis, g.Length, g.Width[1], g.Width[2], g.Area)",
		"use: lemma_step(x, y, z, -2, axis, g.Length, g.Width[1], g.Width[2], g.Area)")
	g.Deriv(vals, out, axis, opt)
	wrap := opt.Periodic && g.Cells == g.Width[axis]
	always(func(k int) {
		lemma_ring(vals, k, pos(k, axis, g.Length, g.Area), g.Width[axis], stride(axis, g.Length, g.Area), opt.Order, h)
	})
	ensures("every cell has its finite difference, wrapped around the box", imp(wrap, all(k, 0, len(out), derivAt(&g.Grid, vals, out, out0, k, axis, opt.Op, opt.Order, h, true, true))))
	ensures("every cell has its finite difference, one-sided at the edges", imp(!wrap, all(k, 0, len(out), derivAt(&g.Grid, vals, out, out0, k, axis, opt.Op, opt.Order, h, false, true))))
}

// lemma_ring: inside the grid the ring makes no difference.
//
//verif:lemma
//verif:split order=2|4
//verif:property C18
func lemma_ring(vals []float32, k, p, w, di, order int, h float64) {
	ensures("the same difference", imp(inner(p, w, order), feq(diffOf(vals, k, p, w, di, order, h, true), diffOf(vals, k, p, w, di, order, h, false))))
}

// ---------------------------------------------------------------- exactness
//
// What the differences are good for: they are exact for polynomials of their
// order. f has the value c0 + c1 t + ... + c4 t^4 at the cell t steps away.

func poly(c0, c1, c2, c3, c4, t float64) float64 {
	return c0 + t*(c1+t*(c2+t*(c3+t*c4)))
}

func sampled(vals []float32, k, p, w, di int, h, c0, c1, c2, c3, c4 float64) bool {
	return all(m, -4, 5, imp(0 <= p+m && p+m < w, near(cell(vals, k, m, di), poly(c0, c1, c2, c3, c4, float64(m)*h), 1000)))
}

//verif:client
//verif:split order=2|4
//verif:property C18
func Client_Exactness(vals []float32, k, p, w, di, order int, h, c0, c1, c2, c3, c4 float64) {
	requires(h > 0 && 0 <= p && p < w && w > order && di >= 1 && 0 <= k-p*di && k+(w-1-p)*di < len(vals))
	requires(sampled(vals, k, p, w, di, h, c0, c1, c2, c3, c4))
	requires(imp(order == 2, c3 == 0 && c4 == 0))
	ensures("exact for polynomials of the order of the difference", near(stencil(vals, k, p, w, di, order, h, false), c1, 1000/h))
}

// ---------------------------------------------------------------- vector fields

func okField(g *GridLocation, vecs [3][]float32) bool {
	return len(vecs[0]) == g.Volume && len(vecs[1]) == g.Volume && len(vecs[2]) == g.Volume
}

func okLocation(g *GridLocation, order int) bool {
	return okGrid(&g.Grid) && all(i, 0, 3, g.Width[i] > order) && g.BoxWidth > 0 && g.Cells >= 1
}

// diffAt is the derivative along an axis at the k-th cell.
func diffAt(g *GridLocation, vals []float32, k, axis int, opt *DerivOptions) float64 {
	return diffOf(vals, k, pos(k, axis, g.Length, g.Area), g.Width[axis], stride(axis, g.Length, g.Area), opt.Order,
		g.BoxWidth/float64(g.Cells), opt.Periodic && g.Cells == g.Width[axis])
}

func plus(op DerivOp, old float64) float64 { return pick(op == Add, old, 0) }

//verif:client
//verif:split opt.Op=0|2 opt.Order=2|4
//verif:opaque px py pz gi diffOf
//verif:property C18
func Client_Curl(g *GridLocation, vecs, out [3][]float32, opt *DerivOptions) {
	requires(okLocation(g, opt.Order) && okField(g, vecs) && okField(g, out))
	o0, o1, o2, opt0 := snap(out[0]), snap(out[1]), snap(out[2]), *opt
	v0, v1, v2 := snap(vecs[0]), snap(vecs[1]), snap(vecs[2])
	g.Curl(vecs, out, opt)
	ensures("the first component", all(k, 0, g.Volume, near(float64(out[0][k]), plus(opt.Op, float64(o0[k]))+diffAt(g, v2, k, 1, opt)-diffAt(g, v1, k, 2, opt), 100)))
	ensures("the second component", all(k, 0, g.Volume, near(float64(out[1][k]), plus(opt.Op, float64(o1[k]))+diffAt(g, v0, k, 2, opt)-diffAt(g, v2, k, 0, opt), 100)))
	ensures("the third component", all(k, 0, g.Volume, near(float64(out[2][k]), plus(opt.Op, float64(o2[k]))+diffAt(g, v1, k, 0, opt)-diffAt(g, v0, k, 1, opt), 100)))
	ensures("the options are unchanged", *opt == opt0)
	ensures("the field is unchanged", all(k, 0, g.Volume, v0[k] == vecs[0][k] && v1[k] == vecs[1][k] && v2[k] == vecs[2][k]))
}

//verif:client
//verif:split opt.Op=0|2 opt.Order=2|4
//verif:opaque px py pz gi diffOf
//verif:property C18
func Client_Divergence(g *GridLocation, vecs [3][]float32, out []float32, opt *DerivOptions) {
	requires(okLocation(g, opt.Order) && okField(g, vecs) && len(out) == g.Volume)
	o, opt0 := snap(out), *opt
	v0, v1, v2 := snap(vecs[0]), snap(vecs[1]), snap(vecs[2])
	g.Divergence(vecs, out, opt)
	ensures("the sum of the three derivatives", all(k, 0, g.Volume, near(float64(out[k]), plus(opt.Op, float64(o[k]))+diffAt(g, v0, k, 0, opt)+diffAt(g, v1, k, 1, opt)+diffAt(g, v2, k, 2, opt), 100)))
	ensures("the options are unchanged", *opt == opt0)
	ensures("the field is unchanged", all(k, 0, g.Volume, v0[k] == vecs[0][k] && v1[k] == vecs[1][k] && v2[k] == vecs[2][k]))
}

//verif:client
//verif:split opt.Op=0|1|2 opt.Order=2|4
//verif:opaque px py pz gi diffOf
//verif:property C18
func Client_Gradient(g *GridLocation, vals []float32, out [3][]float32, opt *DerivOptions) {
	requires(okLocation(g, opt.Order) && len(vals) == g.Volume && okField(g, out))
	o0, o1, o2, opt0 := snap(out[0]), snap(out[1]), snap(out[2]), *opt
	v := snap(vals)
	g.Gradient(vals, out, opt)
	ensures("the first component", all(k, 0, g.Volume, near(float64(out[0][k]), combine(opt.Op, float64(o0[k]), diffAt(g, v, k, 0, opt)), 100)))
	ensures("the second component", all(k, 0, g.Volume, near(float64(out[1][k]), combine(opt.Op, float64(o1[k]), diffAt(g, v, k, 1, opt)), 100)))
	ensures("the third component", all(k, 0, g.Volume, near(float64(out[2][k]), combine(opt.Op, float64(o2[k]), diffAt(g, v, k, 2, opt)), 100)))
	ensures("the options are unchanged", *opt == opt0)
	ensures("the values are unchanged", all(k, 0, g.Volume, v[k] == vals[k]))
}

// Without options the differences are of fourth order, one-sided at the edges
// and replace the output.
//
//verif:client
//verif:split axis=0|1|2
//verif:inline Deriv
//verif:opaque px py pz gi diffOf
//verif:property C18
func Client_DerivDefault(g *GridLocation, vals, out []float32, axis int) {
	requires(okLocation(g, 4) && len(vals) == g.Volume && len(out) == g.Volume)
	always(func(k int) { lemma_cell(k, g.Length, g.Width[1], g.Width[2], g.Area) })
	out0, v := snap(out), snap(vals)
	g.Deriv(vals, out, axis, nil)
	ensures("fourth order, one-sided at the edges", all(k, 0, len(out), derivAt(&g.Grid, v, out, out0, k, axis, None, 4, g.BoxWidth/float64(g.Cells), false, true)))
	ensures("the default is still the default", !DerivOptionsDefault.Periodic && DerivOptionsDefault.Op == None && DerivOptionsDefault.Order == 4)
}

//verif:client
//verif:opaque px py pz gi diffOf
//verif:property C18
func Client_FieldDefaults(g *GridLocation, vecs, out [3][]float32) {
	requires(okLocation(g, 4) && okField(g, vecs) && okField(g, out))
	opt := &DerivOptions{false, None, 4}
	v0, v1, v2 := snap(vecs[0]), snap(vecs[1]), snap(vecs[2])
	g.Curl(vecs, out, nil)
	ensures("the curl", all(k, 0, g.Volume, near(float64(out[0][k]), diffAt(g, v2, k, 1, opt)-diffAt(g, v1, k, 2, opt), 100) &&
		near(float64(out[1][k]), diffAt(g, v0, k, 2, opt)-diffAt(g, v2, k, 0, opt), 100) &&
		near(float64(out[2][k]), diffAt(g, v1, k, 0, opt)-diffAt(g, v0, k, 1, opt), 100)))
	g.Divergence(vecs, out[0], nil)
	ensures("the divergence", all(k, 0, g.Volume, near(float64(out[0][k]), diffAt(g, v0, k, 0, opt)+diffAt(g, v1, k, 1, opt)+diffAt(g, v2, k, 2, opt), 100)))
	g.Gradient(vecs[1], out, nil)
	ensures("the gradient", all(k, 0, g.Volume, all(a, 0, 3, near(float64(out[a][k]), diffAt(g, v1, k, a, opt), 100))))
	ensures("the default is still the default", !DerivOptionsDefault.Periodic && DerivOptionsDefault.Op == None && DerivOptionsDefault.Order == 4)
}

func genLocation(r *vpRng, order int) *GridLocation {
	w := [3]int{r.Range(order+1, order+3), r.Range(order+1, order+3), r.Range(order+1, order+3)}
	return NewGridLocation([3]int{r.Range(0, 2), r.Range(0, 2), r.Range(0, 2)}, w, float64(r.Range(1, 4)), r.Range(order+1, order+3))
}

func genVals(r *vpRng, n int) []float32 {
	xs := make([]float32, n)
	for i := range xs {
		xs[i] = float32(r.Range(-8, 8)) / 4
	}
	return xs
}

func genOpt(r *vpRng) *DerivOptions {
	return &DerivOptions{Periodic: r.Intn(3) > 0, Op: DerivOp(r.Range(0, 2)), Order: 2 * r.Range(1, 2)}
}

func Gen_Contract_Deriv(r *vpRng) (*GridLocation, []float32, []float32, int, *DerivOptions) {
	opt := genOpt(r)
	g := genLocation(r, opt.Order)
	return g, genVals(r, g.Volume), genVals(r, g.Volume), r.Range(0, 2), opt
}

func genField(r *vpRng, n int) [3][]float32 {
	return [3][]float32{genVals(r, n), genVals(r, n), genVals(r, n)}
}

func Gen_Client_Curl(r *vpRng) (*GridLocation, [3][]float32, [3][]float32, *DerivOptions) {
	opt := genOpt(r)
	opt.Op = []DerivOp{Add, None}[r.Intn(2)]
	g := genLocation(r, opt.Order)
	return g, genField(r, g.Volume), genField(r, g.Volume), opt
}

func Gen_Client_Divergence(r *vpRng) (*GridLocation, [3][]float32, []float32, *DerivOptions) {
	g, v, o, opt := Gen_Client_Curl(r)
	return g, v, o[0], opt
}

func Gen_Client_Gradient(r *vpRng) (*GridLocation, []float32, [3][]float32, *DerivOptions) {
	opt := genOpt(r)
	g := genLocation(r, opt.Order)
	return g, genVals(r, g.Volume), genField(r, g.Volume), opt
}

func Gen_Client_DerivDefault(r *vpRng) (*GridLocation, []float32, []float32, int) {
	g := genLocation(r, 4)
	return g, genVals(r, g.Volume), genVals(r, g.Volume), r.Range(0, 2)
}

func Gen_Client_Exactness(r *vpRng) ([]float32, int, int, int, int, int, float64, float64, float64, float64, float64, float64) {
	order := 2 * r.Range(1, 2)
	w := r.Range(order+1, order+4)
	p := r.Range(0, w-1)
	di := r.Range(1, 3)
	h := float64(r.Range(1, 4)) / 2
	c := [5]float64{}
	for i := 0; i <= order; i++ {
		c[i] = float64(r.Range(-4, 4)) / 4
	}
	vals := make([]float32, w*di)
	for i := 0; i < w; i++ {
		vals[i*di] = float32(poly(c[0], c[1], c[2], c[3], c[4], float64(i-p)*h))
	}
	return vals, p * di, p, w, di, order, h, c[0], c[1], c[2], c[3], c[4]
}

func Gen_Client_FieldDefaults(r *vpRng) (*GridLocation, [3][]float32, [3][]float32) {
	g := genLocation(r, 4)
	return g, genField(r, g.Volume), genField(r, g.Volume)
}

// ---------------------------------------------------------------- for other packages

// SpecLocation: a grid on which fourth-order differences are defined.
func SpecLocation(g *GridLocation) bool { return okLocation(g, 4) }

// SpecDiff is the fourth-order difference along an axis, closed to a ring
// when the grid spans the box.
func SpecDiff(g *GridLocation, vals []float32, k, axis int) float64 {
	return diffAt(g, vals, k, axis, &DerivOptions{true, None, 4})
}

// SpecSteps: the cells the difference reads are cells of the grid.
func SpecSteps(g *GridLocation, k, axis int) {
	L, W1, W2, A := g.Length, g.Width[1], g.Width[2], g.Area
	lemma_cell(k, L, W1, W2, A)
	x, y, z := px(k, L), py(k, L, A), pz(k, A)
	w := g.Width[axis]
	lemma_step(x, y, z, 1, axis, L, W1, W2, A)
	lemma_step(x, y, z, 2, axis, L, W1, W2, A)
	lemma_step(x, y, z, 3, axis, L, W1, W2, A)
	lemma_step(x, y, z, 4, axis, L, W1, W2, A)
	lemma_step(x, y, z, -1, axis, L, W1, W2, A)
	lemma_step(x, y, z, -2, axis, L, W1, W2, A)
	lemma_step(x, y, z, -3, axis, L, W1, W2, A)
	lemma_step(x, y, z, -4, axis, L, W1, W2, A)
	lemma_step(x, y, z, w-1, axis, L, W1, W2, A)
	lemma_step(x, y, z, w-2, axis, L, W1, W2, A)
	lemma_step(x, y, z, 1-w, axis, L, W1, W2, A)
	lemma_step(x, y, z, 2-w, axis, L, W1, W2, A)
}

// SpecX, SpecY and SpecZ are the coordinates of cell k of a grid with rows of
// L cells and planes of A cells, SpecIdx is the cell at given coordinates.
func SpecX(k, L int) int               { return px(k, L) }
func SpecY(k, L, A int) int            { return py(k, L, A) }
func SpecZ(k, A int) int               { return pz(k, A) }
func SpecIdx(x, y, z, L, A int) int    { return gi(x, y, z, L, A) }
func SpecCell(k, L, W1, W2, A int)     { lemma_cell(k, L, W1, W2, A) }
func SpecAt(x, y, z, L, W1, W2, A int) { lemma_at(x, y, z, L, W1, W2, A) }
