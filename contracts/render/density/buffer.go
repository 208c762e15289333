package density

import "github.com/phil-mansfield/gotetra/render/geom"

// ---------------------------------------------------------------- quantities

func isQuantity(q Quantity) bool { return 0 <= q && q < EndQuantity }

func needsVelocity(q Quantity) bool {
	return q == Velocity || q == VelocityDivergence || q == VelocityCurl
}

//verif:contract Quantity.String
//verif:paths
//verif:property C19
func Contract_String(q Quantity) {
	panicsWhen(!isQuantity(q))
	s := q.String()
	r, ok := QuantityFromString(s)
	ensures("the name of a quantity names it", ok && r == q)
}

//verif:client
//verif:paths
//verif:property C19
func Client_FromString(s string) {
	q, ok := QuantityFromString(s)
	if ok {
		ensures("a name that is recognised is the name of the quantity", isQuantity(q) && q.String() == s)
	}
}

//verif:contract Quantity.RequiresVelocity
//verif:property C19
func Contract_RequiresVelocity(q Quantity) {
	panicsWhen(!isQuantity(q))
	ensures("the velocity quantities need velocities", q.RequiresVelocity() == needsVelocity(q))
}

//verif:contract Quantity.CanProject
//verif:property C19
func Contract_CanProject(q Quantity) {
	panicsWhen(!isQuantity(q))
	ensures("sums can be projected, derivatives cannot", q.CanProject() == (q == Density || q == Velocity))
}

func Gen_Contract_String(r *vpRng) Quantity           { return Quantity(r.Range(-1, 6)) }
func Gen_Contract_RequiresVelocity(r *vpRng) Quantity { return Quantity(r.Range(-1, 6)) }
func Gen_Contract_CanProject(r *vpRng) Quantity       { return Quantity(r.Range(-1, 6)) }
func Gen_Client_FromString(r *vpRng) string {
	return []string{"Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl", "density", ""}[r.Intn(7)]
}

// ---------------------------------------------------------------- buffers

func zero3(v [3]float64) bool { return v[0] == 0 && v[1] == 0 && v[2] == 0 }

// isZero: every value and count is zero.
func isZero(b Buffer) bool {
	s, _ := b.ScalarBuffer()
	v, _ := b.VectorBuffer()
	c, _ := b.CountBuffer()
	return all(i, 0, len(s), s[i] == 0) && all(i, 0, len(v), zero3(v[i])) && all(i, 0, len(c), c[i] == 0)
}

// shape: the arrays the quantity needs, one entry per cell.
func shape(b Buffer, q Quantity, n int) bool {
	s, sok := b.ScalarBuffer()
	v, vok := b.VectorBuffer()
	c, cok := b.CountBuffer()
	return b.Quantity() == q && b.Length() == n && sok == !needsVelocity(q) && vok == needsVelocity(q) && cok == needsVelocity(q) &&
		len(s) == pick(sok, n, 0) && len(v) == pick(vok, n, 0) && len(c) == pick(cok, n, 0)
}

//verif:client
//verif:split q=0|1|2|3|4
//verif:property C19
func Client_NewBuffer(q Quantity, n, m int, g *geom.GridLocation) {
	requires(n >= 0 && m >= 0)
	b := NewBuffer(q, n, m, g)
	ensures("the arrays of the quantity, one entry per cell", shape(b, q, n))
	ensures("all zero", isZero(b))
}

func Gen_Client_NewBuffer(r *vpRng) (Quantity, int, int, *geom.GridLocation) {
	return Quantity(r.Range(0, 4)), r.Range(0, 5), r.Range(0, 3), nil
}

//verif:client
//verif:property C19
func Client_BadQuantity(q Quantity, n, m int, g *geom.GridLocation) {
	requires(n >= 0 && m >= 0)
	panicsWhen(!isQuantity(q))
	NewBuffer(q, n, m, g)
}

func Gen_Client_BadQuantity(r *vpRng) (Quantity, int, int, *geom.GridLocation) {
	return Quantity(r.Range(-1, 6)), r.Range(0, 5), r.Range(0, 3), nil
}

// filled is a buffer with the given contents.
func filled(q Quantity, n, m int, g *geom.GridLocation, s []float64, v [][3]float64, c []int) Buffer {
	b := NewBuffer(q, n, m, g)
	if t, ok := b.ScalarBuffer(); ok {
		copy(t, s)
	}
	if t, ok := b.VectorBuffer(); ok {
		copy(t, v)
	}
	if t, ok := b.CountBuffer(); ok {
		copy(t, c)
	}
	return b
}

//verif:client
//verif:split q=0|1|2|3|4
//verif:property C19
func Client_Clear(q Quantity, n, m int, s []float64, v [][3]float64, c []int) {
	requires(n >= 0 && m >= 0 && len(s) == n && len(v) == n && len(c) == n)
	b := filled(q, n, m, nil, s, v, c)
	b.Clear()
	ensures("the shape is the same", shape(b, q, n))
	ensures("all zero", isZero(b))
}

func genContents(r *vpRng, n int) ([]float64, [][3]float64, []int) {
	s, v, c := make([]float64, n), make([][3]float64, n), make([]int, n)
	for i := range s {
		s[i], c[i] = r.Float(), r.Range(0, 3)
		v[i] = [3]float64{float64(r.Range(-8, 8)), float64(r.Range(-8, 8)), float64(r.Range(-8, 8))}
	}
	return s, v, c
}

func Gen_Client_Clear(r *vpRng) (Quantity, int, int, []float64, [][3]float64, []int) {
	n := r.Range(0, 5)
	s, v, c := genContents(r, n)
	return Quantity(r.Range(0, 4)), n, r.Range(0, 3), s, v, c
}

//verif:client
//verif:split q=0|1|2|3|4
//verif:property C19
func Client_Slice(q Quantity, n, m, lo, hi int, s []float64, v [][3]float64, c []int) {
	requires(n >= 0 && m >= 0 && len(s) == n && len(v) == n && len(c) == n && 0 <= lo && lo <= hi && hi <= n)
	b := filled(q, n, m, nil, s, v, c)
	b.Slice(lo, hi)
	s1, _ := b.ScalarBuffer()
	v1, _ := b.VectorBuffer()
	c1, _ := b.CountBuffer()
	ensures("the length of the part", shape(b, q, hi-lo))
	ensures("the values of the part", all(i, 0, len(s1), s1[i] == s[lo+i]) && all(i, 0, len(v1), v1[i] == v[lo+i]))
	ensures("the counts of the part", all(i, 0, len(c1), c1[i] == c[lo+i]))
	if lo == 0 {
		b.Slice(0, n)
		s2, _ := b.ScalarBuffer()
		v2, _ := b.VectorBuffer()
		c2, _ := b.CountBuffer()
		ensures("the rest is still there", shape(b, q, n) && all(i, 0, len(s2), s2[i] == s[i]) && all(i, 0, len(v2), v2[i] == v[i]) && all(i, 0, len(c2), c2[i] == c[i]))
	}
}

func Gen_Client_Slice(r *vpRng) (Quantity, int, int, int, int, []float64, [][3]float64, []int) {
	n := r.Range(0, 5)
	s, v, c := genContents(r, n)
	lo := r.Range(0, n)
	return Quantity(r.Range(0, 4)), n, r.Range(0, 3), lo, r.Range(lo, n), s, v, c
}

//verif:client
//verif:property C19
func Client_Wrapper(rhos []float64) {
	r0 := snap(rhos)
	b := WrapperDensityBuffer(rhos)
	s, ok := b.ScalarBuffer()
	ensures("a density buffer", shape(b, Density, len(rhos)) && ok)
	ensures("it shares the values", len(s) == len(rhos) && imp(len(s) > 0, samebase(s, rhos)) && all(i, 0, len(s), s[i] == r0[i]))
}

//verif:client
//verif:property C19
func Client_NilBuffer() {
	s, ok := NilBuffer.ScalarBuffer()
	ensures("empty", NilBuffer.Length() == 0 && ok && len(s) == 0)
}

//verif:client
//verif:split q=2|3|4
//verif:property C19
func Client_SetVectors(q Quantity, n, m int, xs []geom.Vec) {
	requires(0 <= len(xs) && len(xs) <= n && m >= 0)
	b := NewBuffer(q, n, m, nil)
	ok := b.SetVectors(xs)
	v, _ := b.VectorBuffer()
	ensures("vectors are set", ok && shape(b, q, n) && all(i, 0, len(xs), all(j, 0, 3, v[i][j] == float64(xs[i][j]))) && all(i, len(xs), n, zero3(v[i])))
}

func Gen_Client_SetVectors(r *vpRng) (Quantity, int, int, []geom.Vec) {
	n := r.Range(0, 5)
	xs := make([]geom.Vec, r.Range(0, n))
	for i := range xs {
		xs[i] = geom.Vec{float32(r.Range(-4, 4)), float32(r.Range(-4, 4)), float32(r.Range(-4, 4))}
	}
	return Quantity(r.Range(2, 4)), n, r.Range(0, 3), xs
}

//verif:client
//verif:split q=0|1
//verif:property C19
func Client_NoVectors(q Quantity, n int, xs []geom.Vec, s []float64) {
	requires(n >= 0 && len(s) == n)
	b := filled(q, n, 0, nil, s, nil, nil)
	ok := b.SetVectors(xs)
	t, _ := b.ScalarBuffer()
	ensures("a scalar buffer takes no vectors", !ok && shape(b, q, n) && all(i, 0, n, t[i] == s[i]))
}

func Gen_Client_NoVectors(r *vpRng) (Quantity, int, []geom.Vec, []float64) {
	n := r.Range(0, 5)
	return Quantity(r.Range(0, 1)), n, make([]geom.Vec, r.Range(0, n)), r.Floats(n)
}

// ---------------------------------------------------------------- results

//verif:client
//verif:property C19
func Client_FinalDensity(n int, s []float64) {
	requires(n >= 0 && len(s) == n)
	b := filled(Density, n, 0, nil, s, nil, nil)
	out, ok := b.FinalizedScalarBuffer()
	xs, ys, zs, vok := b.FinalizedVectorBuffer()
	ensures("the sums", ok && len(out) == n && all(i, 0, n, out[i] == float32(s[i])))
	ensures("no vectors", !vok && xs == nil && ys == nil && zs == nil)
	t, _ := b.ScalarBuffer()
	ensures("the buffer is unchanged", shape(b, Density, n) && all(i, 0, n, t[i] == s[i]))
}

func Gen_Client_FinalDensity(r *vpRng) (int, []float64) {
	n := r.Range(0, 5)
	return n, r.Floats(n)
}

// mean is what a cell of a velocity buffer holds: the mean of the velocities,
// zero when there were none.
func mean(sum float64, n int) float64 {
	if n == 0 {
		return 0
	}
	return sum / float64(n)
}

func agrees(a float32, b float64) bool { return feqTol(float64(a), b, 1e4) }

//verif:client
//verif:property C19
func Client_FinalVelocity(n, m int, v [][3]float64, c []int) {
	requires(n >= 0 && m >= 0 && len(v) == n && len(c) == n && all(i, 0, n, c[i] >= 0))
	b := filled(Velocity, n, m, nil, nil, v, c)
	xs, ys, zs, ok := b.FinalizedVectorBuffer()
	out, sok := b.FinalizedScalarBuffer()
	ensures("one entry per cell", ok && len(xs) == n && len(ys) == n && len(zs) == n)
	ensures("the mean velocities", all(i, 0, n, agrees(xs[i], mean(v[i][0], c[i])) && agrees(ys[i], mean(v[i][1], c[i])) && agrees(zs[i], mean(v[i][2], c[i]))))
	ensures("no scalars", !sok && out == nil)
	t, _ := b.VectorBuffer()
	d, _ := b.CountBuffer()
	ensures("the buffer is unchanged", shape(b, Velocity, n) && all(i, 0, n, t[i] == v[i]) && all(i, 0, n, d[i] == c[i]))
}

func Gen_Client_FinalVelocity(r *vpRng) (int, int, [][3]float64, []int) {
	n := r.Range(0, 40)
	_, v, c := genContents(r, n)
	return n, r.Range(0, 3), v, c
}

func toFloat32(s []float64) []float32 {
	out := make([]float32, len(s))
	for i := range s {
		out[i] = float32(s[i])
	}
	return out
}

// located: the location is given when the buffer is made or set later.
func located(late bool, g *geom.GridLocation) *geom.GridLocation {
	if late {
		return nil
	}
	return g
}

// means of the velocities along an axis.
func meansOf(v [][3]float64, c []int, axis int) []float32 {
	out := make([]float32, len(v))
	for i := range v {
		out[i] = float32(mean(v[i][axis], c[i]))
	}
	return out
}

//verif:client
//verif:opaque geom.px geom.py geom.pz geom.gi
//verif:congr geom.diffOf
//verif:split late=true|false
//verif:property C19
func Client_FinalGradient(late bool, g *geom.GridLocation, s []float64) {
	requires(geom.SpecLocation(g) && len(s) == g.Volume)
	n := g.Volume
	v := toFloat32(s)
	b := filled(DensityGradient, n, 0, located(late, g), s, nil, nil)
	if late {
		b.SetGridLocation(g)
	}
	xs, ys, zs, ok := b.FinalizedVectorBuffer()
	out, sok := b.FinalizedScalarBuffer()
	ensures("one entry per cell", ok && len(xs) == n && len(ys) == n && len(zs) == n)
	ensures("no scalars", !sok && out == nil)
	t, _ := b.ScalarBuffer()
	ensures("the buffer is unchanged", shape(b, DensityGradient, n) && all(i, 0, n, t[i] == s[i]))
	always(func(k int) {
		geom.SpecSteps(g, k, 0)
		geom.SpecSteps(g, k, 1)
		geom.SpecSteps(g, k, 2)
	})
	ensures("the gradient along x", all(k, 0, n, agrees(xs[k], geom.SpecDiff(g, v, k, 0))))
	ensures("the gradient along y", all(k, 0, n, agrees(ys[k], geom.SpecDiff(g, v, k, 1))))
	ensures("the gradient along z", all(k, 0, n, agrees(zs[k], geom.SpecDiff(g, v, k, 2))))
}

//verif:client
//verif:opaque geom.px geom.py geom.pz geom.gi
//verif:congr geom.diffOf
//verif:split late=true|false
//verif:property C19
func Client_FinalDivergence(late bool, g *geom.GridLocation, m int, v [][3]float64, c []int) {
	requires(geom.SpecLocation(g) && len(v) == g.Volume && len(c) == g.Volume && m >= 0 && all(i, 0, g.Volume, c[i] >= 0))
	n := g.Volume
	mx, my, mz := meansOf(v, c, 0), meansOf(v, c, 1), meansOf(v, c, 2)
	b := filled(VelocityDivergence, n, m, located(late, g), nil, v, c)
	if late {
		b.SetGridLocation(g)
	}
	out, ok := b.FinalizedScalarBuffer()
	xs, ys, zs, vok := b.FinalizedVectorBuffer()
	ensures("one entry per cell", ok && len(out) == n)
	ensures("no vectors", !vok && xs == nil && ys == nil && zs == nil)
	t, _ := b.VectorBuffer()
	d, _ := b.CountBuffer()
	ensures("the buffer is unchanged", shape(b, VelocityDivergence, n) && all(i, 0, n, t[i] == v[i]) && all(i, 0, n, d[i] == c[i]))
	always(func(k int) {
		geom.SpecSteps(g, k, 0)
		geom.SpecSteps(g, k, 1)
		geom.SpecSteps(g, k, 2)
	})
	ensures("the divergence of the mean velocities", all(k, 0, n, agrees(out[k], geom.SpecDiff(g, mx, k, 0)+geom.SpecDiff(g, my, k, 1)+geom.SpecDiff(g, mz, k, 2))))
}

//verif:client
//verif:opaque geom.px geom.py geom.pz geom.gi
//verif:congr geom.diffOf
//verif:split late=true|false
//verif:property C19
func Client_FinalCurl(late bool, g *geom.GridLocation, m int, v [][3]float64, c []int) {
	requires(geom.SpecLocation(g) && len(v) == g.Volume && len(c) == g.Volume && m >= 0 && all(i, 0, g.Volume, c[i] >= 0))
	n := g.Volume
	mx, my, mz := meansOf(v, c, 0), meansOf(v, c, 1), meansOf(v, c, 2)
	b := filled(VelocityCurl, n, m, located(late, g), nil, v, c)
	if late {
		b.SetGridLocation(g)
	}
	xs, ys, zs, ok := b.FinalizedVectorBuffer()
	out, sok := b.FinalizedScalarBuffer()
	ensures("one entry per cell", ok && len(xs) == n && len(ys) == n && len(zs) == n)
	ensures("no scalars", !sok && out == nil)
	t, _ := b.VectorBuffer()
	d, _ := b.CountBuffer()
	ensures("the buffer is unchanged", shape(b, VelocityCurl, n) && all(i, 0, n, t[i] == v[i]) && all(i, 0, n, d[i] == c[i]))
	always(func(k int) {
		geom.SpecSteps(g, k, 0)
		geom.SpecSteps(g, k, 1)
		geom.SpecSteps(g, k, 2)
	})
	ensures("the curl along x", all(k, 0, n, agrees(xs[k], geom.SpecDiff(g, mz, k, 1)-geom.SpecDiff(g, my, k, 2))))
	ensures("the curl along y", all(k, 0, n, agrees(ys[k], geom.SpecDiff(g, mx, k, 2)-geom.SpecDiff(g, mz, k, 0))))
	ensures("the curl along z", all(k, 0, n, agrees(zs[k], geom.SpecDiff(g, my, k, 0)-geom.SpecDiff(g, mx, k, 1))))
}

func genLocation(r *vpRng) *geom.GridLocation {
	w := [3]int{r.Range(5, 7), r.Range(5, 7), r.Range(5, 7)}
	return geom.NewGridLocation([3]int{r.Range(0, 2), r.Range(0, 2), r.Range(0, 2)}, w, float64(r.Range(1, 4)), r.Range(5, 7))
}

func Gen_Client_FinalGradient(r *vpRng) (bool, *geom.GridLocation, []float64) {
	g := genLocation(r)
	s := make([]float64, g.Volume)
	for i := range s {
		s[i] = float64(r.Range(-8, 8)) / 4
	}
	return r.Intn(2) == 0, g, s
}

func Gen_Client_FinalDivergence(r *vpRng) (bool, *geom.GridLocation, int, [][3]float64, []int) {
	return Gen_Client_FinalCurl(r)
}

func Gen_Client_FinalCurl(r *vpRng) (bool, *geom.GridLocation, int, [][3]float64, []int) {
	g := genLocation(r)
	_, v, c := genContents(r, g.Volume)
	return r.Intn(2) == 0, g, r.Range(0, 3), v, c
}

// ---------------------------------------------------------------- for other packages

// SpecLocationOf is the location of the grid whose derivatives a buffer
// finalizes, if any.
func SpecLocationOf(b Buffer) *geom.GridLocation {
	switch t := b.(type) {
	case *gradientBuffer:
		return t.g
	case *divergenceBuffer:
		return t.g
	case *curlBuffer:
		return t.g
	}
	return nil
}

// SpecShape: the arrays the quantity needs, one entry per cell, all zero.
func SpecShape(b Buffer, q Quantity, n int) bool { return shape(b, q, n) && isZero(b) }
