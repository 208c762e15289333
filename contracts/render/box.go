package render

import (
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

// ---------------------------------------------------------------- buffers

func vector(q density.Quantity) bool {
	return q == density.Velocity || q == density.VelocityDivergence || q == density.VelocityCurl
}

// holding is a buffer with the given contents.
func holding(q density.Quantity, n int, s []float64, v [][3]float64, c []int) density.Buffer {
	b := density.NewBuffer(q, n, 0, nil)
	if t, ok := b.ScalarBuffer(); ok {
		copy(t, s)
	}
	if t, ok := b.VectorBuffer(); ok {
		copy(t, v)
	}
	if t, ok := b.CountBuffer(); ok {
		copy(t, c)
	}
	return b
}

func sameShape(b density.Buffer, q density.Quantity, n int) bool {
	s, sok := b.ScalarBuffer()
	v, vok := b.VectorBuffer()
	c, cok := b.CountBuffer()
	return b.Length() == n && sok == !vector(q) && vok == vector(q) && cok == vector(q) &&
		len(s) == pick(sok, n, 0) && len(v) == pick(vok, n, 0) && len(c) == pick(cok, n, 0)
}

// same: a buffer holds exactly these contents.
func same(b density.Buffer, q density.Quantity, n int, s []float64, v [][3]float64, c []int) bool {
	s1, _ := b.ScalarBuffer()
	v1, _ := b.VectorBuffer()
	c1, _ := b.CountBuffer()
	return sameShape(b, q, n) && all(i, 0, len(s1), s1[i] == s[i]) && all(i, 0, len(v1), v1[i] == v[i]) && all(i, 0, len(c1), c1[i] == c[i])
}

// ---------------------------------------------------------------- overlaps

// okSpan: cells of the box, at most all of them once.
func okSpan(cb *geom.CellBounds, cells int) bool {
	return cells >= 1 && all(j, 0, 3, 0 <= cb.Origin[j] && cb.Origin[j] < cells && 1 <= cb.Width[j] && cb.Width[j] <= cells)
}

// from is the coordinate along an axis, counted from the origin of the buffer,
// of the cell at coordinate x counted from the origin of the domain.
func from(b *baseOverlap, axis, x int) int {
	i := x - (b.bufCb.Origin[axis] - b.domCb.Origin[axis])
	return pick(i < 0, i+b.cells, pick(i >= b.cells, i-b.cells, i))
}

// onto is its inverse.
func onto(b *baseOverlap, axis, i int) int {
	x := i + (b.bufCb.Origin[axis] - b.domCb.Origin[axis])
	return pick(x < 0, x+b.cells, pick(x >= b.cells, x-b.cells, x))
}

// axes of the image plane.
func rowAxis(proj int) int { return pick(proj == 0, 1, 0) }
func colAxis(proj int) int { return pick(proj == 2, 1, 2) }

func bx3(b *baseOverlap, k int) int { return from(b, 0, geom.SpecX(k, b.domCb.Width[0])) }
func by3(b *baseOverlap, k int) int {
	return from(b, 1, geom.SpecY(k, b.domCb.Width[0], b.domCb.Width[0]*b.domCb.Width[1]))
}
func bz3(b *baseOverlap, k int) int {
	return from(b, 2, geom.SpecZ(k, b.domCb.Width[0]*b.domCb.Width[1]))
}

// hit3: domain cell k lies in the buffer.
func hit3(b *baseOverlap, k int) bool {
	return bx3(b, k) < b.bufCb.Width[0] && by3(b, k) < b.bufCb.Width[1] && bz3(b, k) < b.bufCb.Width[2]
}

// cell3 is the cell of the buffer.
func cell3(b *baseOverlap, k int) int {
	return geom.SpecIdx(bx3(b, k), by3(b, k), bz3(b, k), b.bufCb.Width[0], b.bufCb.Width[0]*b.bufCb.Width[1])
}

func first3(b *baseOverlap, k, z, y, x int) bool {
	return bz3(b, k) < z || bz3(b, k) == z && (by3(b, k) < y || by3(b, k) == y && bx3(b, k) < x)
}

func scalars3(b *baseOverlap, grid, grid0, buf []float64, z, y, x int) bool {
	return all(k, 0, len(grid), imp(!(hit3(b, k) && first3(b, k, z, y, x)), grid[k] == grid0[k]) &&
		imp(hit3(b, k) && first3(b, k, z, y, x), grid[k] == grid0[k]+buf[cell3(b, k)]))
}

func vectors3(b *baseOverlap, grid, grid0, buf [][3]float64, z, y, x int) bool {
	return all(k, 0, len(grid), imp(!(hit3(b, k) && first3(b, k, z, y, x)), grid[k] == grid0[k]) &&
		imp(hit3(b, k) && first3(b, k, z, y, x), grid[k][0] == grid0[k][0]+buf[cell3(b, k)][0] &&
			grid[k][1] == grid0[k][1]+buf[cell3(b, k)][1] && grid[k][2] == grid0[k][2]+buf[cell3(b, k)][2]))
}

func counts3(b *baseOverlap, grid, grid0, buf []int, z, y, x int) bool {
	return all(k, 0, len(grid), imp(!(hit3(b, k) && first3(b, k, z, y, x)), grid[k] == grid0[k]) &&
		imp(hit3(b, k) && first3(b, k, z, y, x), grid[k] == grid0[k]+buf[cell3(b, k)]))
}

func atUses3(b *baseOverlap, xBuf, yBuf, zBuf int) {
	L, W1, W2 := b.domCb.Width[0], b.domCb.Width[1], b.domCb.Width[2]
	x, y, z := onto(b, 0, xBuf), onto(b, 1, yBuf), onto(b, 2, zBuf)
	if x < L && y < W1 && z < W2 {
		geom.SpecAt(x, y, z, L, W1, W2, L*W1)
	}
	M, V1, V2 := b.bufCb.Width[0], b.bufCb.Width[1], b.bufCb.Width[2]
	geom.SpecAt(xBuf, yBuf, zBuf, M, V1, V2, M*V1)
}

//verif:annot segmentOverlap3D.Add
func Annot_segmentAdd3() {
	loop(0, "when(!valid): scalars3(&w.baseOverlap, grid, old(grid), buf, zBuf, 0, 0)",
		"when(valid): vectors3(&w.baseOverlap, grid, old(grid), buf, zBuf, 0, 0)",
		"when(valid): counts3(&w.baseOverlap, gridNum, old(gridNum), bufNum, zBuf, 0, 0)")
	loop(1, "when(!valid): scalars3(&w.baseOverlap, grid, old(grid), buf, zBuf, yBuf, 0)",
		"when(valid): vectors3(&w.baseOverlap, grid, old(grid), buf, zBuf, yBuf, 0)",
		"when(valid): counts3(&w.baseOverlap, gridNum, old(gridNum), bufNum, zBuf, yBuf, 0)")
	loop(2, "when(!valid): scalars3(&w.baseOverlap, grid, old(grid), buf, zBuf, yBuf, xBuf)",
		"when(valid): vectors3(&w.baseOverlap, grid, old(grid), buf, zBuf, yBuf, xBuf)",
		"when(valid): counts3(&w.baseOverlap, gridNum, old(gridNum), bufNum, zBuf, yBuf, xBuf)",
		"use: atUses3(&w.baseOverlap, xBuf, yBuf, zBuf)")
}

//verif:client
//verif:split q=0|2
//verif:opaque geom.px geom.py geom.pz geom.gi
//verif:property C20
func Client_SegmentAdd3D(w *segmentOverlap3D, q density.Quantity, s, s0 []float64, v, v0 [][3]float64, c, c0 []int) {
	requires(okSpan(&w.domCb, w.cells) && okSpan(&w.bufCb, w.cells))
	n := w.domCb.Width[0] * w.domCb.Width[1] * w.domCb.Width[2]
	m := w.bufCb.Width[0] * w.bufCb.Width[1] * w.bufCb.Width[2]
	requires(len(s) == m && len(v) == m && len(c) == m && len(s0) == n && len(v0) == n && len(c0) == n)
	buf, grid := holding(q, m, s, v, c), holding(q, n, s0, v0, c0)
	W := w.domCb.Width
	V := w.bufCb.Width
	always(func(k int) {
		geom.SpecCell(k, W[0], W[1], W[2], W[0]*W[1])
		if hit3(&w.baseOverlap, k) {
			geom.SpecAt(bx3(&w.baseOverlap, k), by3(&w.baseOverlap, k), bz3(&w.baseOverlap, k), V[0], V[1], V[2], V[0]*V[1])
		}
	})
	w.Add(buf, grid)
	sums, _ := grid.ScalarBuffer()
	vecs, _ := grid.VectorBuffer()
	nums, _ := grid.CountBuffer()
	b := &w.baseOverlap
	ensures("scalars of shared cells are added", scalars3(b, sums, s0, s, w.bufCb.Width[2], 0, 0))
	ensures("vectors of shared cells are added", vectors3(b, vecs, v0, v, w.bufCb.Width[2], 0, 0))
	ensures("counts of shared cells are added", counts3(b, nums, c0, c, w.bufCb.Width[2], 0, 0))
	ensures("the buffer is unchanged", same(buf, q, m, s, v, c))
	ensures("the shape is the same", sameShape(grid, q, n))
}

func Gen_Client_SegmentAdd3D(r *vpRng) (*segmentOverlap3D, density.Quantity, []float64, []float64, [][3]float64, [][3]float64, []int, []int) {
	w := &segmentOverlap3D{}
	genBase(r, &w.baseOverlap)
	n := w.domCb.Width[0] * w.domCb.Width[1] * w.domCb.Width[2]
	m := w.bufCb.Width[0] * w.bufCb.Width[1] * w.bufCb.Width[2]
	s, v, c := genContents(r, m)
	s0, v0, c0 := genContents(r, n)
	return w, density.Quantity(2 * r.Range(0, 1)), s, s0, v, v0, c, c0
}

func genBase(r *vpRng, b *baseOverlap) {
	b.cells = r.Range(1, 6)
	b.boxWidth = float64(b.cells) * []float64{1, 0.5, 2}[r.Intn(3)]
	for j := 0; j < 3; j++ {
		b.domCb.Origin[j], b.bufCb.Origin[j] = r.Range(0, b.cells-1), r.Range(0, b.cells-1)
		b.domCb.Width[j], b.bufCb.Width[j] = r.Range(1, b.cells), r.Range(1, b.cells)
	}
}

func genContents(r *vpRng, n int) ([]float64, [][3]float64, []int) {
	s, v, c := make([]float64, n), make([][3]float64, n), make([]int, n)
	for i := range s {
		s[i], c[i] = float64(r.Range(-8, 8)), r.Range(0, 3)
		v[i] = [3]float64{float64(r.Range(-8, 8)), float64(r.Range(-8, 8)), float64(r.Range(-8, 8))}
	}
	return s, v, c
}

// The image of a projection has a row for every cell along one axis and a
// column for every cell along the other.

func bi2(b *baseOverlap, proj, k int) int {
	return from(b, rowAxis(proj), geom.SpecX(k, b.domCb.Width[rowAxis(proj)]))
}
func bj2(b *baseOverlap, proj, k int) int {
	L, W := b.domCb.Width[rowAxis(proj)], b.domCb.Width[colAxis(proj)]
	return from(b, colAxis(proj), geom.SpecY(k, L, L*W))
}

// hit2: pixel k lies in the buffer.
func hit2(b *baseOverlap, proj, k int) bool {
	return bi2(b, proj, k) < b.bufCb.Width[rowAxis(proj)] && bj2(b, proj, k) < b.bufCb.Width[colAxis(proj)]
}

// pixel2 is the pixel of the buffer.
func pixel2(b *baseOverlap, proj, k int) int {
	L, W := b.bufCb.Width[rowAxis(proj)], b.bufCb.Width[colAxis(proj)]
	return geom.SpecIdx(bi2(b, proj, k), bj2(b, proj, k), 0, L, L*W)
}

func first2(b *baseOverlap, proj, k, j, i int) bool {
	return bj2(b, proj, k) < j || bj2(b, proj, k) == j && bi2(b, proj, k) < i
}

func scalars2(b *baseOverlap, proj int, grid, grid0, buf []float64, j, i int) bool {
	return all(k, 0, len(grid), imp(!(hit2(b, proj, k) && first2(b, proj, k, j, i)), grid[k] == grid0[k]) &&
		imp(hit2(b, proj, k) && first2(b, proj, k, j, i), grid[k] == grid0[k]+buf[pixel2(b, proj, k)]))
}

func vectors2(b *baseOverlap, proj int, grid, grid0, buf [][3]float64, j, i int) bool {
	return all(k, 0, len(grid), imp(!(hit2(b, proj, k) && first2(b, proj, k, j, i)), grid[k] == grid0[k]) &&
		imp(hit2(b, proj, k) && first2(b, proj, k, j, i), grid[k][0] == grid0[k][0]+buf[pixel2(b, proj, k)][0] &&
			grid[k][1] == grid0[k][1]+buf[pixel2(b, proj, k)][1] && grid[k][2] == grid0[k][2]+buf[pixel2(b, proj, k)][2]))
}

func counts2(b *baseOverlap, proj int, grid, grid0, buf []int, j, i int) bool {
	return all(k, 0, len(grid), imp(!(hit2(b, proj, k) && first2(b, proj, k, j, i)), grid[k] == grid0[k]) &&
		imp(hit2(b, proj, k) && first2(b, proj, k, j, i), grid[k] == grid0[k]+buf[pixel2(b, proj, k)]))
}

func atUses2(b *baseOverlap, proj, iBuf, jBuf int) {
	L, W := b.domCb.Width[rowAxis(proj)], b.domCb.Width[colAxis(proj)]
	i, j := onto(b, rowAxis(proj), iBuf), onto(b, colAxis(proj), jBuf)
	if i < L && j < W {
		geom.SpecAt(i, j, 0, L, W, 1, L*W)
	}
	M, V := b.bufCb.Width[rowAxis(proj)], b.bufCb.Width[colAxis(proj)]
	geom.SpecAt(iBuf, jBuf, 0, M, V, 1, M*V)
}

//verif:annot segmentOverlap2D.Add
func Annot_segmentAdd2() {
	loop(0, "when(!valid): scalars2(&w.baseOverlap, w.proj, grid, old(grid), buf, jBuf, 0)",
		"when(valid): vectors2(&w.baseOverlap, w.proj, grid, old(grid), buf, jBuf, 0)",
		"when(valid): counts2(&w.baseOverlap, w.proj, gridNum, old(gridNum), bufNum, jBuf, 0)")
	loop(1, "when(!valid): scalars2(&w.baseOverlap, w.proj, grid, old(grid), buf, jBuf, iBuf)",
		"when(valid): vectors2(&w.baseOverlap, w.proj, grid, old(grid), buf, jBuf, iBuf)",
		"when(valid): counts2(&w.baseOverlap, w.proj, gridNum, old(gridNum), bufNum, jBuf, iBuf)",
		"use: atUses2(&w.baseOverlap, w.proj, iBuf, jBuf)")
}

//verif:client
//verif:split q=0|2 w.baseOverlap2D.proj=0|1|2
//verif:opaque geom.px geom.py geom.pz geom.gi
//verif:property C20
func Client_SegmentAdd2D(w *segmentOverlap2D, q density.Quantity, s, s0 []float64, v, v0 [][3]float64, c, c0 []int) {
	requires(okSpan(&w.domCb, w.cells) && okSpan(&w.bufCb, w.cells))
	L, W := w.domCb.Width[rowAxis(w.proj)], w.domCb.Width[colAxis(w.proj)]
	n := L * W
	m := w.bufCb.Width[rowAxis(w.proj)] * w.bufCb.Width[colAxis(w.proj)]
	requires(len(s) == m && len(v) == m && len(c) == m && len(s0) == n && len(v0) == n && len(c0) == n)
	buf, grid := holding(q, m, s, v, c), holding(q, n, s0, v0, c0)
	always(func(k int) {
		geom.SpecCell(k, L, W, 1, L*W)
		if hit2(&w.baseOverlap, w.proj, k) {
			M, V := w.bufCb.Width[rowAxis(w.proj)], w.bufCb.Width[colAxis(w.proj)]
			geom.SpecAt(bi2(&w.baseOverlap, w.proj, k), bj2(&w.baseOverlap, w.proj, k), 0, M, V, 1, M*V)
		}
	})
	w.Add(buf, grid)
	sums, _ := grid.ScalarBuffer()
	vecs, _ := grid.VectorBuffer()
	nums, _ := grid.CountBuffer()
	b := &w.baseOverlap
	V := w.bufCb.Width[colAxis(w.proj)]
	ensures("scalars of shared pixels are added", scalars2(b, w.proj, sums, s0, s, V, 0))
	ensures("vectors of shared pixels are added", vectors2(b, w.proj, vecs, v0, v, V, 0))
	ensures("counts of shared pixels are added", counts2(b, w.proj, nums, c0, c, V, 0))
	ensures("the buffer is unchanged", same(buf, q, m, s, v, c))
	ensures("the shape is the same", sameShape(grid, q, n))
}

func Gen_Client_SegmentAdd2D(r *vpRng) (*segmentOverlap2D, density.Quantity, []float64, []float64, [][3]float64, [][3]float64, []int, []int) {
	w := &segmentOverlap2D{}
	genBase(r, &w.baseOverlap)
	w.proj = r.Range(0, 2)
	n := w.domCb.Width[rowAxis(w.proj)] * w.domCb.Width[colAxis(w.proj)]
	m := w.bufCb.Width[rowAxis(w.proj)] * w.bufCb.Width[colAxis(w.proj)]
	s, v, c := genContents(r, m)
	s0, v0, c0 := genContents(r, n)
	return w, density.Quantity(2 * r.Range(0, 1)), s, s0, v, v0, c, c0
}

// The buffer of a domain overlap has the cells of the domain.

func allAdded(grid density.Buffer, q density.Quantity, n int, s, s0 []float64, v, v0 [][3]float64, c, c0 []int) bool {
	s1, _ := grid.ScalarBuffer()
	v1, _ := grid.VectorBuffer()
	c1, _ := grid.CountBuffer()
	return sameShape(grid, q, n) && all(i, 0, len(s1), s1[i] == s0[i]+s[i]) && all(i, 0, len(c1), c1[i] == c0[i]+c[i]) &&
		all(i, 0, len(v1), v1[i][0] == v0[i][0]+v[i][0] && v1[i][1] == v0[i][1]+v[i][1] && v1[i][2] == v0[i][2]+v[i][2])
}

//verif:client
//verif:split q=0|1|2|3|4
//verif:property C20
func Client_DomainAdd3D(w *domainOverlap3D, q density.Quantity, n int, s, s0 []float64, v, v0 [][3]float64, c, c0 []int) {
	requires(n >= 0 && len(s) == n && len(v) == n && len(c) == n && len(s0) == n && len(v0) == n && len(c0) == n)
	buf, grid := holding(q, n, s, v, c), holding(q, n, s0, v0, c0)
	w.Add(buf, grid)
	ensures("every cell is added", allAdded(grid, q, n, s, s0, v, v0, c, c0))
	ensures("the buffer is unchanged", same(buf, q, n, s, v, c))
}

//verif:client
//verif:split q=0|1|2|3|4
//verif:property C20
func Client_DomainAdd2D(w *domainOverlap2D, q density.Quantity, n int, s, s0 []float64, v, v0 [][3]float64, c, c0 []int) {
	requires(n >= 0 && len(s) == n && len(v) == n && len(c) == n && len(s0) == n && len(v0) == n && len(c0) == n)
	buf, grid := holding(q, n, s, v, c), holding(q, n, s0, v0, c0)
	w.Add(buf, grid)
	ensures("every pixel is added", allAdded(grid, q, n, s, s0, v, v0, c, c0))
	ensures("the buffer is unchanged", same(buf, q, n, s, v, c))
}

func genAdd(r *vpRng) (density.Quantity, int, []float64, []float64, [][3]float64, [][3]float64, []int, []int) {
	n := r.Range(0, 5)
	s, v, c := genContents(r, n)
	s0, v0, c0 := genContents(r, n)
	return density.Quantity(r.Range(0, 4)), n, s, s0, v, v0, c, c0
}

func Gen_Client_DomainAdd3D(r *vpRng) (*domainOverlap3D, density.Quantity, int, []float64, []float64, [][3]float64, [][3]float64, []int, []int) {
	q, n, s, s0, v, v0, c, c0 := genAdd(r)
	return &domainOverlap3D{}, q, n, s, s0, v, v0, c, c0
}

func Gen_Client_DomainAdd2D(r *vpRng) (*domainOverlap2D, density.Quantity, int, []float64, []float64, [][3]float64, [][3]float64, []int, []int) {
	q, n, s, s0, v, v0, c, c0 := genAdd(r)
	return &domainOverlap2D{}, q, n, s, s0, v, v0, c, c0
}

// ---------------------------------------------------------------- deposition

func wrap(x, cells int) int { return pick(x < 0, x+cells, pick(x >= cells, x-cells, x)) }

func floor(x float32) int {
	n := int(x)
	return pick(float32(n) > x, n-1, n)
}

// along is the cell of the buffer along an axis: positions are counted from
// the origin of the segment, or, anywhere within one box width of the box, from
// the origin of the domain.
func along(b *baseOverlap, seg bool, pt geom.Vec, axis int) int {
	if seg {
		return floor(pt[axis])
	}
	return wrap(floor(pt[axis]), b.cells)
}

// depth is the cell of the domain along the axis of the projection.
func depth(b *baseOverlap, seg bool, pt geom.Vec, axis int) int {
	if seg {
		return wrap(floor(pt[axis])-(b.domCb.Origin[axis]-b.bufCb.Origin[axis]), b.cells)
	}
	return wrap(floor(pt[axis]), b.cells)
}

// lands: the particle is in the buffer and, for projections, in the domain
// along the axis of the projection.
func lands(b *baseOverlap, seg bool, proj int, pt geom.Vec) bool {
	if proj >= 0 {
		return along(b, seg, pt, rowAxis(proj)) < b.bufCb.Width[rowAxis(proj)] &&
			along(b, seg, pt, colAxis(proj)) < b.bufCb.Width[colAxis(proj)] &&
			depth(b, seg, pt, proj) < b.domCb.Width[proj]
	}
	return along(b, seg, pt, 0) < b.bufCb.Width[0] && along(b, seg, pt, 1) < b.bufCb.Width[1] && along(b, seg, pt, 2) < b.bufCb.Width[2]
}

func spot(b *baseOverlap, seg bool, proj int, pt geom.Vec) int {
	if proj >= 0 {
		L, W := b.bufCb.Width[rowAxis(proj)], b.bufCb.Width[colAxis(proj)]
		return geom.SpecIdx(along(b, seg, pt, rowAxis(proj)), along(b, seg, pt, colAxis(proj)), 0, L, L*W)
	}
	return geom.SpecIdx(along(b, seg, pt, 0), along(b, seg, pt, 1), along(b, seg, pt, 2), b.bufCb.Width[0], b.bufCb.Width[0]*b.bufCb.Width[1])
}

func at(b *baseOverlap, seg bool, proj int, pt geom.Vec, c int) bool {
	return lands(b, seg, proj, pt) && spot(b, seg, proj, pt) == c
}

func factor(ws []float64, weighted bool, i int) float64 {
	if weighted {
		return ws[i]
	}
	return 1
}

// share is what cell c gets from the particles i, i+jump, ... before high.
//
//verif:rec
func share(b *baseOverlap, seg bool, proj int, xs []geom.Vec, val float64, ws []float64, weighted bool, c, i, high, jump int) float64 {
	if i >= high || jump < 1 {
		return 0
	}
	if at(b, seg, proj, xs[i], c) {
		return val*factor(ws, weighted, i) + share(b, seg, proj, xs, val, ws, weighted, c, i+jump, high, jump)
	}
	return share(b, seg, proj, xs, val, ws, weighted, c, i+jump, high, jump)
}

//verif:rec
func shareV(b *baseOverlap, seg bool, proj int, xs []geom.Vec, val float64, vws [][3]float64, dim, c, i, high, jump int) float64 {
	if i >= high || jump < 1 {
		return 0
	}
	if at(b, seg, proj, xs[i], c) {
		return val*vws[i][dim] + shareV(b, seg, proj, xs, val, vws, dim, c, i+jump, high, jump)
	}
	return shareV(b, seg, proj, xs, val, vws, dim, c, i+jump, high, jump)
}

// landed is the number of them that land in cell c.
//
//verif:rec
func landed(b *baseOverlap, seg bool, proj int, xs []geom.Vec, c, i, high, jump int) int {
	if i >= high || jump < 1 {
		return 0
	}
	if at(b, seg, proj, xs[i], c) {
		return 1 + landed(b, seg, proj, xs, c, i+jump, high, jump)
	}
	return landed(b, seg, proj, xs, c, i+jump, high, jump)
}

// okPlace: positions in a segment are in its cells, positions in a domain
// anywhere within one box width of the box.
func okPlace(b *baseOverlap, seg bool, pt geom.Vec) bool {
	if seg {
		return all(j, 0, 3, 0 <= pt[j] && pt[j] < float32(b.bufCb.Width[j]))
	}
	return all(j, 0, 3, -float32(b.cells) <= pt[j] && pt[j] < 2*float32(b.cells))
}

func restS(b *baseOverlap, seg bool, proj int, xs []geom.Vec, val float64, ws []float64, weighted bool, buf, buf0 []float64, idx, low, high, jump int) bool {
	return all(k, 0, len(buf), buf[k]+share(b, seg, proj, xs, val, ws, weighted, k, idx, high, jump) == buf0[k]+share(b, seg, proj, xs, val, ws, weighted, k, low, high, jump))
}

func restV(b *baseOverlap, seg bool, proj int, xs []geom.Vec, val float64, vws [][3]float64, buf, buf0 [][3]float64, idx, low, high, jump int) bool {
	return all(k, 0, len(buf), all(d, 0, 3, buf[k][d]+shareV(b, seg, proj, xs, val, vws, d, k, idx, high, jump) == buf0[k][d]+shareV(b, seg, proj, xs, val, vws, d, k, low, high, jump)))
}

func restC(b *baseOverlap, seg bool, proj int, xs []geom.Vec, nums, nums0 []int, idx, low, high, jump int) bool {
	return all(k, 0, len(nums), nums[k]+landed(b, seg, proj, xs, k, idx, high, jump) == nums0[k]+landed(b, seg, proj, xs, k, low, high, jump))
}

func spotUses(b *baseOverlap, seg bool, proj int, pt geom.Vec) {
	if lands(b, seg, proj, pt) {
		if proj >= 0 {
			L, W := b.bufCb.Width[rowAxis(proj)], b.bufCb.Width[colAxis(proj)]
			geom.SpecAt(along(b, seg, pt, rowAxis(proj)), along(b, seg, pt, colAxis(proj)), 0, L, W, 1, L*W)
		} else {
			L, W1, W2 := b.bufCb.Width[0], b.bufCb.Width[1], b.bufCb.Width[2]
			geom.SpecAt(along(b, seg, pt, 0), along(b, seg, pt, 1), along(b, seg, pt, 2), L, W1, W2, L*W1)
		}
	}
}

// weightsFor are the weights of the particles: vectors for a vector buffer,
// scalars or none for a scalar buffer.
func weightsFor(q density.Quantity, weighted bool, ws []float64, vws [][3]float64) density.Buffer {
	if vector(q) {
		return holding(density.Velocity, len(vws), nil, vws, nil)
	}
	if weighted {
		return density.WrapperDensityBuffer(ws)
	}
	return density.NilBuffer
}

//verif:annot domainOverlap3D.Interpolate
func Annot_DomainInterpolate3D() {
	loop(0, "when(scalar): restS(&w.baseOverlap, false, -1, xs, ptVal, wbuf, wlen != 0, buf, old(buf), idx, low, high, jump)",
		"when(!scalar): restV(&w.baseOverlap, false, -1, xs, ptVal, vwbuf, vbuf, old(vbuf), idx, low, high, jump)",
		"when(!scalar): restC(&w.baseOverlap, false, -1, xs, counts, old(counts), idx, low, high, jump)",
		"use: spotUses(&w.baseOverlap, false, -1, xs[idx])")
}

//verif:client
//verif:split q=0|2 weighted=true|false
//verif:opaque geom.px geom.py geom.pz geom.gi
//verif:property C20
func Client_DomainInterpolate3D(w *domainOverlap3D, q density.Quantity, weighted bool, s []float64, v [][3]float64, c []int, xs []geom.Vec, ws []float64, vws [][3]float64, val float64, low, high, jump int) {
	requires(okSpan(&w.domCb, w.cells) && w.bufCb == w.domCb)
	m := w.bufCb.Width[0] * w.bufCb.Width[1] * w.bufCb.Width[2]
	requires(len(s) == m && len(v) == m && len(c) == m && len(ws) == len(xs) && len(vws) == len(xs))
	requires(imp(weighted, len(ws) > 0) && 0 <= low && high <= len(xs) && jump >= 1 && all(i, 0, len(xs), okPlace(&w.baseOverlap, false, xs[i])))
	buf := holding(q, m, s, v, c)
	x0, w0 := snap(xs), snap(ws)
	weights := weightsFor(q, weighted, ws, vws)
	w.Interpolate(buf, xs, nil, val, weights, low, high, jump)
	wbuf, _ := weights.ScalarBuffer()
	vwbuf, _ := weights.VectorBuffer()
	sums, _ := buf.ScalarBuffer()
	vecs, _ := buf.VectorBuffer()
	nums, _ := buf.CountBuffer()
	b := &w.baseOverlap
	x := val
	ensures("every particle in the buffer adds its weight to its cell", all(k, 0, len(sums), feqTol(sums[k], s[k]+share(b, false, -1, xs, x, wbuf, weighted, k, low, high, jump), 10)))
	ensures("every particle in the buffer adds its vector to its cell", all(k, 0, len(vecs), all(d, 0, 3, feqTol(vecs[k][d], v[k][d]+shareV(b, false, -1, xs, x, vwbuf, d, k, low, high, jump), 10))))
	ensures("every particle is counted in its cell", all(k, 0, len(nums), nums[k] == c[k]+landed(b, false, -1, xs, k, low, high, jump)))
	ensures("the shape is the same", sameShape(buf, q, m))
	ensures("positions and weights are unchanged", all(i, 0, len(xs), xs[i] == x0[i]) && all(i, 0, len(wbuf), wbuf[i] == w0[i]) && all(i, 0, len(vwbuf), vwbuf[i] == vws[i]))
}

func Gen_Client_DomainInterpolate3D(r *vpRng) (*domainOverlap3D, density.Quantity, bool, []float64, [][3]float64, []int, []geom.Vec, []float64, [][3]float64, float64, int, int, int) {
	w := &domainOverlap3D{}
	genBase(r, &w.baseOverlap)
	w.bufCb = w.domCb
	q, weighted, s, v, c, xs, ws, vws, val, low, high, jump := genDeposit(r, &w.baseOverlap, false, w.bufCb.Width[0]*w.bufCb.Width[1]*w.bufCb.Width[2])
	return w, q, weighted, s, v, c, xs, ws, vws, val, low, high, jump
}

//verif:annot segmentOverlap3D.Interpolate
func Annot_SegmentInterpolate3D() {
	loop(0, "when(scalar): restS(&w.baseOverlap, true, -1, xs, ptVal, wbuf, wlen != 0, buf, old(buf), idx, low, high, jump)",
		"when(!scalar): restV(&w.baseOverlap, true, -1, xs, ptVal, vwbuf, vbuf, old(vbuf), idx, low, high, jump)",
		"when(!scalar): restC(&w.baseOverlap, true, -1, xs, counts, old(counts), idx, low, high, jump)",
		"use: spotUses(&w.baseOverlap, true, -1, xs[idx])")
}

//verif:client
//verif:split q=0|2 weighted=true|false
//verif:opaque geom.px geom.py geom.pz geom.gi
//verif:prune
//verif:property C20
func Client_SegmentInterpolate3D(w *segmentOverlap3D, q density.Quantity, weighted bool, s []float64, v [][3]float64, c []int, xs []geom.Vec, ws []float64, vws [][3]float64, val float64, low, high, jump int) {
	requires(okSpan(&w.domCb, w.cells) && okSpan(&w.bufCb, w.cells))
	m := w.bufCb.Width[0] * w.bufCb.Width[1] * w.bufCb.Width[2]
	requires(len(s) == m && len(v) == m && len(c) == m && len(ws) == len(xs) && len(vws) == len(xs))
	requires(imp(weighted, len(ws) > 0) && 0 <= low && high <= len(xs) && jump >= 1 && all(i, 0, len(xs), okPlace(&w.baseOverlap, true, xs[i])))
	buf := holding(q, m, s, v, c)
	x0, w0 := snap(xs), snap(ws)
	weights := weightsFor(q, weighted, ws, vws)
	w.Interpolate(buf, xs, nil, val, weights, low, high, jump)
	wbuf, _ := weights.ScalarBuffer()
	vwbuf, _ := weights.VectorBuffer()
	sums, _ := buf.ScalarBuffer()
	vecs, _ := buf.VectorBuffer()
	nums, _ := buf.CountBuffer()
	b := &w.baseOverlap
	x := val
	ensures("every particle in the buffer adds its weight to its cell", all(k, 0, len(sums), feqTol(sums[k], s[k]+share(b, true, -1, xs, x, wbuf, weighted, k, low, high, jump), 10)))
	ensures("every particle in the buffer adds its vector to its cell", all(k, 0, len(vecs), all(d, 0, 3, feqTol(vecs[k][d], v[k][d]+shareV(b, true, -1, xs, x, vwbuf, d, k, low, high, jump), 10))))
	ensures("every particle is counted in its cell", all(k, 0, len(nums), nums[k] == c[k]+landed(b, true, -1, xs, k, low, high, jump)))
	ensures("the shape is the same", sameShape(buf, q, m))
	ensures("positions and weights are unchanged", all(i, 0, len(xs), xs[i] == x0[i]) && all(i, 0, len(wbuf), wbuf[i] == w0[i]) && all(i, 0, len(vwbuf), vwbuf[i] == vws[i]))
}

func Gen_Client_SegmentInterpolate3D(r *vpRng) (*segmentOverlap3D, density.Quantity, bool, []float64, [][3]float64, []int, []geom.Vec, []float64, [][3]float64, float64, int, int, int) {
	w := &segmentOverlap3D{}
	genBase(r, &w.baseOverlap)
	q, weighted, s, v, c, xs, ws, vws, val, low, high, jump := genDeposit(r, &w.baseOverlap, true, w.bufCb.Width[0]*w.bufCb.Width[1]*w.bufCb.Width[2])
	return w, q, weighted, s, v, c, xs, ws, vws, val, low, high, jump
}

//verif:annot domainOverlap2D.Interpolate
func Annot_DomainInterpolate2D() {
	loop(0, "when(scalar): restS(&w.baseOverlap, false, w.proj, xs, ptVal, wbuf, wlen != 0, buf, old(buf), idx, low, high, jump)",
		"when(!scalar): restV(&w.baseOverlap, false, w.proj, xs, ptVal, vwbuf, vbuf, old(vbuf), idx, low, high, jump)",
		"when(!scalar): restC(&w.baseOverlap, false, w.proj, xs, counts, old(counts), idx, low, high, jump)",
		"use: spotUses(&w.baseOverlap, false, w.proj, xs[idx])")
}

//verif:client
//verif:split q=0|2 weighted=true|false w.baseOverlap2D.proj=0|1|2
//verif:opaque geom.px geom.py geom.pz geom.gi
//verif:property C20
func Client_DomainInterpolate2D(w *domainOverlap2D, q density.Quantity, weighted bool, s []float64, v [][3]float64, c []int, xs []geom.Vec, ws []float64, vws [][3]float64, val float64, low, high, jump int) {
	requires(okSpan(&w.domCb, w.cells) && w.bufCb == w.domCb)
	m := w.bufCb.Width[rowAxis(w.proj)] * w.bufCb.Width[colAxis(w.proj)]
	requires(len(s) == m && len(v) == m && len(c) == m && len(ws) == len(xs) && len(vws) == len(xs))
	requires(imp(weighted, len(ws) > 0) && 0 <= low && high <= len(xs) && jump >= 1 && all(i, 0, len(xs), okPlace(&w.baseOverlap, false, xs[i])))
	buf := holding(q, m, s, v, c)
	x0, w0 := snap(xs), snap(ws)
	weights := weightsFor(q, weighted, ws, vws)
	w.Interpolate(buf, xs, nil, val, weights, low, high, jump)
	wbuf, _ := weights.ScalarBuffer()
	vwbuf, _ := weights.VectorBuffer()
	sums, _ := buf.ScalarBuffer()
	vecs, _ := buf.VectorBuffer()
	nums, _ := buf.CountBuffer()
	b := &w.baseOverlap
	x := val / float64(w.domCb.Width[w.proj])
	ensures("every particle in the buffer adds its weight to its cell", all(k, 0, len(sums), feqTol(sums[k], s[k]+share(b, false, w.proj, xs, x, wbuf, weighted, k, low, high, jump), 10)))
	ensures("every particle in the buffer adds its vector to its cell", all(k, 0, len(vecs), all(d, 0, 3, feqTol(vecs[k][d], v[k][d]+shareV(b, false, w.proj, xs, x, vwbuf, d, k, low, high, jump), 10))))
	ensures("every particle is counted in its cell", all(k, 0, len(nums), nums[k] == c[k]+landed(b, false, w.proj, xs, k, low, high, jump)))
	ensures("the shape is the same", sameShape(buf, q, m))
	ensures("positions and weights are unchanged", all(i, 0, len(xs), xs[i] == x0[i]) && all(i, 0, len(wbuf), wbuf[i] == w0[i]) && all(i, 0, len(vwbuf), vwbuf[i] == vws[i]))
}

func Gen_Client_DomainInterpolate2D(r *vpRng) (*domainOverlap2D, density.Quantity, bool, []float64, [][3]float64, []int, []geom.Vec, []float64, [][3]float64, float64, int, int, int) {
	w := &domainOverlap2D{}
	genBase(r, &w.baseOverlap)
	w.bufCb = w.domCb
	w.proj = r.Range(0, 2)
	q, weighted, s, v, c, xs, ws, vws, val, low, high, jump := genDeposit(r, &w.baseOverlap, false, w.bufCb.Width[rowAxis(w.proj)]*w.bufCb.Width[colAxis(w.proj)])
	return w, q, weighted, s, v, c, xs, ws, vws, val, low, high, jump
}

//verif:annot segmentOverlap2D.Interpolate
func Annot_SegmentInterpolate2D() {
	loop(0, "when(scalar): restS(&w.baseOverlap, true, w.proj, xs, ptVal, wbuf, wlen != 0, buf, old(buf), idx, low, high, jump)",
		"when(!scalar): restV(&w.baseOverlap, true, w.proj, xs, ptVal, vwbuf, vbuf, old(vbuf), idx, low, high, jump)",
		"when(!scalar): restC(&w.baseOverlap, true, w.proj, xs, counts, old(counts), idx, low, high, jump)",
		"use: spotUses(&w.baseOverlap, true, w.proj, xs[idx])")
}

//verif:client
//verif:split q=0|2 weighted=true|false w.baseOverlap2D.proj=0|1|2
//verif:opaque geom.px geom.py geom.pz geom.gi
//verif:property C20
func Client_SegmentInterpolate2D(w *segmentOverlap2D, q density.Quantity, weighted bool, s []float64, v [][3]float64, c []int, xs []geom.Vec, ws []float64, vws [][3]float64, val float64, low, high, jump int) {
	requires(okSpan(&w.domCb, w.cells) && okSpan(&w.bufCb, w.cells))
	m := w.bufCb.Width[rowAxis(w.proj)] * w.bufCb.Width[colAxis(w.proj)]
	requires(len(s) == m && len(v) == m && len(c) == m && len(ws) == len(xs) && len(vws) == len(xs))
	requires(imp(weighted, len(ws) > 0) && 0 <= low && high <= len(xs) && jump >= 1 && all(i, 0, len(xs), okPlace(&w.baseOverlap, true, xs[i])))
	buf := holding(q, m, s, v, c)
	x0, w0 := snap(xs), snap(ws)
	weights := weightsFor(q, weighted, ws, vws)
	w.Interpolate(buf, xs, nil, val, weights, low, high, jump)
	wbuf, _ := weights.ScalarBuffer()
	vwbuf, _ := weights.VectorBuffer()
	sums, _ := buf.ScalarBuffer()
	vecs, _ := buf.VectorBuffer()
	nums, _ := buf.CountBuffer()
	b := &w.baseOverlap
	x := val / float64(w.domCb.Width[w.proj])
	ensures("every particle in the buffer adds its weight to its cell", all(k, 0, len(sums), feqTol(sums[k], s[k]+share(b, true, w.proj, xs, x, wbuf, weighted, k, low, high, jump), 10)))
	ensures("every particle in the buffer adds its vector to its cell", all(k, 0, len(vecs), all(d, 0, 3, feqTol(vecs[k][d], v[k][d]+shareV(b, true, w.proj, xs, x, vwbuf, d, k, low, high, jump), 10))))
	ensures("every particle is counted in its cell", all(k, 0, len(nums), nums[k] == c[k]+landed(b, true, w.proj, xs, k, low, high, jump)))
	ensures("the shape is the same", sameShape(buf, q, m))
	ensures("positions and weights are unchanged", all(i, 0, len(xs), xs[i] == x0[i]) && all(i, 0, len(wbuf), wbuf[i] == w0[i]) && all(i, 0, len(vwbuf), vwbuf[i] == vws[i]))
}

func Gen_Client_SegmentInterpolate2D(r *vpRng) (*segmentOverlap2D, density.Quantity, bool, []float64, [][3]float64, []int, []geom.Vec, []float64, [][3]float64, float64, int, int, int) {
	w := &segmentOverlap2D{}
	genBase(r, &w.baseOverlap)
	w.proj = r.Range(0, 2)
	q, weighted, s, v, c, xs, ws, vws, val, low, high, jump := genDeposit(r, &w.baseOverlap, true, w.bufCb.Width[rowAxis(w.proj)]*w.bufCb.Width[colAxis(w.proj)])
	return w, q, weighted, s, v, c, xs, ws, vws, val, low, high, jump
}

func genDeposit(r *vpRng, b *baseOverlap, seg bool, m int) (density.Quantity, bool, []float64, [][3]float64, []int, []geom.Vec, []float64, [][3]float64, float64, int, int, int) {
	s, v, c := genContents(r, m)
	n := r.Range(0, 8)
	ws, vws, _ := genContents(r, n)
	xs := make([]geom.Vec, n)
	for i := range xs {
		for j := 0; j < 3; j++ {
			if seg {
				xs[i][j] = float32(r.Range(0, 4*b.bufCb.Width[j]-1)) / 4
			} else {
				xs[i][j] = float32(r.Range(-4*b.cells, 8*b.cells-1)) / 4
			}
		}
	}
	low := r.Range(0, n)
	return density.Quantity(2 * r.Range(0, 1)), r.Intn(2) == 0, s, v, c, xs, ws, vws, float64(r.Range(-4, 4)) / 2, low, r.Range(0, n), r.Range(1, 3)
}

// ---------------------------------------------------------------- boxes

// touches: cell k overlaps the region [x, x+width] along an axis.
func touches(k int, x, width, cellWidth float64) bool {
	return float64(k) <= (width+x)/cellWidth && x/cellWidth < float64(k+1)
}

// covers: the cells of a box along an axis are those that the region touches,
// or as many as the simulation box has, from the first one it touches (the
// cells a region touches are consecutive).
func covers(b Box, axis int, x, width, cellWidth float64) bool {
	o, w := b.CellOrigin()[axis], b.CellSpan()[axis]
	n := b.Cells()
	return 1 <= w && w <= n && touches(o, x, width, cellWidth) && !touches(o-1, x, width, cellWidth) &&
		touches(o+w-1, x, width, cellWidth) && imp(w < n, !touches(o+w, x, width, cellWidth))
}

func goodAxis(s string) bool { return s == "X" || s == "Y" || s == "Z" }

func canProject(q density.Quantity) bool { return q == density.Density || q == density.Velocity }

func axisName(proj int) string { return pick(proj == 0, "X", pick(proj == 1, "Y", "Z")) }

//verif:client
//verif:split q=0|1|2|3|4
//verif:paths
//verif:property C22
func Client_NewBox(boxWidth float64, pts, cells int, q density.Quantity, config *io.BoxConfig) {
	requires(boxWidth > 0 && pts >= 0 && cells >= 1)
	requires(config.X >= 0 && config.Y >= 0 && config.Z >= 0 && config.XWidth > 0 && config.YWidth > 0 && config.ZWidth > 0)
	panicsWhen(canProject(q) && config.ProjectionAxis != "" && !goodAxis(config.ProjectionAxis))
	c0 := *config
	b := NewBox(boxWidth, pts, cells, q, config)
	cw := boxWidth / float64(cells)
	ensures("cells, points and cell width", b.Cells() == cells && b.Points() == pts && feq(b.CellWidth(), cw))
	ensures("exactly the cells the region touches along x", covers(b, 0, config.X, config.XWidth, cw))
	ensures("exactly the cells the region touches along y", covers(b, 1, config.Y, config.YWidth, cw))
	ensures("exactly the cells the region touches along z", covers(b, 2, config.Z, config.ZWidth, cw))
	proj, ok := b.ProjectionAxis()
	ensures("a projection when asked for and possible", ok == (config.ProjectionAxis != "" && canProject(q)))
	w := b.CellSpan()
	if ok {
		ensures("along the given axis", 0 <= proj && proj < 3 && axisName(proj) == config.ProjectionAxis)
		ensures("one value for every pixel", density.SpecShape(b.Vals(), q, w[rowAxis(proj)]*w[colAxis(proj)]))
	} else {
		ensures("one value for every cell", density.SpecShape(b.Vals(), q, w[0]*w[1]*w[2]))
	}
	if q == density.DensityGradient || q == density.VelocityDivergence || q == density.VelocityCurl {
		g := density.SpecLocationOf(b.Vals())
		ensures("the values are at the cells of the box", g != nil && g.Origin == b.CellOrigin() && g.Width == b.CellSpan() && g.Cells == cells && feq(g.BoxWidth, boxWidth) &&
			g.Length == w[0] && g.Area == w[0]*w[1] && g.Volume == w[0]*w[1]*w[2])
	}
	ensures("the configuration is unchanged", *config == c0)
}

func Gen_Client_NewBox(r *vpRng) (float64, int, int, density.Quantity, *io.BoxConfig) {
	cells := 1 << uint(r.Range(0, 3))
	w := float64(int(4) << uint(r.Range(0, 2)))
	c := &io.BoxConfig{ProjectionAxis: []string{"", "X", "Y", "Z", "Z", "Q"}[r.Intn(6)]}
	p := func(lo int) float64 { return w / float64(4*cells) * float64(r.Range(lo, 4*cells-1+lo)) }
	c.X, c.Y, c.Z, c.XWidth, c.YWidth, c.ZWidth = p(0), p(0), p(0), p(1), p(1), p(1)
	return w, r.Range(0, 5), cells, density.Quantity(r.Range(0, 4)), c
}

// segmentBounds: the cells a segment touches.
func segmentBounds(hd *io.SheetHeader, cb *geom.CellBounds, cells int) bool {
	cw := hd.TotalWidth / float64(cells)
	return all(j, 0, 3, touches(cb.Origin[j], float64(hd.Origin[j]), float64(hd.Width[j]), cw) &&
		!touches(cb.Origin[j]-1, float64(hd.Origin[j]), float64(hd.Width[j]), cw) && cb.Width[j] >= 1 &&
		touches(cb.Origin[j]+cb.Width[j]-1, float64(hd.Origin[j]), float64(hd.Width[j]), cw) &&
		!touches(cb.Origin[j]+cb.Width[j], float64(hd.Origin[j]), float64(hd.Width[j]), cw))
}

//verif:client
//verif:property C22
func Client_CellBounds(hd *io.SheetHeader, cells int) {
	requires(cells >= 1 && hd.TotalWidth > 0 && all(j, 0, 3, hd.Width[j] >= 0))
	h0 := *hd
	cb := hd.CellBounds(cells)
	ensures("the cells the segment touches", segmentBounds(hd, cb, cells))
	ensures("the header is unchanged", *hd == h0)
}

func genHeader(r *vpRng) (*io.SheetHeader, int) {
	hd := &io.SheetHeader{}
	hd.TotalWidth = float64(int(4) << uint(r.Range(0, 2)))
	cells := 1 << uint(r.Range(0, 3))
	for j := 0; j < 3; j++ {
		hd.Origin[j] = float32(hd.TotalWidth / float64(4*cells) * float64(r.Range(0, 4*cells-1)))
		hd.Width[j] = float32(hd.TotalWidth / float64(4*cells) * float64(r.Range(0, 4*cells-1)))
	}
	return hd, cells
}

func Gen_Client_CellBounds(r *vpRng) (*io.SheetHeader, int) { return genHeader(r) }

func okBox(b *baseBox) bool {
	return b.cellWidth > 0 && okSpan(&b.cb, b.cells)
}

//verif:client
//verif:paths
//verif:property C22
func Client_Overlap3D(b *box3D, hd *io.SheetHeader) {
	requires(okBox(&b.baseBox) && hd.TotalWidth > 0 && all(j, 0, 3, hd.Width[j] >= 0))
	cb0, cells0 := b.cb, b.cells
	o := b.Overlap(hd)
	buf, dom, w := o.BufferCellBounds(), o.DomainCellBounds(), o.BufferCellBounds().Width
	ensures("the domain is the box", *dom == b.cb && o.Cells() == b.cells)
	ensures("the buffer has the cells of the segment or of the box", segmentBounds(hd, buf, b.cells) && hd.TotalWidth > 0 || *buf == b.cb)
	ensures("one value for every cell of the buffer", o.BufferSize() == w[0]*w[1]*w[2])
	ensures("no more than there are in the box", o.BufferSize() <= b.cb.Width[0]*b.cb.Width[1]*b.cb.Width[2])
	ensures("the box is unchanged", b.cb == cb0 && b.cells == cells0)
}

//verif:client
//verif:split b.proj=0|1|2
//verif:paths
//verif:property C22
func Client_Overlap2D(b *box2D, hd *io.SheetHeader) {
	requires(okBox(&b.baseBox) && hd.TotalWidth > 0 && all(j, 0, 3, hd.Width[j] >= 0))
	cb0, cells0, proj0 := b.cb, b.cells, b.proj
	o := b.Overlap(hd)
	buf, dom, w := o.BufferCellBounds(), o.DomainCellBounds(), o.BufferCellBounds().Width
	ensures("the domain is the box", *dom == b.cb && o.Cells() == b.cells)
	ensures("the buffer has the cells of the segment or of the box", segmentBounds(hd, buf, b.cells) || *buf == b.cb)
	ensures("one value for every pixel of the buffer", o.BufferSize() == w[rowAxis(b.proj)]*w[colAxis(b.proj)])
	ensures("the box is unchanged", b.cb == cb0 && b.cells == cells0 && b.proj == proj0)
}

func genBaseBox(r *vpRng, b *baseBox) *io.SheetHeader {
	hd, cells := genHeader(r)
	b.cells = cells
	b.cellWidth = hd.TotalWidth / float64(cells)
	for j := 0; j < 3; j++ {
		b.cb.Origin[j], b.cb.Width[j] = r.Range(0, cells-1), r.Range(1, cells)
	}
	return hd
}

func Gen_Client_Overlap3D(r *vpRng) (*box3D, *io.SheetHeader) {
	b := &box3D{}
	hd := genBaseBox(r, &b.baseBox)
	return b, hd
}

func Gen_Client_Overlap2D(r *vpRng) (*box2D, *io.SheetHeader) {
	b := &box2D{}
	b.proj = r.Range(0, 2)
	hd := genBaseBox(r, &b.baseBox)
	return b, hd
}

// ---------------------------------------------------------------- code units

//verif:client
//verif:property C21
func Client_ScaleSegmentOverlap2D(w *segmentOverlap2D, vs []geom.Vec, vcb *geom.CellBounds) {
	requires(geom.SpecInUnits(vcb, w.cells, w.boxWidth) && geom.SpecInUnits(&w.bufCb, w.cells, w.boxWidth) && geom.SpecVecsInBox(vs, w.boxWidth))
	vs0, b0, w0 := snap(vs), *vcb, w.bufCb
	w.ScaleVecs(vs, vcb)
	ensures("cells counted from the origin of the segment", geom.SpecSegScaled(vs, vs0, vcb.Origin, w.cells, w.boxWidth))
	ensures("the boxes are unchanged", *vcb == b0 && w.bufCb == w0)
}

func Gen_Client_ScaleSegmentOverlap2D(r *vpRng) (*segmentOverlap2D, []geom.Vec, *geom.CellBounds) {
	w := &segmentOverlap2D{}
	vcb := genScale(r, &w.baseOverlap)
	return w, genVecs(r, w.boxWidth), vcb
}

//verif:client
//verif:property C21
func Client_ScaleSegmentOverlap3D(w *segmentOverlap3D, vs []geom.Vec, vcb *geom.CellBounds) {
	requires(geom.SpecInUnits(vcb, w.cells, w.boxWidth) && geom.SpecInUnits(&w.bufCb, w.cells, w.boxWidth) && geom.SpecVecsInBox(vs, w.boxWidth))
	vs0, b0, w0 := snap(vs), *vcb, w.bufCb
	w.ScaleVecs(vs, vcb)
	ensures("cells counted from the origin of the segment", geom.SpecSegScaled(vs, vs0, vcb.Origin, w.cells, w.boxWidth))
	ensures("the boxes are unchanged", *vcb == b0 && w.bufCb == w0)
}

func Gen_Client_ScaleSegmentOverlap3D(r *vpRng) (*segmentOverlap3D, []geom.Vec, *geom.CellBounds) {
	w := &segmentOverlap3D{}
	vcb := genScale(r, &w.baseOverlap)
	return w, genVecs(r, w.boxWidth), vcb
}

//verif:client
//verif:property C21
func Client_ScaleDomainOverlap2D(w *domainOverlap2D, vs []geom.Vec, vcb *geom.CellBounds) {
	requires(geom.SpecInUnits(vcb, w.cells, w.boxWidth) && geom.SpecInUnits(&w.bufCb, w.cells, w.boxWidth) && geom.SpecVecsInBox(vs, w.boxWidth))
	vs0, b0, w0 := snap(vs), *vcb, w.bufCb
	w.ScaleVecs(vs, vcb)
	ensures("cells counted from the origin of the domain", geom.SpecDomScaled(vs, vs0, vcb.Origin, w.bufCb.Origin, w.cells, w.boxWidth))
	ensures("the boxes are unchanged", *vcb == b0 && w.bufCb == w0)
}

func Gen_Client_ScaleDomainOverlap2D(r *vpRng) (*domainOverlap2D, []geom.Vec, *geom.CellBounds) {
	w := &domainOverlap2D{}
	vcb := genScale(r, &w.baseOverlap)
	return w, genVecs(r, w.boxWidth), vcb
}

//verif:client
//verif:property C21
func Client_ScaleDomainOverlap3D(w *domainOverlap3D, vs []geom.Vec, vcb *geom.CellBounds) {
	requires(geom.SpecInUnits(vcb, w.cells, w.boxWidth) && geom.SpecInUnits(&w.bufCb, w.cells, w.boxWidth) && geom.SpecVecsInBox(vs, w.boxWidth))
	vs0, b0, w0 := snap(vs), *vcb, w.bufCb
	w.ScaleVecs(vs, vcb)
	ensures("cells counted from the origin of the domain", geom.SpecDomScaled(vs, vs0, vcb.Origin, w.bufCb.Origin, w.cells, w.boxWidth))
	ensures("the boxes are unchanged", *vcb == b0 && w.bufCb == w0)
}

func Gen_Client_ScaleDomainOverlap3D(r *vpRng) (*domainOverlap3D, []geom.Vec, *geom.CellBounds) {
	w := &domainOverlap3D{}
	vcb := genScale(r, &w.baseOverlap)
	return w, genVecs(r, w.boxWidth), vcb
}

func genScale(r *vpRng, b *baseOverlap) *geom.CellBounds {
	genBase(r, b)
	vcb := b.domCb
	b.domCb = b.bufCb
	return &vcb
}

func genVecs(r *vpRng, w float64) []geom.Vec {
	vs := make([]geom.Vec, r.Range(0, 5))
	for i := range vs {
		for j := range vs[i] {
			vs[i][j] = float32(w * float64(r.Range(0, 16)) / 16)
		}
	}
	return vs
}
