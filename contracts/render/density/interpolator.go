package density

import (
	"github.com/phil-mansfield/gotetra/math/rand"
	"github.com/phil-mansfield/gotetra/render/geom"
)

// ---------------------------------------------------------------- vocabulary

// tag identifies a tetrahedron by its corners: an arbitrary function of them.
//
//verif:rec
func tag(a, b, c, d int64) float64 { return float64(a + 3*b + 7*c + 11*d) }

// anchor is the index in a grid of gw^3 points of the corner of cube idx, when
// there are iw^3 cubes of side skip.
func anchor(idx, iw, skip, gw int64) int64 {
	return (idx%iw)*skip + ((idx%(iw*iw))/iw)*skip*gw + (idx/(iw*iw))*skip*gw*gw
}

// relative is the domain as seen from the origin of the buffer.
func relative(dom, buf *geom.CellBounds) *geom.CellBounds {
	return &geom.CellBounds{
		Origin: [3]int{dom.Origin[0] - buf.Origin[0], dom.Origin[1] - buf.Origin[1], dom.Origin[2] - buf.Origin[2]},
		Width:  dom.Width,
	}
}

// share is the tag of a tetrahedron that touches the domain.
func share(xs []geom.Vec, a, b, c, d int64, o0, o1, o2, w0, w1, w2, cells int) float64 {
	if geom.SpecMeets(&xs[a], &xs[b], &xs[c], &xs[d], [3]int{o0, o1, o2}, [3]int{w0, w1, w2}, cells) {
		return tag(a, b, c, d)
	}
	return 0
}

// upto adds the tags of the first tetrahedra of the cube at grid index gi that
// touch the domain.
//
//verif:rec
func upto(xs []geom.Vec, gi, gw, skip int64, dir, o0, o1, o2, w0, w1, w2, cells int) float64 {
	if dir <= 0 {
		return 0
	}
	return upto(xs, gi, gw, skip, dir-1, o0, o1, o2, w0, w1, w2, cells) +
		share(xs, geom.SpecVertex(gi, gw, skip, dir-1, 0), geom.SpecVertex(gi, gw, skip, dir-1, 1), geom.SpecVertex(gi, gw, skip, dir-1, 2), geom.SpecVertex(gi, gw, skip, dir-1, 3),
			o0, o1, o2, w0, w1, w2, cells)
}

// cube adds the tags of the tetrahedra of cube c that touch the domain.
//
//verif:rec
func cube(xs []geom.Vec, c, iw, gw, skip int64, o0, o1, o2, w0, w1, w2, cells int) float64 {
	return upto(xs, anchor(c, iw, skip, gw), gw, skip, 6, o0, o1, o2, w0, w1, w2, cells)
}

// total adds the tags of cubes low, low + jump, ... below idx.
//
//verif:rec
func total(xs []geom.Vec, low, jump, idx, iw, gw, skip int64, o0, o1, o2, w0, w1, w2, cells int) float64 {
	if idx <= low {
		return 0
	}
	return total(xs, low, jump, idx-jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells) +
		cube(xs, idx-jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells)
}

// last is the first of low, low + jump, ... that is not below high.
//
//verif:rec
func last(low, high, jump int64) int64 {
	if low >= high {
		return low
	}
	return last(low+jump, high, jump)
}

// A point with coordinates x, y, z in a grid.
//
//verif:lemma
//verif:property C23
func lemma_point(x, y, z, n, room int64) {
	requires(room >= 0 && 0 <= x && x+room < n && 0 <= y && y+room < n && 0 <= z && z+room < n)
	assert("rows", n*(y+room) <= n*(n-1))
	assert("planes", n*n*(z+room) <= n*n*(n-1))
	geom.SpecDivmod(y+n*z, x, n)
	geom.SpecDivmod(z, x+n*y, n*n)
	geom.SpecDivmod(y, x, n)
	i := x + y*n + z*n*n
	assert("grouped", i == x+n*(y+n*z) && i == (x+n*y)+n*n*z)
	ensures("first", i%n == x)
	assert("plane", i%(n*n) == x+n*y)
	ensures("second", (i%(n*n))/n == y)
	ensures("third", i/(n*n) == z)
	ensures("in the grid", 0 <= i && i+room*(1+n+n*n) < n*n*n)
}

func Gen_lemma_point(r *vpRng) (int64, int64, int64, int64, int64) {
	n := int64(r.Range(1, 6))
	return int64(r.Range(0, int(n)-1)), int64(r.Range(0, int(n)-1)), int64(r.Range(0, int(n)-1)), n, 0
}

// The corner of a cube in the grid.
//
//verif:lemma
//verif:property C23
func lemma_cube(xs []geom.Vec, idx, iw, skip, gw int64) {
	requires(iw >= 1 && skip >= 1 && gw >= iw*skip+1 && 0 <= idx && idx < iw*iw*iw)
	requires(int64(len(xs)) == gw*gw*gw)
	geom.SpecIdx64(idx, iw)
	x, y, z := idx%iw, (idx%(iw*iw))/iw, idx/(iw*iw)
	assert("x fits", (x+1)*skip <= iw*skip)
	assert("y fits", (y+1)*skip <= iw*skip)
	assert("z fits", (z+1)*skip <= iw*skip)
	lemma_point(x*skip, y*skip, z*skip, gw, skip)
	a := anchor(idx, iw, skip, gw)
	ensures("the coordinates", a%gw == x*skip && (a%(gw*gw))/gw == y*skip && a/(gw*gw) == z*skip)
	ensures("in the grid", 0 <= a && a+skip*(1+gw+gw*gw) < gw*gw*gw)
}

// The corners and the cells of a tetrahedron of a cube.
//
//verif:lemma
//verif:property C23
func lemma_cells(xs []geom.Vec, a, gw, skip int64, dir, lo, hi int) {
	requires(skip >= 1 && gw >= 2 && 0 <= a && a+skip*(1+gw+gw*gw) < gw*gw*gw && int64(len(xs)) == gw*gw*gw && 0 <= dir && dir < 6)
	requires(geom.SpecInCube(a, gw, skip))
	requires(all(k, 0, len(xs), all(j, 0, 3, float64(lo) <= float64(xs[k][j]) && float64(xs[k][j]) <= float64(hi))))
	t0, t1, t2, t3 := geom.SpecVertex(a, gw, skip, dir, 0), geom.SpecVertex(a, gw, skip, dir, 1), geom.SpecVertex(a, gw, skip, dir, 2), geom.SpecVertex(a, gw, skip, dir, 3)
	ensures("corners in the grid", 0 <= t0 && t0 < gw*gw*gw && 0 <= t1 && t1 < gw*gw*gw && 0 <= t2 && t2 < gw*gw*gw && 0 <= t3 && t3 < gw*gw*gw)
	p, q, r, s := xs[t0], xs[t1], xs[t2], xs[t3]
	geom.SpecCellRange(&p, &q, &r, &s, lo, hi)
	ensures("cells in range", geom.SpecInCells(&p, &q, &r, &s, lo, hi))
}

// recorder is an interpolator that checks and records what it is given.
type recorder struct {
	dom, buf geom.CellBounds
	cells    int
	home     bool // the buffer is the domain

	mc     *mcarlo
	into   Buffer
	xs, vs []geom.Vec
	ub     [2][]geom.Vec
	points int
	ptVal  float64

	sum float64
}

func (r *recorder) DomainCellBounds() *geom.CellBounds { return &r.dom }
func (r *recorder) BufferCellBounds() *geom.CellBounds { return &r.buf }
func (r *recorder) Cells() int                         { return r.cells }

// wraps: q is p, or p moved by a box width.
func wraps(q, p float64, cells int, t *geom.Tetra) bool {
	return geom.SpecNear(q, p, t) || geom.SpecNear(q, p+float64(cells), t)
}

func isSampleOf(t *geom.Tetra, u, q geom.Vec, cells int) bool {
	return all(j, 0, 3, wraps(float64(q[j]), geom.SpecBlend(t, j, u), cells, t))
}

// sampled: point k is a sample u of the tetrahedron, and so is its weight when
// velocities are needed.
func sampled(t, v *geom.Tetra, u, p geom.Vec, w [3]float64, cells int, vel bool) bool {
	return isSampleOf(t, u, p, cells) && imp(vel, geom.SpecIsBlend64(v, u, w))
}

// drawn: every point is a sample of the tetrahedron.
func drawn(r *recorder, pts []geom.Vec, w [][3]float64, vel bool) bool {
	i := r.mc.idxBuf
	t := &geom.Tetra{Corners: [4]geom.Vec{r.xs[i[0]], r.xs[i[1]], r.xs[i[2]], r.xs[i[3]]}}
	v := &geom.Tetra{Corners: [4]geom.Vec{r.vs[i[0]], r.vs[i[1]], r.vs[i[2]], r.vs[i[3]]}}
	if !vel {
		return all(k, 0, r.points, isSampleOf(t, r.ub[0][k], pts[k], r.cells) || isSampleOf(t, r.ub[1][k], pts[k], r.cells))
	}
	return all(k, 0, r.points, sampled(t, v, r.ub[0][k], pts[k], w[k], r.cells, vel) || sampled(t, v, r.ub[1][k], pts[k], w[k], r.cells, vel))
}

func (r *recorder) Interpolate(buf Buffer, xs, vs []geom.Vec, ptVal float64, weights Buffer, low, high, jump int) {
	assert("into the given buffer", buf == r.into)
	assert("all the samples, once", low == 0 && high == r.points && jump == 1 && len(xs) >= r.points)
	assert("a share of the mass", feq(ptVal, r.ptVal))
	w, vel := weights.VectorBuffer()
	assert("velocities when they are needed", vel == needsVelocity(buf.Quantity()))
	if vel {
		assert("a velocity for every sample", len(w) >= r.points)
	}
	assert("samples of the tetrahedron", drawn(r, xs, w, vel))
	i := r.mc.idxBuf
	rel := relative(&r.dom, &r.buf)
	r.sum += share(r.xs, i[0], i[1], i[2], i[3], rel.Origin[0], rel.Origin[1], rel.Origin[2], rel.Width[0], rel.Width[1], rel.Width[2], r.cells)
}

func recOf(intr *mcarlo) *recorder { return intr.subIntr.(*recorder) }

func totalOf(intr *mcarlo, xs []geom.Vec, low, jump, idx, iw, gw int64, rel *geom.CellBounds) float64 {
	return total(xs, low, jump, idx, iw, gw, intr.skip, rel.Origin[0], rel.Origin[1], rel.Origin[2], rel.Width[0], rel.Width[1], rel.Width[2], intr.cells)
}

func uptoOf(intr *mcarlo, xs []geom.Vec, gi, gw int64, dir int, rel *geom.CellBounds) float64 {
	return upto(xs, gi, gw, intr.skip, dir, rel.Origin[0], rel.Origin[1], rel.Origin[2], rel.Width[0], rel.Width[1], rel.Width[2], intr.cells)
}

//verif:annot mcarlo.Interpolate
func Annot_mcarlo() {
	loop(0, "idx >= int64(low)",
		"last(idx, int64(high), jump64) == last(int64(low), int64(high), jump64)",
		"recOf(intr).sum == totalOf(intr, xs, int64(low), jump64, idx, idxWidth, gridWidth, relCb)",
		"start: lemma_cube(xs, idx, idxWidth, intr.skip, gridWidth)")
	loop(1, "0 <= dir && dir <= 6", "dec: 6 - dir",
		"recOf(intr).sum == totalOf(intr, xs, int64(low), jump64, idx, idxWidth, gridWidth, relCb) + uptoOf(intr, xs, anchor(idx, idxWidth, intr.skip, gridWidth), gridWidth, dir, relCb)",
		"start: lemma_cells(xs, anchor(idx, idxWidth, intr.skip, gridWidth), gridWidth, intr.skip, dir, pick(recOf(intr).home, -intr.cells, 0), intr.cells)")
}

//verif:client
//verif:property C23
//verif:keep 6
//verif:split q=0|1|2|3|4
//verif:opaque tag geom.vertex geom.lowCell geom.highCell geom.ringMeet geom.mix geom.sv
func Client_MonteCarlo(q Quantity, gen *rand.Generator, dom, bcb geom.CellBounds, n int, g *geom.GridLocation,
	points, cells int, seg, skip int64, ub0, ub1, xs, vs []geom.Vec, ptVal float64, low, high, jump int) {
	requires(isQuantity(q) && points >= 1 && cells >= 1 && skip >= 1 && seg >= skip && seg%skip == 0 && n >= 1 && gen != nil)
	requires(len(ub0) == points && len(ub1) == points)
	gw := seg + 1
	iw := seg / skip
	requires(int64(len(xs)) == gw*gw*gw && int64(len(vs)) == gw*gw*gw)
	requires(0 <= low && int64(high) <= iw*iw*iw && jump >= 1)
	b := NewBuffer(q, n, points, g)
	want := ptVal
	if !needsVelocity(q) {
		want = ptVal / float64(6*points) * float64(skip*skip*skip)
	}
	home := dom.Origin == bcb.Origin
	requires(all(j, 0, 3, 1 <= dom.Width[j] && dom.Width[j] <= cells && -cells < dom.Origin[j]-bcb.Origin[j] && dom.Origin[j]-bcb.Origin[j] < cells))
	requires(all(k, 0, len(xs), all(j, 0, 3, float64(pick(home, -cells, 0)) <= float64(xs[k][j]) && float64(xs[k][j]) <= float64(cells))))
	rec := &recorder{dom: dom, buf: bcb, cells: cells, home: home, into: b, xs: xs, vs: vs, ub: [2][]geom.Vec{ub0, ub1}, points: points, ptVal: want}
	mc := &mcarlo{subIntr: rec, segWidth: seg, points: points, cells: cells, gen: gen, skip: skip,
		unitBufs: [][]geom.Vec{ub0, ub1}, vecBuf: make([]geom.Vec, points)}
	rec.mc = mc
	mc.Interpolate(b, xs, vs, ptVal, NilBuffer, low, high, jump)
	rel := relative(&dom, &bcb)
	ensures("every tetrahedron of every cube that touches the domain, once",
		rec.sum == total(xs, int64(low), int64(jump), last(int64(low), int64(high), int64(jump)), iw, gw, skip,
			rel.Origin[0], rel.Origin[1], rel.Origin[2], rel.Width[0], rel.Width[1], rel.Width[2], cells))
}

// ---------------------------------------------------------------- workers

//verif:lemma
//verif:property C23
func lemma_last(low, high, jump int64) {
	requires(jump >= 1)
	decreases(int(pick(low < high, high-low, 0)))
	if low < high {
		lemma_last(low+jump, high, jump)
	}
	l := last(low, high, jump)
	ensures("not before", l >= low && l >= high)
	ensures("no further than needed", l == low || l < high+jump)
	ensures("in steps", (l-low)%jump == 0)
}

//verif:lemma
//verif:property C23
func lemma_lastStep(low, n, jump int64) {
	requires(jump >= 1)
	decreases(int(pick(low < n, n-low, 0)))
	if low < n {
		lemma_lastStep(low+jump, n, jump)
	}
	l := last(low, n, jump)
	ensures("one more", last(low, n+1, jump) == pick(l == n, n+jump, l))
}

// Which worker comes to cube n.
//
//verif:lemma
//verif:property C23
//verif:opaque last
func lemma_owner(k, n, jump int64) {
	requires(jump >= 1 && 0 <= k && k < jump && n >= 0)
	lemma_last(k, n, jump)
	l := last(k, n, jump)
	q, p := (l-k)/jump, n/jump
	assert("the cube", l == k+jump*q && q >= 0)
	assert("the number", n == n%jump+jump*p && 0 <= n%jump && n%jump < jump)
	geom.SpecDivmod(q, k, jump)
	if l != n && n%jump == k {
		if q > p {
			assert("a step further", jump*q >= jump*(p+1))
		} else {
			assert("not before", jump*q <= jump*p)
		}
		assert("no", false)
	}
	ensures("the remainder", (l == n) == (n%jump == k))
}

// part adds the shares of the first workers of jump, who together deposit the
// first n cubes.
//
//verif:rec
func part(k int64, xs []geom.Vec, n, jump, iw, gw, skip int64, o0, o1, o2, w0, w1, w2, cells int) float64 {
	if k <= 0 {
		return 0
	}
	return part(k-1, xs, n, jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells) +
		total(xs, k-1, jump, last(k-1, n, jump), iw, gw, skip, o0, o1, o2, w0, w1, w2, cells)
}

//verif:lemma
//verif:property C23
//verif:opaque cube last
func lemma_part(k int64, xs []geom.Vec, n, jump, iw, gw, skip int64, o0, o1, o2, w0, w1, w2, cells int) {
	requires(jump >= 1 && n >= 0 && 0 <= k && k <= jump && iw >= 1)
	decreases(int(k))
	if k > 0 {
		lemma_part(k-1, xs, n, jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells)
		lemma_lastStep(k-1, n, jump)
		lemma_owner(k-1, n, jump)
		lemma_last(k-1, n, jump)
	}
	ensures("one cube more", part(k, xs, n+1, jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells) ==
		part(k, xs, n, jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells)+
			pick(n%jump < k, cube(xs, n, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells), 0))
}

//verif:lemma
//verif:property C23
//verif:opaque cube
func lemma_none(k int64, xs []geom.Vec, jump, iw, gw, skip int64, o0, o1, o2, w0, w1, w2, cells int) {
	requires(jump >= 1 && 0 <= k && k <= jump && iw >= 1)
	decreases(int(k))
	if k > 0 {
		lemma_none(k-1, xs, jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells)
	}
	ensures("nothing", part(k, xs, 0, jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells) == 0)
}

// The workers together deposit every cube once.
//
//verif:lemma
//verif:property C23
//verif:opaque cube
func lemma_workers(xs []geom.Vec, n, jump, iw, gw, skip int64, o0, o1, o2, w0, w1, w2, cells int) {
	requires(jump >= 1 && n >= 0 && iw >= 1)
	decreases(int(n))
	if n > 0 {
		lemma_workers(xs, n-1, jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells)
		lemma_part(jump, xs, n-1, jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells)
	} else {
		lemma_none(jump, xs, jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells)
	}
	ensures("every cube once", part(jump, xs, n, jump, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells) ==
		total(xs, 0, 1, n, iw, gw, skip, o0, o1, o2, w0, w1, w2, cells))
}

func Gen_Client_MonteCarlo(r *vpRng) (Quantity, *rand.Generator, geom.CellBounds, geom.CellBounds, int, *geom.GridLocation,
	int, int, int64, int64, []geom.Vec, []geom.Vec, []geom.Vec, []geom.Vec, float64, int, int, int) {
	cells, points, skip := r.Range(2, 6), r.Range(1, 3), r.Range(1, 2)
	iw := r.Range(1, 2)
	seg := skip * iw
	gw := seg + 1
	dom, bcb := geom.CellBounds{}, geom.CellBounds{}
	home := r.Intn(2) == 0
	for j := 0; j < 3; j++ {
		dom.Width[j] = r.Range(1, cells)
		bcb.Width[j] = dom.Width[j]
		dom.Origin[j] = r.Range(0, cells-1)
		bcb.Origin[j] = dom.Origin[j]
		if !home {
			bcb.Width[j] = r.Range(1, cells)
			bcb.Origin[j] = r.Range(0, cells-1)
		}
	}
	home = dom.Origin == bcb.Origin
	vecs := func(n, lo, hi int) []geom.Vec {
		xs := make([]geom.Vec, n)
		for i := range xs {
			for j := range xs[i] {
				xs[i][j] = float32(r.Range(4*lo, 4*hi)) / 4
			}
		}
		return xs
	}
	lo := 0
	if home {
		lo = -cells
	}
	return Quantity(r.Range(0, 4)), rand.New(rand.Golang, uint64(r.Intn(1000))), dom, bcb, r.Range(1, 4), &geom.GridLocation{},
		points, cells, int64(seg), int64(skip), vecs(points, 0, 1), vecs(points, 0, 1), vecs(gw*gw*gw, lo, cells), vecs(gw*gw*gw, -3, 3), float64(r.Range(1, 9)),
		r.Range(0, 2), r.Range(0, iw*iw*iw), r.Range(1, 3)
}
