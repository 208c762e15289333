package geom

import (
	"math"

	"github.com/phil-mansfield/gotetra/math/rand"
)

// ---------------------------------------------------------------- vocabulary

func span(t *Tetra) float64 {
	return size(&t.Corners[0]) + size(&t.Corners[1]) + size(&t.Corners[2]) + size(&t.Corners[3])
}

// det is six times the signed volume of four points.
func det(a, b, c, d *Vec) float64 {
	return det3(float64(b[0])-float64(a[0]), float64(b[1])-float64(a[1]), float64(b[2])-float64(a[2]),
		float64(c[0])-float64(a[0]), float64(c[1])-float64(a[1]), float64(c[2])-float64(a[2]),
		float64(d[0])-float64(a[0]), float64(d[1])-float64(a[1]), float64(d[2])-float64(a[2]))
}

// sv is the signed volume of four points.
//
//verif:rec
func sv(a, b, c, d Vec) float64 { return det(&a, &b, &c, &d) / 6 }

func tetVol(t *Tetra) float64 {
	return absf(sv(t.Corners[0], t.Corners[1], t.Corners[2], t.Corners[3]))
}

func cube(x float64) float64 { return x * x * x }

func isMean(b *Vec, t *Tetra) bool {
	return all(j, 0, 3, near(float64(b[j]), (float64(t.Corners[0][j])+float64(t.Corners[1][j])+float64(t.Corners[2][j])+float64(t.Corners[3][j]))/4, span(t)))
}

// okTetra: what is cached is up to date.
func okTetra(t *Tetra) bool {
	return imp(t.volumeValid, near(t.volume, tetVol(t), cube(span(t)))) && imp(t.baryValid, isMean(&t.bary, t))
}

func sameCorners(t *Tetra, c *[4]Vec) bool { return t.Corners == *c }

// part is the signed volume with corner k replaced by a point.
func part(t *Tetra, k int, p *Vec) float64 {
	c := t.Corners
	c[k] = *p
	return sv(c[0], c[1], c[2], c[3])
}

func whole(t *Tetra) float64 { return sv(t.Corners[0], t.Corners[1], t.Corners[2], t.Corners[3]) }

// within: all the barycentric coordinates of the point are positive.
func within(t *Tetra, p *Vec) bool {
	return all(k, 0, 4, part(t, k, p)*whole(t) > 0)
}

// beyond: a barycentric coordinate of the point is negative.
func beyond(t *Tetra, p *Vec) bool {
	return ex(k, 0, 4, part(t, k, p)*whole(t) < 0)
}

// The four parts add up to the whole, and an exchange of corners changes the
// sign of a volume.
//
//verif:lemma
//verif:property C17
func lemma_parts(a, b, c, d, p Vec) {
	ensures("the parts add up", feq(sv(p, b, c, d)+sv(a, p, c, d)+sv(a, b, p, d)+sv(a, b, c, p), sv(a, b, c, d)))
	ensures("exchanges", feq(sv(p, a, b, c), -sv(a, b, c, p)) && feq(sv(p, b, d, c), -sv(p, b, c, d)) &&
		feq(sv(p, a, d, b), -sv(a, b, p, d)) && feq(sv(p, a, c, d), -sv(a, p, c, d)))
}

//verif:contract Tetra.signedVolume
//verif:property C17
func Contract_signedVolume(t *Tetra, c0, c1, c2, c3 *Vec) {
	modifies(&t.vb)
	r := t.signedVolume(c0, c1, c2, c3)
	ensures("a sixth of the determinant of the edges", near(r, sv(*c0, *c1, *c2, *c3), cube(size(c0)+size(c1)+size(c2)+size(c3))))
}

func Gen_Contract_signedVolume(r *vpRng) (*Tetra, *Vec, *Vec, *Vec, *Vec) {
	return Gen_Client_TetraInit(r)
}

// ---------------------------------------------------------------- volume, barycenter

//verif:client
//verif:property C17
func Client_TetraInit(t *Tetra, c0, c1, c2, c3 *Vec) {
	n := NewTetra(c0, c1, c2, c3)
	ensures("the corners are the ones given", n.Corners == [4]Vec{*c0, *c1, *c2, *c3})
	ensures("a new tetrahedron caches nothing stale", okTetra(n))
	r := t.Init(c0, c1, c2, c3)
	ensures("the corners are replaced", t.Corners == [4]Vec{*c0, *c1, *c2, *c3} && r.Corners == t.Corners)
	ensures("reinitialising drops what was cached", okTetra(t))
}

//verif:client
//verif:property C17
func Client_TetraVolume(t *Tetra) {
	requires(okTetra(t))
	c := t.Corners
	v := t.Volume()
	ensures("a sixth of the determinant of the edges", v >= 0 && near(v, tetVol(t), cube(span(t))))
	ensures("the same on every call", t.Volume() == v)
	ensures("the tetrahedron is unchanged", sameCorners(t, &c) && okTetra(t))
}

//verif:client
//verif:property C17
func Client_TetraBarycenter(t *Tetra) {
	requires(okTetra(t))
	c := t.Corners
	b := *t.Barycenter()
	ensures("the mean of the four corners", isMean(&b, t))
	ensures("the same on every call", *t.Barycenter() == b)
	ensures("the tetrahedron is unchanged", sameCorners(t, &c) && okTetra(t))
}

//verif:client
//verif:opaque sv
//verif:property C17
func Client_TetraContains(t *Tetra, p *Vec) {
	requires(okTetra(t) && tetVol(t) > 0)
	c, p0 := t.Corners, *p
	lemma_parts(c[0], c[1], c[2], c[3], *p)
	r := t.Contains(p)
	ensures("points inside are contained", imp(within(t, p), r))
	ensures("points outside are not", imp(beyond(t, p), !r))
	ensures("the tetrahedron is unchanged", sameCorners(t, &c) && okTetra(t) && *p == p0)
}

//verif:rec
func lowCell(a, b, c, d float32, w float64) int {
	return int(math.Floor(math.Min(math.Min(float64(a), float64(b)), math.Min(float64(c), float64(d))) / w))
}

//verif:rec
func highCell(a, b, c, d float32, w float64) int {
	return int(math.Floor(math.Max(math.Max(float64(a), float64(b)), math.Max(float64(c), float64(d))) / w))
}

//verif:contract Tetra.CellBoundsAt
//verif:property C17
func Contract_CellBoundsAt(t *Tetra, w float64, cb *CellBounds) {
	requires(w > 0)
	modifies(&t.sb)
	modifies(cb)
	t.CellBoundsAt(w, cb)
	c := t.Corners
	for j := 0; j < 3; j++ {
		lo, hi := lowCell(c[0][j], c[1][j], c[2][j], c[3][j], w), highCell(c[0][j], c[1][j], c[2][j], c[3][j], w)
		ensures("from the cell of the lowest corner", cb.Origin[j] == lo)
		ensures("to the cell of the highest corner", cb.Origin[j]+cb.Width[j] == hi+1)
	}
}

func Gen_Contract_CellBoundsAt(r *vpRng) (*Tetra, float64, *CellBounds) {
	return genTetra(r), []float64{1, 0.5, 2}[r.Intn(3)], &CellBounds{}
}

//verif:client
//verif:property C17
func Client_TetraCellBounds(t *Tetra, w float64) {
	requires(w > 0)
	c := t.Corners
	cb := t.CellBounds(w)
	for j := 0; j < 3; j++ {
		lo, hi := float64(cb.Origin[j])*w, float64(cb.Origin[j]+cb.Width[j])*w
		ensures("every corner is inside", all(k, 0, 4, lo <= float64(t.Corners[k][j]) && float64(t.Corners[k][j]) < hi))
		ensures("no smaller box will do", ex(k, 0, 4, float64(t.Corners[k][j]) < lo+w) && ex(k, 0, 4, float64(t.Corners[k][j]) >= hi-w))
	}
	ensures("the corners are unchanged", sameCorners(t, &c))
}

func genTetra(r *vpRng) *Tetra {
	for {
		a, b, c, d := genVec(r, 0, 3), genVec(r, 0, 3), genVec(r, 0, 3), genVec(r, 0, 3)
		t := NewTetra(&a, &b, &c, &d)
		if tetVol(t) > 0.01 {
			if r.Intn(2) == 0 {
				t.Volume()
			}
			if r.Intn(2) == 0 {
				t.Barycenter()
			}
			return t
		}
	}
}

func Gen_Client_TetraInit(r *vpRng) (*Tetra, *Vec, *Vec, *Vec, *Vec) {
	a, b, c, d := genVec(r, 0, 3), genVec(r, 0, 3), genVec(r, 0, 3), genVec(r, 0, 3)
	return genTetra(r), &a, &b, &c, &d
}

func Gen_Client_TetraVolume(r *vpRng) *Tetra     { return genTetra(r) }
func Gen_Client_TetraBarycenter(r *vpRng) *Tetra { return genTetra(r) }

func Gen_Client_TetraContains(r *vpRng) (*Tetra, *Vec) {
	t := genTetra(r)
	p := genVec(r, 0, 3)
	if r.Intn(2) == 0 {
		// near the tetrahedron
		for j := 0; j < 3; j++ {
			p[j] = (t.Corners[0][j] + t.Corners[1][j] + t.Corners[2][j] + t.Corners[3][j]) / 4
			p[j] += float32(r.Range(-2, 2)) / 8
		}
	}
	return t, &p
}

func Gen_Client_TetraCellBounds(r *vpRng) (*Tetra, float64) {
	return genTetra(r), []float64{0.25, 0.5, 1, 2}[r.Intn(4)]
}

// ---------------------------------------------------------------- sampling

// fold maps the unit cube onto the unit tetrahedron (Rocchini and Cignoni).
func fold(s, t, u float64) [3]float64 {
	if s+t > 1 {
		s, t = 1-s, 1-t
	}
	if t+u > 1 {
		return [3]float64{s, 1 - u, 1 - s - t}
	}
	if s+t+u > 1 {
		return [3]float64{1 - t - u, t, s + t + u - 1}
	}
	return [3]float64{s, t, u}
}

func inUnitCube(s, t, u float64) bool {
	return 0 <= s && s <= 1 && 0 <= t && t <= 1 && 0 <= u && u <= 1
}

// preimage is one of the six volume-preserving maps that take the unit
// tetrahedron back to a piece of the cube.
func preimage(k int, s, t, u float64) [3]float64 {
	p := [3]float64{s, t, u}
	if k%3 == 1 {
		p = [3]float64{s, 1 - s - u, 1 - t}
	}
	if k%3 == 2 {
		p = [3]float64{s + u, t, 1 - s - t}
	}
	if k >= 3 {
		p[0], p[1] = 1-p[0], 1-p[1]
	}
	return p
}

//verif:client
//verif:property C17
func Client_DistributeUnitPreimages(s, t, u float64) {
	requires(s > 0 && t > 0 && u > 0 && s+t+u < 1)
	for k := 0; k < 6; k++ {
		p := preimage(k, s, t, u)
		ensures("every piece lies in the cube", inUnitCube(p[0], p[1], p[2]))
		buf := []Vec{{float32(p[0]), float32(p[1]), float32(p[2])}}
		DistributeUnit(buf)
		ensures("six pieces of the cube are each mapped onto the tetrahedron",
			near(float64(buf[0][0]), s, 1) && near(float64(buf[0][1]), t, 1) && near(float64(buf[0][2]), u, 1))
	}
}

func unitPts(pts []Vec, lo int) bool {
	return all(k, lo, len(pts), inUnitCube(float64(pts[k][0]), float64(pts[k][1]), float64(pts[k][2])))
}

func isFold(p, q Vec) bool {
	f := fold(float64(p[0]), float64(p[1]), float64(p[2]))
	return all(j, 0, 3, near(float64(q[j]), f[j], 1))
}

//verif:contract DistributeUnit
//verif:property C17
func Contract_DistributeUnit(pts []Vec) {
	requires(unitPts(pts, 0))
	pts0 := snap(pts)
	modifies(pts)
	loop(0, "all(k, 0, iter(), isFold(old(vecBuf)[k], vecBuf[k]))", "all(k, iter(), len(vecBuf), all(j, 0, 3, vecBuf[k][j] == old(vecBuf)[k][j]))")
	DistributeUnit(pts)
	ensures("the folded points", all(k, 0, len(pts), isFold(pts0[k], pts[k])))
	ensures("inside the unit tetrahedron", all(k, 0, len(pts), fle(0, float64(pts[k][0])) && fle(0, float64(pts[k][1])) && fle(0, float64(pts[k][2])) &&
		fle(float64(pts[k][0])+float64(pts[k][1])+float64(pts[k][2]), 1)))
}

// blend is the point with the given barycentric coordinates.
func blend(t *Tetra, j int, s, p, u float64) float64 {
	return mix(float64(t.Corners[0][j]), float64(t.Corners[1][j]), float64(t.Corners[2][j]), float64(t.Corners[3][j]), s, p, u)
}

//verif:rec
func mix(a, b, c, d, s, p, u float64) float64 { return s*a + p*b + u*c + (1-s-p-u)*d }

func isBlend(t *Tetra, p, q Vec) bool {
	return all(j, 0, 3, near(float64(q[j]), blend(t, j, float64(p[0]), float64(p[1]), float64(p[2])), span(t)))
}

func isBlend64(t *Tetra, p Vec, q [3]float64) bool {
	return all(j, 0, 3, near(q[j], blend(t, j, float64(p[0]), float64(p[1]), float64(p[2])), span(t)))
}

//verif:annot Tetra.DistributeTetra
func Annot_DistributeTetra() {
	loop(0, "all(k, 0, iter(), isBlend(tet, pts[k], out[k]))")
}

//verif:annot Tetra.DistributeTetra64
func Annot_DistributeTetra64() {
	loop(0, "all(k, 0, iter(), isBlend64(tet, pts[k], out[k]))")
}

//verif:contract Tetra.DistributeTetra
//verif:property C17
func Contract_DistributeTetra(t *Tetra, pts, out []Vec) {
	requires(okTetra(t) && len(out) >= len(pts))
	modifies(t)
	modifies(out)
	c := t.Corners
	t.DistributeTetra(pts, out)
	ensures("points keep their barycentric coordinates", all(k, 0, len(pts), isBlend(t, pts[k], out[k])))
	ensures("the tetrahedron is unchanged", sameCorners(t, &c) && okTetra(t))
}

//verif:contract Tetra.DistributeTetra64
//verif:property C17
func Contract_DistributeTetra64(t *Tetra, pts []Vec, out [][3]float64) {
	requires(okTetra(t) && len(out) >= len(pts))
	modifies(t)
	modifies(out)
	c := t.Corners
	t.DistributeTetra64(pts, out)
	ensures("points keep their barycentric coordinates, in double precision", all(k, 0, len(pts), isBlend64(t, pts[k], out[k])))
	ensures("the tetrahedron is unchanged", sameCorners(t, &c) && okTetra(t))
}

func isSample(t *Tetra, x, y, z float64, q Vec) bool {
	f := fold(x, y, z)
	return all(j, 0, 3, near(float64(q[j]), blend(t, j, f[0], f[1], f[2]), span(t)))
}

func unitVals(xs []float64) bool { return all(k, 0, len(xs), 0 <= xs[k] && xs[k] <= 1) }

//verif:lemma
//verif:property C17
func lemma_fold(x, y, z float64) {
	requires(inUnitCube(x, y, z))
	f := fold(x, y, z)
	ensures("inside the unit tetrahedron", f[0] >= 0 && f[1] >= 0 && f[2] >= 0 && f[0]+f[1]+f[2] <= 1)
}

//verif:contract Tetra.Distribute
//verif:property C17
func Contract_Distribute(t *Tetra, xs, ys, zs []float64, buf []Vec) {
	requires(okTetra(t) && len(xs) >= len(buf) && len(ys) >= len(buf) && len(zs) >= len(buf))
	requires(unitVals(xs) && unitVals(ys) && unitVals(zs))
	c := t.Corners
	modifies(t, buf)
	loop(0, "all(k, 0, iter(), isSample(tet, xs[k], ys[k], zs[k], vecBuf[k]))")
	t.Distribute(xs, ys, zs, buf)
	ensures("every point is blended with the folded coordinates", all(k, 0, len(buf), isSample(t, xs[k], ys[k], zs[k], buf[k])))
	ensures("the tetrahedron is unchanged", sameCorners(t, &c) && okTetra(t))
}

//verif:client
//verif:property C17
func Client_RandomSample(t *Tetra, gen *rand.Generator, randBuf []float64, buf []Vec) {
	requires(gen != nil && okTetra(t))
	panicsWhen(len(randBuf) != 3*len(buf))
	c, n := t.Corners, len(buf)
	t.RandomSample(gen, randBuf, buf)
	ensures("the numbers lie in the unit interval", unitVals(randBuf))
	ensures("every point is blended with its own three numbers", all(k, 0, n, isSample(t, randBuf[k], randBuf[n+k], randBuf[2*n+k], buf[k])))
	ensures("the tetrahedron is unchanged", sameCorners(t, &c) && okTetra(t))
}

func Gen_Client_RandomSample(r *vpRng) (*Tetra, *rand.Generator, []float64, []Vec) {
	n := r.Range(0, 5)
	m := 3 * n
	if r.Intn(8) == 0 {
		m = r.Range(0, 15)
	}
	return genTetra(r), rand.New(rand.Xorshift, uint64(r.Range(1, 1000))), make([]float64, m), make([]Vec, n)
}

func genUnit(r *vpRng) Vec {
	return Vec{float32(r.Range(0, 16)) / 16, float32(r.Range(0, 16)) / 16, float32(r.Range(0, 16)) / 16}
}

func Gen_Client_DistributeUnitPreimages(r *vpRng) (float64, float64, float64) {
	for {
		a, b, c := r.Range(1, 14), r.Range(1, 14), r.Range(1, 14)
		if a+b+c < 16 {
			return float64(a) / 16, float64(b) / 16, float64(c) / 16
		}
	}
}

func genUnits(r *vpRng) []Vec {
	pts := make([]Vec, r.Range(0, 6))
	for i := range pts {
		pts[i] = genUnit(r)
	}
	return pts
}

func Gen_Contract_DistributeUnit(r *vpRng) []Vec { return genUnits(r) }

func Gen_Contract_DistributeTetra(r *vpRng) (*Tetra, []Vec, []Vec) {
	pts := genUnits(r)
	return genTetra(r), pts, make([]Vec, len(pts)+r.Range(0, 1))
}

func Gen_Contract_DistributeTetra64(r *vpRng) (*Tetra, []Vec, [][3]float64) {
	pts := genUnits(r)
	return genTetra(r), pts, make([][3]float64, len(pts)+r.Range(0, 1))
}

// exported for the packages that sample tetrahedra

func SpecCorner(c, idx, n, skip int64) int64 { return corner(c, idx, n, skip) }

func SpecVertex(idx, n, skip int64, dir, k int) int64 { return vertex(idx, n, skip, dir, k) }

func SpecInCube(idx, n, skip int64) bool { return inCube(idx, n, skip) }

func SpecUnitTetra(dir int) *TetraIdxs { return unitTetra(dir) }

func SpecBlend(t *Tetra, j int, p Vec) float64 {
	return blend(t, j, float64(p[0]), float64(p[1]), float64(p[2]))
}

func SpecIsBlend64(t *Tetra, p Vec, q [3]float64) bool { return isBlend64(t, p, q) }

// SpecMeets: the cells of a tetrahedron share a cell with a box of a periodic
// grid.
func SpecMeets(p, q, r, s *Vec, o, w [3]int, n int) bool {
	return all(j, 0, 3, ringMeet(lowCell(p[j], q[j], r[j], s[j], 1), highCell(p[j], q[j], r[j], s[j], 1)+1-lowCell(p[j], q[j], r[j], s[j], 1), o[j], w[j], n))
}

//verif:lemma
//verif:property C17
func lemma_cellRange(a, b, c, d float32, lo, hi int) {
	requires(all(k, 0, 4, float64(lo) <= float64([4]float32{a, b, c, d}[k]) && float64([4]float32{a, b, c, d}[k]) <= float64(hi)))
	ensures("ordered", lowCell(a, b, c, d, 1) <= highCell(a, b, c, d, 1))
	ensures("in range", lo <= lowCell(a, b, c, d, 1) && highCell(a, b, c, d, 1) <= hi)
}

func Gen_lemma_cellRange(r *vpRng) (float32, float32, float32, float32, int, int) {
	return float32(r.Range(-8, 8)) / 4, float32(r.Range(-8, 8)) / 4, float32(r.Range(-8, 8)) / 4, float32(r.Range(-8, 8)) / 4, -2, 2
}

func SpecDivmod(q, r, n int64) { lemma_divmod64(q, r, n) }

func SpecIdx64(i, n int64) { lemma_idx64(i, n) }

//verif:lemma
//verif:property C17
func lemma_divmod64(q, r, n int64) {
	requires(0 <= r && r < n && q >= 0)
	ensures("quotient", (r+n*q)/n == q)
	ensures("remainder", (r+n*q)%n == r)
}

func Gen_lemma_divmod64(r *vpRng) (int64, int64, int64) {
	n := int64(r.Range(1, 9))
	return int64(r.Range(0, 9)), int64(r.Intn(int(n))), n
}

func SpecInCells(p, q, r, s *Vec, lo, hi int) bool {
	return all(j, 0, 3, lo <= lowCell(p[j], q[j], r[j], s[j], 1) && lowCell(p[j], q[j], r[j], s[j], 1) <= highCell(p[j], q[j], r[j], s[j], 1) && highCell(p[j], q[j], r[j], s[j], 1) <= hi)
}

// SpecCellRange bounds the cells of a tetrahedron.
func SpecCellRange(p, q, r, s *Vec, lo, hi int) {
	for j := 0; j < 3; j++ {
		lemma_cellRange(p[j], q[j], r[j], s[j], lo, hi)
	}
}

func SpecOkTetra(t *Tetra) bool { return okTetra(t) }

func SpecNear(a, b float64, t *Tetra) bool { return near(a, b, span(t)) }

func Gen_Contract_Distribute(r *vpRng) (*Tetra, []float64, []float64, []float64, []Vec) {
	n := r.Range(0, 5)
	c := [3][]float64{}
	for j := range c {
		c[j] = make([]float64, n)
		for i := range c[j] {
			c[j][i] = float64(r.Range(0, 16)) / 16
		}
	}
	return genTetra(r), c[0], c[1], c[2], make([]Vec, n)
}
