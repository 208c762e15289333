package render

import (
	"math"
	"strings"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

// ---------------------------------------------------------------- segments

// within says that point b, given in [0, L), lies in the half-open segment of
// a periodic box of width L which starts at a and has length span.
func within(a, span, b, L float64) bool {
	return a <= b && b < a+span || a <= b+L && b+L < a+span
}

// okSeg: a segment of the periodic box.
func okSeg(a, span, L float64) bool { return 0 <= a && a < L && 0 <= span && span <= L }

func wrapped(b, L float64) float64 { return pick(b >= L, b-L, b) }

//verif:contract contains1D
//verif:property C28
func Contract_contains1D(a, aSpan, b, L float64) {
	requires(okSeg(a, aSpan, L) && 0 <= b && b < 2*L)
	r := contains1D(a, aSpan, b, L)
	ensures("the segment contains the point", r == within(a, aSpan, wrapped(b, L), L))
}

// lemma_share: segments that share a point contain the start of one another.
//
//verif:lemma
func lemma_share(a, aSpan, b, bSpan, L, p float64) {
	requires(okSeg(a, aSpan, L) && okSeg(b, bSpan, L) && 0 <= p && p < L && within(a, aSpan, p, L) && within(b, bSpan, p, L))
	ensures("start", within(a, aSpan, b, L) || within(b, bSpan, a, L))
}

//verif:contract intersect1D
//verif:property C28
func Contract_intersect1D(a, aSpan, b, bSpan, L float64) {
	requires(okSeg(a, aSpan, L) && okSeg(b, bSpan, L))
	r := intersect1D(a, aSpan, b, bSpan, L)
	ensures("an end of one is in the other", r == (within(a, aSpan, b, L) || within(b, bSpan, a, L) ||
		within(a, aSpan, wrapped(b+bSpan, L), L) || within(b, bSpan, wrapped(a+aSpan, L), L)))
}

// okHistBox: a histogram box inside the simulation.
func okHistBox(box *HistBox, L float64) bool {
	return all(k, 0, 3, okSeg(box.Origin[k], box.Span[k], L))
}

// inHistBox says that a point lies in a histogram box.
func inHistBox(box *HistBox, v geom.Vec, L float64) bool {
	return all(k, 0, 3, within(box.Origin[k], box.Span[k], float64(v[k]), L))
}

func inSim(v geom.Vec, L float64) bool { return all(k, 0, 3, 0 <= v[k] && float64(v[k]) < L) }

//verif:contract HistBox.Contains
//verif:property C28
func Contract_HistContains(box *HistBox, v geom.Vec, L float64) {
	requires(okHistBox(box, L) && inSim(v, L))
	r := box.Contains(v, L)
	ensures("inside along every axis", r == inHistBox(box, v, L))
}

//verif:client
//verif:property C28
func Client_histIntersect(hd *io.SheetHeader, box *HistBox, v geom.Vec) {
	L := hd.TotalWidth
	requires(okHistBox(box, L) && inSim(v, L) && all(k, 0, 3, okSeg(float64(hd.Origin[k]), float64(hd.Width[k]), L)))
	requires(inHistBox(box, v, L) && all(k, 0, 3, within(float64(hd.Origin[k]), float64(hd.Width[k]), float64(v[k]), L)))
	for k := 0; k < 3; k++ {
		lemma_share(float64(hd.Origin[k]), float64(hd.Width[k]), box.Origin[k], box.Span[k], L, float64(v[k]))
	}
	ensures("a sheet with a point in the box is used", histIntersect(hd, box))
}

//verif:client
//verif:property C28
func Client_NewHistBox(con *io.BoxConfig, bins int) {
	requires(bins >= 0)
	b := NewHistBox(con, bins)
	ensures("the configured box", b.Origin[0] == con.X && b.Origin[1] == con.Y && b.Origin[2] == con.Z &&
		b.Span[0] == con.XWidth && b.Span[1] == con.YWidth && b.Span[2] == con.ZWidth)
	ensures("one entry per bin", len(b.Centers) == bins && len(b.Counts) == bins && all(i, 0, bins, b.Counts[i] == 0))
}

// ---------------------------------------------------------------- the grid

// okGridHd: the header of a grid of cubic pixels that lies in a periodic box.
func okGridHd(hd *io.GridHeader) bool {
	return hd.Loc.PixelWidth > 0 && all(k, 0, 3, okSeg(hd.Loc.Origin[k], hd.Loc.Span[k], hd.Cosmo.BoxWidth) &&
		1 <= hd.Loc.PixelSpan[k] && feq(float64(hd.Loc.PixelSpan[k])*hd.Loc.PixelWidth, hd.Loc.Span[k]))
}

// offset is the distance of a coordinate from the origin of the grid, along
// the periodic box.
func offset(hd *io.GridHeader, k int, v float64) float64 {
	return pick(v < hd.Loc.Origin[k], v-hd.Loc.Origin[k]+hd.Cosmo.BoxWidth, v-hd.Loc.Origin[k])
}

// onPixel says that pixel i along axis k contains the coordinate.
func onPixel(hd *io.GridHeader, k, i int, v float64) bool {
	return fle(float64(i)*hd.Loc.PixelWidth, offset(hd, k, v)) && fle(offset(hd, k, v), float64(i+1)*hd.Loc.PixelWidth)
}

//verif:lemma
func lemma_pixel(d, w float64, n int) {
	requires(w > 0 && 0 <= d && d < float64(n)*w)
	i := int(d / w)
	assert("quotient", d/w*w == d)
	ensures("a pixel", 0 <= i && i < n)
	ensures("around the point", float64(i)*w <= d && d <= float64(i+1)*w)
}

func gridLen(hd *io.GridHeader) int {
	return int(hd.Loc.PixelSpan[0]) * int(hd.Loc.PixelSpan[1]) * int(hd.Loc.PixelSpan[2])
}

//verif:lemma
func lemma_cellIndex(x, y, z, a, b, c int) {
	requires(0 <= x && x < a && 0 <= y && y < b && 0 <= z && z < c)
	assert("rows", a*y <= a*(b-1))
	assert("planes", a*b*z <= a*b*(c-1))
	ensures("in range", 0 <= x+y*a+z*(a*b) && x+y*a+z*(a*b) < a*b*c)
}

//verif:contract gridIndex
//verif:property C28
func Contract_gridIndex(hd *io.GridHeader, vec geom.Vec) {
	requires(okGridHd(hd) && inSim(vec, hd.Cosmo.BoxWidth))
	idx := gridIndex(hd, vec)
	out := ex(k, 0, 3, offset(hd, k, float64(vec[k])) >= hd.Loc.Span[k])
	ensures("points outside the grid have no pixel", imp(out, idx == -1))
	if !out {
		for k := 0; k < 3; k++ {
			lemma_pixel(offset(hd, k, float64(vec[k])), hd.Loc.PixelWidth, int(hd.Loc.PixelSpan[k]))
		}
		x, y, z := pixelOf(hd, 0, vec), pixelOf(hd, 1, vec), pixelOf(hd, 2, vec)
		ensures("a pixel of the grid", idx == x+y*int(hd.Loc.PixelSpan[0])+z*int(hd.Loc.PixelSpan[0]*hd.Loc.PixelSpan[1]))
		lemma_cellIndex(x, y, z, int(hd.Loc.PixelSpan[0]), int(hd.Loc.PixelSpan[1]), int(hd.Loc.PixelSpan[2]))
		ensures("the same for the same point", idx == gridPix(hd, vec))
		ensures("a value of the grid", 0 <= idx && idx < gridLen(hd))
		ensures("in the grid", 0 <= x && x < int(hd.Loc.PixelSpan[0]) && 0 <= y && y < int(hd.Loc.PixelSpan[1]) && 0 <= z && z < int(hd.Loc.PixelSpan[2]))
		ensures("around the point", onPixel(hd, 0, x, float64(vec[0])) && onPixel(hd, 1, y, float64(vec[1])) && onPixel(hd, 2, z, float64(vec[2])))
	}
}

// pixelAt is the index of the pixel of a grid that contains a point of it.
//
//verif:rec
func pixelAt(o0, o1, o2, w, L float64, n0, n1 int64, v0, v1, v2 float64) int {
	return int(pick(v0 < o0, v0-o0+L, v0-o0)/w) + int(pick(v1 < o1, v1-o1+L, v1-o1)/w)*int(n0) + int(pick(v2 < o2, v2-o2+L, v2-o2)/w)*int(n0*n1)
}

func gridPix(hd *io.GridHeader, v geom.Vec) int {
	return pixelAt(hd.Loc.Origin[0], hd.Loc.Origin[1], hd.Loc.Origin[2], hd.Loc.PixelWidth, hd.Cosmo.BoxWidth,
		hd.Loc.PixelSpan[0], hd.Loc.PixelSpan[1], float64(v[0]), float64(v[1]), float64(v[2]))
}

func pixelOf(hd *io.GridHeader, k int, v geom.Vec) int {
	return int(offset(hd, k, float64(v[k])) / hd.Loc.PixelWidth)
}

// ---------------------------------------------------------------- bins

func isLog(info *HistInfo) bool { return strings.ToLower(info.Scale) == "log" }

// scaled is the value that is binned.
func scaled(info *HistInfo, x float64) float64 { return pick(isLog(info), math.Log10(x), x) }

func binWidth(info *HistInfo) float64 {
	return (scaled(info, info.Max) - scaled(info, info.Min)) / float64(info.Bins)
}

// inBin says that x belongs to bin b.
func inBin(info *HistInfo, x float64, b int) bool {
	q := (scaled(info, x) - scaled(info, info.Min)) / binWidth(info)
	return float64(b) <= q && q < float64(b+1)
}

// binned is how many of the first n values are accepted and in bin b.
//
//verif:rec
func binned(n, b int, x []float64, ok []bool, log bool, min, dx float64) int {
	if n <= 0 {
		return 0
	}
	v := x[n-1]
	if log {
		v = math.Log10(v)
	}
	q := (v - min) / dx
	if ok[n-1] && float64(b) <= q && q < float64(b+1) {
		return binned(n-1, b, x, ok, log, min, dx) + 1
	}
	return binned(n-1, b, x, ok, log, min, dx)
}

//verif:contract histogram
//verif:property C28
func Contract_histogram(x []float64, ok []bool, info *HistInfo, counts []int) {
	requires(len(ok) == len(x) && len(counts) == info.Bins && info.Bins >= 1 && info.Min < info.Max && imp(isLog(info), info.Min > 0 && scaled(info, info.Min) < scaled(info, info.Max) && all(i, 0, len(x), imp(ok[i], x[i] > 0))))
	loop(0, "len(counts) == old(len(counts))", "all(b, 0, info.Bins, counts[b] == old(counts[b])+binned(iter(), b, x, ok, true, min, dx))")
	loop(1, "len(counts) == old(len(counts))", "all(b, 0, info.Bins, counts[b] == old(counts[b])+binned(iter(), b, x, ok, false, min, dx))")
	modifies(counts)
	was := snap(counts)
	histogram(x, ok, info, counts)
	ensures("every accepted value in its bin", all(b, 0, info.Bins, counts[b] == was[b]+binned(len(x), b, x, ok, isLog(info), scaled(info, info.Min), binWidth(info))))
}

//verif:contract histCenters
//verif:property C28
func Contract_histCenters(info *HistInfo) {
	requires(info.Bins >= 1 && info.Min < info.Max && imp(isLog(info), info.Min > 0 && scaled(info, info.Min) < scaled(info, info.Max)))
	c := histCenters(info)
	ensures("one per bin", len(c) == info.Bins)
	ensures("the middle of the bin", imp(!isLog(info), all(b, 0, info.Bins, feqTol(c[b], info.Min+(float64(b)+0.5)*binWidth(info), info.Min))))
	ensures("the middle of the bin, on the log scale", imp(isLog(info), all(b, 0, info.Bins,
		feqTol(c[b], math.Pow(10, scaled(info, info.Min)+binWidth(info)*(float64(b)+0.5)), c[b]))))
}

func genSeg(r *vpRng, L float64) (float64, float64) {
	a := r.Float64() * L
	if r.Intn(4) == 0 {
		a = float64(r.Intn(int(L)))
	}
	w := r.Float64() * L
	if r.Intn(3) == 0 {
		w = float64(r.Range(0, int(L)))
	}
	return a, w
}

func genPoint(r *vpRng, L float64) float64 {
	if r.Intn(3) == 0 {
		return float64(r.Intn(int(L)))
	}
	return r.Float64() * L
}

func Gen_Contract_contains1D(r *vpRng) (float64, float64, float64, float64) {
	L := float64(r.Range(1, 8))
	a, w := genSeg(r, L)
	return a, w, 2 * genPoint(r, L), L
}

func Gen_Contract_intersect1D(r *vpRng) (float64, float64, float64, float64, float64) {
	L := float64(r.Range(1, 8))
	a, w := genSeg(r, L)
	b, v := genSeg(r, L)
	return a, w, b, v, L
}

func genHistBox(r *vpRng, L float64) *HistBox {
	b := &HistBox{}
	for k := range b.Origin {
		b.Origin[k], b.Span[k] = genSeg(r, L)
	}
	return b
}

func genVec(r *vpRng, L float64) (v geom.Vec) {
	for k := range v {
		v[k] = float32(genPoint(r, L) * 0.999)
	}
	return v
}

func Gen_Contract_HistContains(r *vpRng) (*HistBox, geom.Vec, float64) {
	L := float64(r.Range(1, 8))
	return genHistBox(r, L), genVec(r, L), L
}

func Gen_Client_histIntersect(r *vpRng) (*io.SheetHeader, *HistBox, geom.Vec) {
	L := float64(r.Range(1, 8))
	hd := &io.SheetHeader{TotalWidth: L}
	for k := range hd.Origin {
		a, w := genSeg(r, L)
		hd.Origin[k], hd.Width[k] = float32(a*0.999), float32(w*0.999)
	}
	return hd, genHistBox(r, L), genVec(r, L)
}

func Gen_Contract_gridIndex(r *vpRng) (*io.GridHeader, geom.Vec) {
	hd := &io.GridHeader{}
	hd.Loc.PixelWidth = float64(r.Range(1, 4)) / 4
	n := r.Range(1, 8)
	L := float64(n) * hd.Loc.PixelWidth
	hd.Cosmo.BoxWidth = L
	for k := range hd.Loc.Origin {
		hd.Loc.PixelSpan[k] = int64(r.Range(1, n))
		hd.Loc.Span[k] = float64(hd.Loc.PixelSpan[k]) * hd.Loc.PixelWidth
		hd.Loc.Origin[k] = float64(r.Intn(n)) * hd.Loc.PixelWidth
	}
	var v geom.Vec
	for k := range v {
		v[k] = float32(r.Float64() * 0.999 * L)
	}
	return hd, v
}

func genHist(r *vpRng) *HistInfo {
	info := &HistInfo{Min: r.Pos(), Bins: r.Range(1, 6), Scale: []string{"Log", "linear"}[r.Intn(2)]}
	info.Max = info.Min + r.Pos()
	return info
}

func Gen_Contract_histCenters(r *vpRng) *HistInfo { return genHist(r) }

func Gen_Contract_histogram(r *vpRng) ([]float64, []bool, *HistInfo, []int) {
	info := genHist(r)
	n := r.Range(0, 6)
	x, ok := make([]float64, n), make([]bool, n)
	for i := range x {
		x[i] = info.Min + (r.Float64()*1.6-0.3)*(info.Max-info.Min)
		if x[i] <= 0 {
			x[i] = info.Max
		}
		ok[i] = r.Intn(4) != 0
	}
	return x, ok, info, make([]int, info.Bins)
}

// ---------------------------------------------------------------- cubes

// near is the periodic image of x closest to c.
func near(x, c, L float32) float32 { return pick(x-c > L/2, x-L, pick(x-c < -L/2, x+L, x)) }

//verif:contract HistManager.periodizeTetra
//verif:property C28
func Contract_periodizeTetra(man *HistManager, tet *geom.Tetra, L float32) {
	requires(L > 0)
	modifies(&tet.Corners)
	was := snap(tet)
	man.periodizeTetra(tet, L)
	ensures("the first corner stays", all(k, 0, 3, tet.Corners[0][k] == was.Corners[0][k]))
	ensures("the others are the images closest to it", all(i, 1, 4, all(k, 0, 3, tet.Corners[i][k] == near(was.Corners[i][k], was.Corners[0][k], L))))
}

// rel is the offset of x from c along the shorter way around the box.
func rel(x, c, L float32) float32 { return near(x, c, L) - c }

// corner c of the Lagrangian cube at a grid point.
func corner(man *HistManager, ix, iy, iz, c int) geom.Vec {
	w := int(man.hd.GridWidth)
	return man.xs[ix+(c%2)*man.skip+(iy+(c/2%2)*man.skip)*w+(iz+(c/4)*man.skip)*w*w]
}

// compact says that all corners lie within a quarter of the box of the first.
func compact(man *HistManager, ix, iy, iz int, L float32) bool {
	p := corner(man, ix, iy, iz, 0)
	return all(c, 0, 8, all(k, 0, 3, 0 <= corner(man, ix, iy, iz, c)[k] && corner(man, ix, iy, iz, c)[k] < L &&
		-L/4 < rel(corner(man, ix, iy, iz, c)[k], p[k], L) && rel(corner(man, ix, iy, iz, c)[k], p[k], L) < L/4))
}

// okBounds: a bounding box around the first corner.
func okBounds(man *HistManager, ix, iy, iz int, o, s geom.Vec, L float32) bool {
	p := corner(man, ix, iy, iz, 0)
	return all(k, 0, 3, 0 <= o[k] && o[k] < L && 0 <= s[k] && -L/4 < rel(o[k], p[k], L) && rel(o[k], p[k], L) <= 0 && rel(o[k], p[k], L)+s[k] < L/4)
}

// coversCorner says that a bounding box contains a corner.
func coversCorner(man *HistManager, ix, iy, iz, c int, o, s geom.Vec, L float32) bool {
	p := corner(man, ix, iy, iz, 0)
	return all(k, 0, 3, rel(o[k], p[k], L) <= rel(corner(man, ix, iy, iz, c)[k], p[k], L) &&
		rel(corner(man, ix, iy, iz, c)[k], p[k], L) <= rel(o[k], p[k], L)+s[k])
}

// step says that d has taken a step of a loop that ends after one.
func step(d, jump int) bool { return d == 0 || d == jump || d == 2*jump }

//verif:contract HistManager.cubeBoundingBox
//verif:property C28
func Contract_cubeBoundingBox(man *HistManager, ix, iy, iz int) {
	w, L := int(man.hd.GridWidth), float32(man.hd.TotalWidth)
	requires(man.skip >= 1 && 0 <= ix && 0 <= iy && 0 <= iz && ix+man.skip < w && iy+man.skip < w && iz+man.skip < w && len(man.xs) == w*w*w && L > 0)
	requires(compact(man, ix, iy, iz, L))
	loop(0, "step(dz, jump)", "okBounds(man, ix, iy, iz, origin, span, L)",
		"all(c, 0, 8, imp((c/4)*jump < dz, coversCorner(man, ix, iy, iz, c, origin, span, L)))")
	loop(1, "step(dy, jump)", "okBounds(man, ix, iy, iz, origin, span, L)",
		"all(c, 0, 8, imp((c/4)*jump < dz || (c/4)*jump == dz && (c/2%2)*jump < dy, coversCorner(man, ix, iy, iz, c, origin, span, L)))")
	loop(2, "step(dx, jump)", "okBounds(man, ix, iy, iz, origin, span, L)",
		"all(c, 0, 8, imp((c/4)*jump < dz || (c/4)*jump == dz && ((c/2%2)*jump < dy || (c/2%2)*jump == dy && (c%2)*jump < dx), coversCorner(man, ix, iy, iz, c, origin, span, L)))")
	o, s := man.cubeBoundingBox(ix, iy, iz)
	ensures("in the box", okBounds(man, ix, iy, iz, o, s, L))
	ensures("contains every corner", all(c, 0, 8, coversCorner(man, ix, iy, iz, c, o, s, L)))
	ensures("along the box", all(c, 0, 8, all(k, 0, 3, pick(corner(man, ix, iy, iz, c)[k] < o[k], corner(man, ix, iy, iz, c)[k]-o[k]+L, corner(man, ix, iy, iz, c)[k]-o[k]) <= s[k])))
}

// lemma_bounds: a segment that contains a point of a bounding box, its end
// included, intersects it.
//
//verif:lemma
func lemma_bounds(a, aSpan, o, s, L, p float64) {
	requires(okSeg(a, aSpan, L) && okSeg(o, s, L) && 0 <= p && p < L && within(a, aSpan, p, L))
	requires(pick(p < o, p-o+L, p-o) <= s)
	ensures("an end of one is in the other", within(a, aSpan, o, L) || within(o, s, a, L) || within(a, aSpan, wrapped(o+s, L), L))
}

//verif:contract HistManager.cubeIntersects
//verif:property C28
func Contract_cubeIntersects(man *HistManager, idx int) {
	w, L := int(man.hd.GridWidth), float32(man.hd.TotalWidth)
	ix, iy, iz := idx%w, idx/w%w, idx/(w*w)
	requires(man.skip >= 1 && idx >= 0 && w >= 1 && ix+man.skip < w && iy+man.skip < w && iz+man.skip < w && len(man.xs) == w*w*w && L > 0)
	requires(compact(man, ix, iy, iz, L))
	requires(all(k, 0, 3, okSeg(float64(man.hd.Origin[k]), float64(man.hd.Width[k]), float64(L))))
	r := man.cubeIntersects(idx)
	ensures("a cube with a corner in the sheet is used", all(c, 0, 8, imp(all(k, 0, 3, within(float64(man.hd.Origin[k]), float64(man.hd.Width[k]), float64(corner(man, ix, iy, iz, c)[k]), float64(L))), r)))
}

// ---------------------------------------------------------------- samples

// wrapIn moves a point within half a box of the simulation
// into it.
func wrapIn(x, L float64) float64 { return pick(x >= L, x-L, pick(x < 0, x+L, x)) }

// tetraOf is the tetrahedron of a cube with its corners on the same side of
// the periodic box as the first.
func tetraOf(xs []geom.Vec, idx, gw, skip int64, dir int, L float32) *geom.Tetra {
	t := &geom.Tetra{}
	p := xs[geom.SpecVertex(idx, gw, skip, dir, 0)]
	for c := 0; c < 4; c++ {
		q := xs[geom.SpecVertex(idx, gw, skip, dir, c)]
		t.Corners[c] = geom.Vec{near(q[0], p[0], L), near(q[1], p[1], L), near(q[2], p[2], L)}
	}
	return t
}

func isImage(t *geom.Tetra, u, v geom.Vec, L float64) bool {
	return all(k, 0, 3, geom.SpecNear(float64(v[k]), wrapIn(geom.SpecBlend(t, k, u), L), t))
}

// measured: a sample is accepted when it lies in the histogram box and in the
// grid, with the value of the pixel around it.
func measured(man *HistManager, box *HistBox, v geom.Vec, d float64, ok bool) bool {
	L := man.hd.TotalWidth
	out := ex(k, 0, 3, offset(man.gridHd, k, float64(v[k])) >= man.gridHd.Loc.Span[k])
	return inSim(v, L) && ok == (inHistBox(box, v, L) && !out) && imp(!ok, d == -1) && imp(ok, d == man.grid[gridPix(man.gridHd, v)])
}

// lemma_blend: a point of a tetrahedron lies between its corners.
//
//verif:lemma
func lemma_blend(t *geom.Tetra, u geom.Vec, k int, lo, hi float64) {
	requires(0 <= k && k < 3 && inUnit(u) && all(c, 0, 4, lo <= float64(t.Corners[c][k]) && float64(t.Corners[c][k]) <= hi))
	s, p, q := float64(u[0]), float64(u[1]), float64(u[2])
	a, b, c, d := float64(t.Corners[0][k]), float64(t.Corners[1][k]), float64(t.Corners[2][k]), float64(t.Corners[3][k])
	assert("below", s*lo <= s*a && p*lo <= p*b && q*lo <= q*c && (1-s-p-q)*lo <= (1-s-p-q)*d)
	assert("above", s*a <= s*hi && p*b <= p*hi && q*c <= q*hi && (1-s-p-q)*d <= (1-s-p-q)*hi)
	ensures("between", lo <= geom.SpecBlend(t, k, u) && geom.SpecBlend(t, k, u) <= hi)
}

func inUnit(u geom.Vec) bool { return u[0] >= 0 && u[1] >= 0 && u[2] >= 0 && u[0]+u[1]+u[2] <= 1 }

func blended(tet *geom.Tetra, u, v geom.Vec) bool {
	return all(k, 0, 3, geom.SpecNear(float64(v[k]), geom.SpecBlend(tet, k, u), tet))
}

//verif:lemma
func lemma_vertices(idx, gw, skip int64, dir, c int) {
	requires(skip >= 1 && gw >= 2 && 0 <= idx && idx < gw*gw*gw && 0 <= dir && dir < 6 && 0 <= c && c < 4 && geom.SpecInCube(idx, gw, skip))
	geom.SpecIdx64(idx, gw)
	y, z := idx%(gw*gw)/gw, idx/(gw*gw)
	assert("rows", gw*(y+skip) <= gw*(gw-1))
	assert("planes", gw*gw*(z+skip) <= gw*gw*(gw-1))
	assert("the far corner", idx+skip*(1+gw+gw*gw) < gw*gw*gw)
	v := geom.SpecVertex(idx, gw, skip, dir, c)
	assert("between", skip*gw >= 0 && skip*gw*gw >= 0)
	ensures("a corner in the grid", 0 <= v && v < gw*gw*gw)
}

//verif:annot HistManager.getDensities
func Annot_getDensities() {
	loop(0, "all(j, 0, iter(), isImage(&tet, man.unitBufs[bufIdx][j], vecBuf[j], man.hd.TotalWidth))",
		"all(j, 0, iter(), measured(man, box, vecBuf[j], densities[j], inBox[j]))",
		"all(j, iter(), len(vecBuf), blended(&tet, man.unitBufs[bufIdx][j], vecBuf[j]))",
		"start: lemma_blend(&tet, man.unitBufs[bufIdx][iter()], 0, -float64(L)/2, 3*float64(L)/2)",
		"start: lemma_blend(&tet, man.unitBufs[bufIdx][iter()], 1, -float64(L)/2, 3*float64(L)/2)",
		"start: lemma_blend(&tet, man.unitBufs[bufIdx][iter()], 2, -float64(L)/2, 3*float64(L)/2)")
}

//verif:client
//verif:property C28
//verif:opaque geom.vertex geom.mix geom.sv pixelAt
func Client_getDensities(xs []geom.Vec, L float64, gw, skip int64, i, dir int, box *HistBox, gridHd *io.GridHeader, grid []float64,
	ub0, ub1 []geom.Vec, points int, vecBuf []geom.Vec, densities []float64, ok []bool) {
	requires(points >= 1 && len(ub0) == points && len(ub1) == points && len(vecBuf) == points && len(densities) == points && len(ok) == points)
	requires(all(k, 0, points, inUnit(ub0[k]) && inUnit(ub1[k])))
	requires(gw >= 2 && skip >= 1 && 0 <= dir && dir < 6 && 0 <= i && int64(i) < gw*gw*gw && geom.SpecInCube(int64(i), gw, skip) && int64(len(xs)) == gw*gw*gw)
	requires(L > 0 && all(k, 0, len(xs), inSim(xs[k], L)) && okHistBox(box, L))
	requires(okGridHd(gridHd) && gridHd.Cosmo.BoxWidth == L && len(grid) == gridLen(gridHd))
	for c := 0; c < 4; c++ {
		lemma_vertices(int64(i), gw, skip, dir, c)
	}
	man := &HistManager{xs: xs, skip: int(skip), unitBufs: [][]geom.Vec{ub0, ub1}, gridHd: gridHd, grid: grid}
	man.hd.TotalWidth, man.hd.GridWidth = L, gw
	man.getDensities(i, dir, box, vecBuf, densities, ok)
	t := tetraOf(xs, int64(i), gw, skip, dir, float32(L))
	ensures("samples of the tetrahedron", all(j, 0, points, isImage(t, ub0[j], vecBuf[j], L)) || all(j, 0, points, isImage(t, ub1[j], vecBuf[j], L)))
	ensures("accepted in the box and the grid, with the value of the grid", all(j, 0, points, measured(man, box, vecBuf[j], densities[j], ok[j])))
}

func Gen_Contract_periodizeTetra(r *vpRng) (*HistManager, *geom.Tetra, float32) {
	L := float32(r.Range(1, 8))
	t := &geom.Tetra{}
	for c := range t.Corners {
		for k := range t.Corners[c] {
			t.Corners[c][k] = L * float32(r.Intn(16)) / 16
		}
	}
	return &HistManager{}, t, L
}

func genMan(r *vpRng) (*HistManager, int, int, int) {
	L, w := float32(r.Range(1, 8)), r.Range(2, 5)
	man := &HistManager{skip: r.Range(1, w-1), xs: make([]geom.Vec, w*w*w)}
	man.hd.TotalWidth, man.hd.GridWidth = float64(L), int64(w)
	var c, o, s geom.Vec
	for k := range c {
		c[k], o[k], s[k] = L*float32(r.Intn(32))/32, L*float32(r.Intn(32))/32, L*float32(r.Range(0, 32))/32
	}
	man.hd.Origin, man.hd.Width = o, s
	for i := range man.xs {
		for k := range c {
			x := c[k] + L*float32(r.Range(-3, 3))/32
			if x < 0 {
				x += L
			}
			if x >= L {
				x -= L
			}
			man.xs[i][k] = x
		}
	}
	return man, r.Intn(w - man.skip), r.Intn(w - man.skip), r.Intn(w - man.skip)
}

func Gen_Contract_cubeBoundingBox(r *vpRng) (*HistManager, int, int, int) { return genMan(r) }

func Gen_Contract_cubeIntersects(r *vpRng) (*HistManager, int) {
	man, x, y, z := genMan(r)
	w := int(man.hd.GridWidth)
	return man, x + y*w + z*w*w
}

func Gen_Client_getDensities(r *vpRng) ([]geom.Vec, float64, int64, int64, int, int, *HistBox, *io.GridHeader, []float64, []geom.Vec, []geom.Vec, int, []geom.Vec, []float64, []bool) {
	man, x, y, z := genMan(r)
	gw, skip, L, n := man.hd.GridWidth, int64(man.skip), man.hd.TotalWidth, r.Range(1, 4)
	hd := &io.GridHeader{}
	cells := r.Range(1, 5)
	hd.Loc.PixelWidth, hd.Cosmo.BoxWidth = L/float64(cells), L
	for k := range hd.Loc.Origin {
		hd.Loc.PixelSpan[k] = int64(r.Range(1, cells))
		hd.Loc.Span[k] = float64(hd.Loc.PixelSpan[k]) * hd.Loc.PixelWidth
		hd.Loc.Origin[k] = float64(r.Intn(cells)) * hd.Loc.PixelWidth
	}
	ub := [2][]geom.Vec{}
	for b := range ub {
		ub[b] = make([]geom.Vec, n)
		for k := range ub[b] {
			ub[b][k] = geom.Vec{float32(r.Intn(8)) / 16, float32(r.Intn(4)) / 16, float32(r.Intn(4)) / 16}
		}
	}
	return man.xs, L, gw, skip, x + y*int(gw) + z*int(gw*gw), r.Intn(6), genHistBox(r, L), hd, r.Floats(gridLen(hd)), ub[0], ub[1], n,
		make([]geom.Vec, n), make([]float64, n), make([]bool, n)
}
