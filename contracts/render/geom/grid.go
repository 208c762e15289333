package geom

// ---------------------------------------------------------------- vocabulary

func okGrid(g *Grid) bool {
	return g.Width[0] >= 1 && g.Width[1] >= 1 && g.Width[2] >= 1 && g.Length == g.Width[0] &&
		g.Area == g.Width[0]*g.Width[1] && g.Volume == g.Width[0]*g.Width[1]*g.Width[2] &&
		all(i, 0, 3, g.uBounds[i] == g.Origin[i]+g.Width[i])
}

func inside(g *Grid, x, y, z int) bool {
	return g.Origin[0] <= x && x < g.Origin[0]+g.Width[0] &&
		g.Origin[1] <= y && y < g.Origin[1]+g.Width[1] &&
		g.Origin[2] <= z && z < g.Origin[2]+g.Width[2]
}

// gridIdx is the row-major position of a cell.
func gridIdx(g *Grid, x, y, z int) int {
	return (x - g.Origin[0]) + g.Width[0]*((y-g.Origin[1])+g.Width[1]*(z-g.Origin[2]))
}

func genGrid(r *vpRng) *Grid {
	return NewGrid([3]int{r.Range(-3, 5), r.Range(-3, 5), r.Range(-3, 5)}, [3]int{r.Range(1, 5), r.Range(1, 5), r.Range(1, 5)})
}

func genCell(r *vpRng, g *Grid) (int, int, int) {
	return g.Origin[0] + r.Range(0, g.Width[0]-1), g.Origin[1] + r.Range(0, g.Width[1]-1), g.Origin[2] + r.Range(0, g.Width[2]-1)
}

// ---------------------------------------------------------------- index arithmetic

// Row-major positions: 0 <= a < A, 0 <= b < B, 0 <= c < C give
// 0 <= a + A (b + B c) < A B C, and division recovers the digits.
//
//verif:lemma
//verif:property C13
func lemma_rowmajor(a, b, c, A, B, C int) {
	requires(0 <= a && a < A && 0 <= b && b < B && 0 <= c && c < C)
	ensures("lower bounds", 0 <= a+A*b && 0 <= a+A*(b+B*c))
	ensures("a row fits its plane", a+A*b <= A*B-1)
	assert("bounded column", b+B*c <= B*C-1)
	assert("scaled", A*(b+B*c) <= A*(B*C-1))
	ensures("a plane fits the grid", a+A*(b+B*c) <= A*B*C-1)
}

//verif:lemma
//verif:property C13
func lemma_divmod(q, r, n int) {
	requires(0 <= r && r < n)
	ensures("quotient", (r+n*q)/n == q || q < 0)
	ensures("remainder", (r+n*q)%n == r || q < 0)
}

//verif:client
//verif:property C13
func Client_NewGrid(origin, width [3]int) {
	requires(width[0] >= 1 && width[1] >= 1 && width[2] >= 1)
	g := NewGrid(origin, width)
	ensures("the invariant is established", okGrid(g) && g.Origin == origin && g.Width == width)
}

//verif:client
//verif:property C13
func Client_NewGridLocation(origin, width [3]int, boxWidth float64, cells int) {
	requires(width[0] >= 1 && width[1] >= 1 && width[2] >= 1)
	g := NewGridLocation(origin, width, boxWidth, cells)
	ensures("the invariant is established", okGrid(&g.Grid) && g.Origin == origin && g.Width == width)
	ensures("the location is the one given", g.BoxWidth == boxWidth && g.Cells == cells)
}

//verif:client
//verif:property C13
func Client_GridIdx(g *Grid, x, y, z int) {
	requires(okGrid(g) && inside(g, x, y, z))
	a, b, c := x-g.Origin[0], y-g.Origin[1], z-g.Origin[2]
	A, B := g.Width[0], g.Width[1]
	lemma_rowmajor(a, b, c, A, B, g.Width[2])
	i := g.Idx(x, y, z)
	ensures("the row-major position", i == gridIdx(g, x, y, z))
	ensures("inside the slice", 0 <= i && i < g.Volume)
	j, ok := g.IdxCheck(x, y, z)
	ensures("accepted by the checked version", ok && j == i)
	lemma_divmod(c, a+A*b, A*B)
	lemma_divmod(b+B*c, a, A)
	lemma_divmod(b, a, A)
	x1, y1, z1 := g.Coords(i)
	ensures("the coordinates are recovered", x1 == x && y1 == y && z1 == z)
}

// divmodOf states Euclidean division.
//
//verif:lemma
//verif:property C13
func lemma_euclid(i, n int) {
	requires(i >= 0 && n >= 1)
	ensures("division", i == n*(i/n)+i%n && 0 <= i%n && i%n < n && i/n >= 0)
}

//verif:lemma
//verif:property C13
func lemma_quotient(i, n, m int) {
	requires(i >= 0 && n >= 1 && m >= 1 && i < n*m)
	lemma_euclid(i, n)
	assert("scaled", imp(i/n >= m, n*(i/n) >= n*m))
	ensures("the quotient is bounded", i/n < m)
}

//verif:client
//verif:property C13
func Client_GridCoords(g *Grid, i int) {
	requires(okGrid(g) && 0 <= i && i < g.Volume)
	A, B, C := g.Width[0], g.Width[1], g.Width[2]
	lemma_euclid(i, A)
	lemma_euclid(i, A*B)
	lemma_euclid(i%(A*B), A)
	lemma_quotient(i, A*B, C)
	lemma_quotient(i%(A*B), A, B)
	b := (i % (A * B)) / A
	c := i / (A * B)
	lemma_divmod(b+B*c, i%(A*B)-A*b, A)
	x, y, z := g.Coords(i)
	ensures("inside the grid", inside(g, x, y, z) && g.BoundsCheck(x, y, z))
	ensures("the index is recovered", g.Idx(x, y, z) == i)
}

//verif:client
//verif:property C13
func Client_GridOutside(g *Grid, x, y, z int) {
	requires(okGrid(g) && !inside(g, x, y, z))
	_, ok := g.IdxCheck(x, y, z)
	ensures("cells outside are refused", !ok && !g.BoundsCheck(x, y, z))
}

//verif:client
//verif:property C13
func Client_GridInjective(g *Grid, x, y, z, x1, y1, z1 int) {
	requires(okGrid(g) && inside(g, x, y, z) && inside(g, x1, y1, z1))
	Client_GridIdx(g, x, y, z)
	Client_GridIdx(g, x1, y1, z1)
	ensures("different cells have different positions", imp(g.Idx(x, y, z) == g.Idx(x1, y1, z1), x == x1 && y == y1 && z == z1))
}

func Gen_Client_GridIdx(r *vpRng) (*Grid, int, int, int) {
	g := genGrid(r)
	x, y, z := genCell(r, g)
	return g, x, y, z
}

func Gen_Client_GridCoords(r *vpRng) (*Grid, int) {
	g := genGrid(r)
	return g, r.Range(0, g.Volume-1)
}

func Gen_Client_GridOutside(r *vpRng) (*Grid, int, int, int) {
	g := genGrid(r)
	for {
		x, y, z := g.Origin[0]+r.Range(-1, g.Width[0]), g.Origin[1]+r.Range(-1, g.Width[1]), g.Origin[2]+r.Range(-1, g.Width[2])
		if !inside(g, x, y, z) {
			return g, x, y, z
		}
	}
}

func Gen_Client_GridInjective(r *vpRng) (*Grid, int, int, int, int, int, int) {
	g := genGrid(r)
	x, y, z := genCell(r, g)
	x1, y1, z1 := genCell(r, g)
	return g, x, y, z, x1, y1, z1
}

// ---------------------------------------------------------------- boxes of cells

// onRing says that cell p of a periodic axis lies in the w cells from o on.
func onRing(p, o, w, n int) bool {
	return o <= p && p < o+w || o <= p+n && p+n < o+w || o <= p-n && p-n < o+w
}

// arcs says that the periodic intervals share a cell.
func arcs(o1, w1, o2, w2, n int) bool {
	return onRing(o1, o2, w2, n) || onRing(o2, o1, w1, n)
}

func okBox(b *CellBounds, n int) bool {
	return all(i, 0, 3, 0 <= b.Origin[i] && b.Origin[i] < n && 1 <= b.Width[i] && b.Width[i] <= n)
}

// arcs is the same as sharing a cell.
//
//verif:lemma
//verif:property C14
func lemma_arcs(o1, w1, o2, w2, n, p int) {
	requires(0 <= o1 && o1 < n && 1 <= w1 && w1 <= n && 0 <= o2 && o2 < n && 1 <= w2 && w2 <= n && 0 <= p && p < n)
	ensures("a shared cell makes the intervals meet", imp(onRing(p, o1, w1, n) && onRing(p, o2, w2, n), arcs(o1, w1, o2, w2, n)))
	ensures("meeting intervals share an end", imp(arcs(o1, w1, o2, w2, n),
		onRing(o1, o1, w1, n) && onRing(o1, o2, w2, n) || onRing(o2, o1, w1, n) && onRing(o2, o2, w2, n)))
}

// ringMeet says that the intervals share a cell of a periodic axis, wherever
// they start.
//
//verif:rec
func ringMeet(o1, w1, o2, w2, n int) bool {
	return ex(s, -2, 3, o1+s*n < o2+w2 && o2 < o1+s*n+w1)
}

// within2 says that the intervals are less than two periods apart.
func within2(o1, w1, o2, w2, n int) bool {
	return w1 >= 1 && w2 >= 1 && (w1 <= n || w2 <= n) && o1-o2 < 2*n && o2-o1 < 2*n &&
		o1+w1-1-o2 < 2*n && o2+w2-1-o1 < 2*n
}

//verif:contract CellBounds.Intersect
//verif:property C14
func Contract_Intersect(a, b *CellBounds, n int) {
	requires(n >= 1 && all(i, 0, 3, within2(a.Origin[i], a.Width[i], b.Origin[i], b.Width[i], n)))
	r := a.Intersect(b, n)
	ensures("never false when a cell is shared", imp(all(i, 0, 3, ringMeet(a.Origin[i], a.Width[i], b.Origin[i], b.Width[i], n)), r))
	ensures("true exactly when a cell is shared", imp(okBox(a, n) && okBox(b, n), r == all(i, 0, 3, arcs(a.Origin[i], a.Width[i], b.Origin[i], b.Width[i], n))))
}

//verif:client
//verif:property C14
func Client_Intersect(a, b *CellBounds, n int) {
	requires(n >= 1 && okBox(a, n) && okBox(b, n))
	r := a.Intersect(b, n)
	ensures("symmetric", b.Intersect(a, n) == r)
}

//verif:client
//verif:property C14
func Client_IntersectUnbounded(a, b *CellBounds) {
	requires(all(i, 0, 3, a.Width[i] >= 1 && b.Width[i] >= 1))
	a0, b0 := *a, *b
	r := a.IntersectUnbounded(b)
	ensures("true exactly when a cell is shared", r == all(i, 0, 3, a.Origin[i] < b.Origin[i]+b.Width[i] && b.Origin[i] < a.Origin[i]+a.Width[i]))
	ensures("the boxes are unchanged", *a == a0 && *b == b0)
}

func genBox(r *vpRng, n int) *CellBounds {
	b := &CellBounds{}
	for i := 0; i < 3; i++ {
		b.Origin[i] = r.Range(0, n-1)
		b.Width[i] = r.Range(1, n)
		if r.Intn(2) == 0 {
			b.Width[i] = r.Range(1, (n+1)/2)
		}
	}
	return b
}

func Gen_Contract_Intersect(r *vpRng) (*CellBounds, *CellBounds, int) {
	a, b, n := Gen_Client_Intersect(r)
	if r.Intn(2) == 0 {
		i := r.Intn(3)
		a.Origin[i] += n * r.Range(-1, 1)
	}
	return a, b, n
}

func Gen_Client_Intersect(r *vpRng) (*CellBounds, *CellBounds, int) {
	n := r.Range(1, 9)
	a, b := genBox(r, n), genBox(r, n)
	// two axes are made to meet, so that the third one decides
	k := r.Intn(3)
	for i := 0; i < 3; i++ {
		if i != k && r.Intn(4) > 0 {
			b.Origin[i], b.Width[i] = 0, n
		}
	}
	return a, b, n
}

func Gen_Client_IntersectUnbounded(r *vpRng) (*CellBounds, *CellBounds) {
	a, b, _ := Gen_Client_Intersect(r)
	return a, b
}

// ---------------------------------------------------------------- code units

func inUnits(b *CellBounds, cells int, boxWidth float64) bool {
	return cells >= 1 && boxWidth > 0 && all(i, 0, 3, 0 <= b.Origin[i] && b.Origin[i] < cells)
}

func vecsInBox(vs []Vec, w float64) bool {
	return all(k, 0, len(vs), all(i, 0, 3, 0 <= float64(vs[k][i]) && float64(vs[k][i]) <= w))
}

// segUnit is the image of coordinate x in cells measured from an origin.
func segUnit(x float64, origin, cells int, boxWidth float64) float64 {
	y := x*float64(cells)/boxWidth - float64(origin)
	if y < 0 {
		return y + float64(cells)
	}
	return y
}

// wrapDiff is a displacement of origins taken the short way round.
func wrapDiff(d, cells int) float64 {
	if 2*d < -cells {
		return float64(d + cells)
	}
	if 2*d > cells {
		return float64(d - cells)
	}
	return float64(d)
}

func segScaled(vs, vs0 []Vec, origin [3]int, cells int, boxWidth float64, lo, hi int) bool {
	return all(k, lo, hi, all(j, 0, 3, near(float64(vs[k][j]), segUnit(float64(vs0[k][j]), origin[j], cells, boxWidth), float64(cells))))
}

func domScaled(vs, vs0 []Vec, origin, dom [3]int, cells int, boxWidth float64, lo, hi int) bool {
	return all(k, lo, hi, all(j, 0, 3, near(float64(vs[k][j]), segUnit(float64(vs0[k][j]), origin[j], cells, boxWidth)+wrapDiff(origin[j]-dom[j], cells), float64(cells))))
}

func unchanged(vs, vs0 []Vec, lo int) bool {
	return all(k, lo, len(vs0), all(j, 0, 3, vs[k][j] == vs0[k][j]))
}

//verif:contract CellBounds.ScaleVecsSegment
//verif:property C21
func Contract_ScaleVecsSegment(b *CellBounds, vs []Vec, cells int, boxWidth float64) {
	requires(inUnits(b, cells, boxWidth) && vecsInBox(vs, boxWidth))
	vs0 := snap(vs)
	b0 := *b
	modifies(vs)
	loop(0, "segScaled(vs, old(vs), vcb.Origin, cells, boxWidth, 0, iter())", "unchanged(vs, old(vs), iter())")
	b.ScaleVecsSegment(vs, cells, boxWidth)
	ensures("cells counted from the origin of the segment", segScaled(vs, vs0, b.Origin, cells, boxWidth, 0, len(vs)))
	ensures("the segment is unchanged", *b == b0)
}

//verif:lemma
//verif:property C21
func lemma_segUnit(x float64, origin, cells int, boxWidth float64) {
	requires(cells >= 1 && boxWidth > 0 && 0 <= origin && origin < cells && 0 <= x && x <= boxWidth)
	u := x * float64(cells) / boxWidth
	assert("scaled by the box", u*boxWidth == x*float64(cells))
	assert("at most the box", x*float64(cells) <= boxWidth*float64(cells))
	assert("u is in the box", 0 <= u && u <= float64(cells))
	y := segUnit(x, origin, cells, boxWidth)
	ensures("inside the periodic box", 0 <= y && y <= float64(cells))
	ensures("the same point", y+float64(origin) == u || y+float64(origin) == u+float64(cells))
}

//verif:contract CellBounds.ScaleVecsDomain
//verif:property C21
func Contract_ScaleVecsDomain(b, dom *CellBounds, vs []Vec, cells int, boxWidth float64) {
	requires(inUnits(b, cells, boxWidth) && inUnits(dom, cells, boxWidth) && vecsInBox(vs, boxWidth))
	vs0 := snap(vs)
	b0, dom0 := *b, *dom
	modifies(vs)
	loop(0, "domScaled(vs, old(vs), vcb.Origin, cb.Origin, cells, boxWidth, 0, iter())", "unchanged(vs, old(vs), iter())")
	b.ScaleVecsDomain(dom, vs, cells, boxWidth)
	ensures("cells counted from the origin of the domain", domScaled(vs, vs0, b.Origin, dom.Origin, cells, boxWidth, 0, len(vs)))
	ensures("the boxes are unchanged", *b == b0 && *dom == dom0)
}

func Gen_Contract_ScaleVecsSegment(r *vpRng) (*CellBounds, []Vec, int, float64) {
	n := 1 << uint(r.Range(0, 4))
	vs := make([]Vec, r.Range(0, 5))
	for i := range vs {
		vs[i] = genVec(r, 0, 4)
	}
	return genBox(r, n), vs, n, 4
}

func Gen_Contract_ScaleVecsDomain(r *vpRng) (*CellBounds, *CellBounds, []Vec, int, float64) {
	b, vs, n, w := Gen_Contract_ScaleVecsSegment(r)
	return b, genBox(r, n), vs, n, w
}

// ---------------------------------------------------------------- for other packages

func SpecInUnits(b *CellBounds, cells int, boxWidth float64) bool { return inUnits(b, cells, boxWidth) }

func SpecVecsInBox(vs []Vec, w float64) bool { return vecsInBox(vs, w) }

func SpecSegScaled(vs, vs0 []Vec, origin [3]int, cells int, boxWidth float64) bool {
	return segScaled(vs, vs0, origin, cells, boxWidth, 0, len(vs0))
}

func SpecDomScaled(vs, vs0 []Vec, origin, dom [3]int, cells int, boxWidth float64) bool {
	return domScaled(vs, vs0, origin, dom, cells, boxWidth, 0, len(vs0))
}
