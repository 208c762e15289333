package geom

// ---------------------------------------------------------------- tilings

// bit is the k-th binary digit of a corner number of the unit cube.
func bit(corner int64, k int) int64 {
	if k == 0 {
		return corner % 2
	}
	if k == 1 {
		return (corner / 2) % 2
	}
	return corner / 4
}

// corner is the index of the corner of a cube of side skip anchored at idx.
func corner(c, idx, n, skip int64) int64 {
	return idx + skip*(bit(c, 0)+n*bit(c, 1)+n*n*bit(c, 2))
}

// det3 is the determinant of three columns.
func det3(a0, a1, a2, b0, b1, b2, c0, c1, c2 float64) float64 {
	return a0*(b1*c2-b2*c1) - a1*(b0*c2-b2*c0) + a2*(b0*c1-b1*c0)
}

// detIdx is six times the signed volume of a tetrahedron on the corners of
// the unit cube, with corner k replaced by the point (x, y, z); k = -1 keeps
// all four corners.
func detIdx(t *TetraIdxs, k int, x, y, z float64) float64 {
	p := [4][3]float64{}
	for i := 0; i < 4; i++ {
		for j := 0; j < 3; j++ {
			p[i][j] = float64(bit(t[i], j))
		}
	}
	if k >= 0 {
		p[k] = [3]float64{x, y, z}
	}
	return det3(p[1][0]-p[0][0], p[1][1]-p[0][1], p[1][2]-p[0][2],
		p[2][0]-p[0][0], p[2][1]-p[0][1], p[2][2]-p[0][2],
		p[3][0]-p[0][0], p[3][1]-p[0][1], p[3][2]-p[0][2])
}

// closedIn: the point has no barycentric coordinate below zero.
func closedIn(t *TetraIdxs, x, y, z float64) bool {
	d := detIdx(t, -1, 0, 0, 0)
	return all(k, 0, 4, detIdx(t, k, x, y, z)*d >= 0)
}

// openIn: the point has positive barycentric coordinates.
func openIn(t *TetraIdxs, x, y, z float64) bool {
	d := detIdx(t, -1, 0, 0, 0)
	return all(k, 0, 4, detIdx(t, k, x, y, z)*d > 0)
}

// unitTetra is the tetrahedron of the unit cube for a direction.
func unitTetra(dir int) *TetraIdxs { return NewTetraIdxs(0, 2, 1, dir) }

//verif:client
//verif:property C16
func Client_Tiling(x, y, z float64) {
	requires(0 <= x && x <= 1 && 0 <= y && y <= 1 && 0 <= z && z <= 1)
	closed, open := 0, 0
	for d := 0; d < 6; d++ {
		t := unitTetra(d)
		ensures("the corners are corners of the cube", all(k, 0, 4, 0 <= t[k] && t[k] < 8))
		v := detIdx(t, -1, 0, 0, 0)
		ensures("a sixth of the cube", v == 1 || v == -1)
		closed += pick(closedIn(t, x, y, z), 1, 0)
		open += pick(openIn(t, x, y, z), 1, 0)
	}
	ensures("every point of the cube is covered", closed >= 1)
	ensures("no point of the cube is covered twice", open <= 1)
}

//verif:lemma
//verif:property C16
func lemma_idx64(i, n int64) {
	requires(n >= 1 && 0 <= i && i < n*n*n)
	lemma_euclid(int(i), int(n*n))
	lemma_euclid(int(i%(n*n)), int(n))
	lemma_quotient(int(i), int(n*n), int(n))
	lemma_quotient(int(i%(n*n)), int(n), int(n))
	lemma_divmod(int((i%(n*n))/n+n*(i/(n*n))), int((i%(n*n))%n), int(n))
	ensures("the first coordinate", 0 <= i%n && i%n < n)
	ensures("the second coordinate", 0 <= (i%(n*n))/n && (i%(n*n))/n < n)
	ensures("the third coordinate", 0 <= i/(n*n) && i/(n*n) < n)
	ensures("the index", i == i%n+n*((i%(n*n))/n)+n*n*(i/(n*n)))
}

// digit is the corner of the unit cube that is corner k of its tetrahedron.
func digit(dir, k int) int64 {
	return (&TetraIdxs{}).InitCartesian(0, 0, 0, 2, dir)[k]
}

// vertex is the index of a corner of a tetrahedron of the cube of side skip
// anchored at idx.
//
//verif:rec
func vertex(idx, n, skip int64, dir, k int) int64 { return corner(digit(dir, k), idx, n, skip) }

// inCube: the cube of side skip anchored at idx lies inside the grid.
func inCube(idx, n, skip int64) bool {
	return idx%n+skip < n && (idx%(n*n))/n+skip < n && idx/(n*n)+skip < n
}

//verif:contract TetraIdxs.Init
//verif:property C16
func Contract_TetraIdxs_Init(idxs *TetraIdxs, idx, countWidth, skip int64, dir int) *TetraIdxs {
	requires(countWidth >= 2 && skip >= 1 && 0 <= dir && dir < 6 && 0 <= idx && idx < countWidth*countWidth*countWidth)
	requires(inCube(idx, countWidth, skip))
	proof(func() { lemma_idx64(idx, countWidth) })
	modifies(idxs)
	returnsSame(idxs)
	r := idxs.Init(idx, countWidth, skip, dir)
	ensures("the first corner", idxs[0] == vertex(idx, countWidth, skip, dir, 0))
	ensures("the second corner", idxs[1] == vertex(idx, countWidth, skip, dir, 1))
	ensures("the third corner", idxs[2] == vertex(idx, countWidth, skip, dir, 2))
	ensures("the fourth corner", idxs[3] == vertex(idx, countWidth, skip, dir, 3))
	return r
}

func Gen_Contract_TetraIdxs_Init(r *vpRng) (*TetraIdxs, int64, int64, int64, int) {
	a, b, c, d := Gen_Client_TetraIdxs(r)
	return &TetraIdxs{}, a, b, c, d
}

//verif:client
//verif:property C16
func Client_TetraIdxs(idx, n, skip int64, dir int) {
	requires(n >= 2 && skip >= 1 && 0 <= dir && dir < 6 && 0 <= idx && idx < n*n*n)
	lemma_idx64(idx, n)
	requires(inCube(idx, n, skip))
	t := NewTetraIdxs(idx, n, skip, dir)
	u := unitTetra(dir)
	ensures("the corners of the anchored cube", all(k, 0, 4, t[k] == corner(u[k], idx, n, skip)))
	s := (&TetraIdxs{}).InitCartesian(idx%n, (idx%(n*n))/n, idx/(n*n), n, dir)
	ensures("from coordinates", all(k, 0, 4, s[k] == corner(u[k], idx, n, 1)))
}

// neighbour says that i is reached from idx by a step along axis a.
func neighbour(i, idx, n, skip int64, a int, up bool) bool {
	step := pick(a == 0, 1, pick(a == 1, n, n*n))
	return i == pick(up, idx+skip*step, idx-skip*step)
}

func upDir(dir, a int) bool {
	t, _ := (&TetraIdxs{}).InitCentered(13, 3, 1, dir)
	s := pick(a == 0, 1, pick(a == 1, 3, 9))
	return t[0] == int64(13+s) || t[1] == int64(13+s) || t[2] == int64(13+s)
}

func downDir(dir, a int) bool {
	t, _ := (&TetraIdxs{}).InitCentered(13, 3, 1, dir)
	s := pick(a == 0, 1, pick(a == 1, 3, 9))
	return t[0] == int64(13-s) || t[1] == int64(13-s) || t[2] == int64(13-s)
}

//verif:client
//verif:property C16
func Client_CenteredOctants() {
	for d := 0; d < 8; d++ {
		for a := 0; a < 3; a++ {
			ensures("one neighbour along every axis", upDir(d, a) != downDir(d, a))
		}
		for e := 0; e < d; e++ {
			ensures("different directions are different octants", upDir(d, 0) != upDir(e, 0) || upDir(d, 1) != upDir(e, 1) || upDir(d, 2) != upDir(e, 2))
		}
	}
}

func stepsOut(c, n, skip int64, up bool) bool {
	return pick(up, c+skip >= n, c-skip < 0)
}

//verif:client
//verif:property C16
func Client_InitCentered(idx, n, skip int64, dir int) {
	requires(n >= 2 && skip >= 1 && 0 <= dir && dir < 8 && 0 <= idx && idx < n*n*n)
	lemma_idx64(idx, n)
	t := &TetraIdxs{}
	r, ok := t.InitCentered(idx, n, skip, dir)
	u0, u1, u2 := upDir(dir, 0), upDir(dir, 1), upDir(dir, 2)
	out := stepsOut(idx%n, n, skip, u0) || stepsOut((idx%(n*n))/n, n, skip, u1) || stepsOut(idx/(n*n), n, skip, u2)
	ensures("refused exactly when a neighbour is outside the grid", ok == !out)
	ensures("the receiver is returned", *r == *t)
	ensures("the anchor", imp(ok, t[3] == idx))
	ensures("the neighbours", imp(ok, all(a, 0, 3, ex(k, 0, 3, neighbour(t[k], idx, n, skip, a, pick(a == 0, u0, pick(a == 1, u1, u2)))))))
}

func Gen_Client_Tiling(r *vpRng) (float64, float64, float64) {
	return float64(r.Range(0, 8)) / 8, float64(r.Range(0, 8)) / 8, float64(r.Range(0, 8)) / 8
}

func Gen_Client_TetraIdxs(r *vpRng) (int64, int64, int64, int) {
	n := r.Range(2, 7)
	skip := r.Range(1, n-1)
	x, y, z := r.Range(0, n-1-skip), r.Range(0, n-1-skip), r.Range(0, n-1-skip)
	return int64(x + n*(y+n*z)), int64(n), int64(skip), r.Range(0, 5)
}

func Gen_Client_InitCentered(r *vpRng) (int64, int64, int64, int) {
	n := r.Range(2, 6)
	return int64(r.Range(0, n*n*n-1)), int64(n), int64(r.Range(1, (n+1)/2)), r.Range(0, 7)
}
