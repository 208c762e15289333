package mat

// dot is the sum of the products of k entries of a, from a0 in steps of as,
// with entries of b, from b0 in steps of bs.
//
//verif:rec
func dot(k int, a []float64, a0, as int, b []float64, b0, bs int) float64 {
	if k <= 0 {
		return 0
	}
	return dot(k-1, a, a0, as, b, b0, bs) + a[a0+(k-1)*as]*b[b0+(k-1)*bs]
}

// shaped says that a matrix has the shape and number of values that it says.
func shaped(m *Matrix) bool {
	return m != nil && 0 < m.Width && 0 < m.Height && len(m.Vals) == m.Width*m.Height
}

// lemma_at: entry (i, j) of a matrix is in it.
//
//verif:lemma
func lemma_at(i, j, w, h int) {
	requires(0 <= j && j < w && 0 <= i && i < h)
	ensures("in range", 0 <= i*w+j && i*w+j < w*h)
	if i < h-1 {
		assert("rows below", (h-1-i)*w >= w)
	}
}

// lemma_entry: row and column of entry (i, j).
//
//verif:lemma
func lemma_entry(i, j, w int) {
	requires(0 <= j && j < w && 0 <= i)
	ensures("row and column", (i*w+j)/w == i && (i*w+j)%w == j)
}

// product is entry p of the product of a matrix a with w1 columns and a matrix
// b with w2 columns.
//
//verif:rec
func product(p int, a []float64, w1 int, b []float64, w2 int) float64 {
	return dot(w1, a, (p/w2)*w1, 1, b, p%w2, w2)
}

//verif:client
//verif:property C09
func Client_MultAt(m1, m2, out *Matrix, i, j int) {
	requires(shaped(m1) && shaped(m2) && shaped(out) && m1.Width == m2.Height && out.Height == m1.Height && out.Width == m2.Width)
	requires(0 <= i && i < m1.Height && 0 <= j && j < m2.Width)
	modifies(out.Vals)
	got := m1.MultAt(m2, out)
	ensures("returns the product", got == out)
	lemma_at(i, j, m2.Width, m1.Height)
	lemma_entry(i, j, m2.Width)
	ensures("rows times columns", feqTol(out.Vals[i*m2.Width+j], dot(m1.Width, m1.Vals, i*m1.Width, 1, m2.Vals, j, m2.Width), 1))
}

//verif:annot Matrix.MultAt
func Annot_MultAt() {
	loop(0, "all(p, 0, iter(), out.Vals[p] == 0)")
	loop(1, "0 <= i && i <= m1.Height",
		"all(p, 0, i*m2.Width, out.Vals[p] == product(p, m1.Vals, m1.Width, m2.Vals, m2.Width))",
		"all(p, i*m2.Width, len(out.Vals), out.Vals[p] == 0)")
	loop(2, "0 <= j && j <= m2.Width",
		"all(p, 0, i*m2.Width+j, out.Vals[p] == product(p, m1.Vals, m1.Width, m2.Vals, m2.Width))",
		"all(p, i*m2.Width+j, len(out.Vals), out.Vals[p] == 0)",
		"start: lemma_at(i, j, m2.Width, m1.Height)", "start: lemma_entry(i, j, m2.Width)")
	loop(3, "0 <= k && k <= m1.Width",
		"start: lemma_at(i, k, m1.Width, m1.Height)", "start: lemma_at(k, j, m2.Width, m2.Height)", "start: lemma_at(i, j, m2.Width, m1.Height)",
		"all(p, 0, i*m2.Width+j, out.Vals[p] == product(p, m1.Vals, m1.Width, m2.Vals, m2.Width))",
		"all(p, i*m2.Width+j+1, len(out.Vals), out.Vals[p] == 0)",
		"out.Vals[i*m2.Width+j] == dot(k, m1.Vals, i*m1.Width, 1, m2.Vals, j, m2.Width)")
}

//verif:contract Matrix.Mult
//verif:property C09
func Contract_Mult(m1, m2 *Matrix) *Matrix {
	requires(shaped(m1) && shaped(m2))
	panicsWhen(m1.Width != m2.Height)
	out := m1.Mult(m2)
	ensures("shape", shaped(out) && out.Height == m1.Height && out.Width == m2.Width)
	ensures("rows times columns", all(p, 0, len(out.Vals), feqTol(out.Vals[p], product(p, m1.Vals, m1.Width, m2.Vals, m2.Width), 1)))
	return out
}

//verif:client
//verif:property C09
func Client_MultRejects(m1, m2, out *Matrix) {
	requires(shaped(m1) && shaped(m2) && shaped(out) && out.Height == m1.Height && out.Width == m2.Width)
	panicsWhen(m1.Width != m2.Height)
	modifies(out.Vals)
	m1.MultAt(m2, out)
}

//verif:contract MultVec
//verif:property C09
func Contract_MultVec(m *Matrix, v, out []float64) {
	requires(shaped(m))
	panicsWhen(m.Height != len(out) || m.Width != len(v))
	loop(0, "all(k, 0, iter(), out[k] == 0)")
	loop(1, "0 <= j && j <= m.Height", "offset == j*m.Width",
		"all(p, 0, j, out[p] == dot(m.Width, m.Vals, p*m.Width, 1, v, 0, 1))", "all(p, j, len(out), out[p] == 0)")
	loop(2, "0 <= i && i <= m.Width", "start: lemma_at(j, i, m.Width, m.Height)",
		"all(p, 0, j, out[p] == dot(m.Width, m.Vals, p*m.Width, 1, v, 0, 1))", "all(p, j+1, len(out), out[p] == 0)",
		"out[j] == dot(i, m.Vals, j*m.Width, 1, v, 0, 1)")
	modifies(out)
	MultVec(m, v, out)
	ensures("rows times the vector", all(p, 0, len(out), feqTol(out[p], dot(m.Width, m.Vals, p*m.Width, 1, v, 0, 1), 1)))
}

//verif:contract VecMult
//verif:property C09
func Contract_VecMult(v []float64, m *Matrix, out []float64) {
	requires(shaped(m))
	panicsWhen(m.Height != len(v) || m.Width != len(out))
	loop(1, "0 <= i && i <= m.Width", "all(p, 0, i, out[p] == dot(m.Height, m.Vals, p, m.Width, v, 0, 1))")
	loop(2, "0 <= j && j <= m.Height", "start: lemma_at(j, i, m.Width, m.Height)", "sum == dot(j, m.Vals, i, m.Width, v, 0, 1)")
	modifies(out)
	VecMult(v, m, out)
	ensures("the vector times columns", all(p, 0, len(out), feqTol(out[p], dot(m.Height, m.Vals, p, m.Width, v, 0, 1), 1)))
}

//verif:client
//verif:property C09
func Client_NewMatrix(vals []float64, width, height int) *Matrix {
	panicsWhen(width <= 0 || height <= 0 || width*height != len(vals))
	m := NewMatrix(vals, width, height)
	ensures("the matrix", m != nil && m.Width == width && m.Height == height && samebase(m.Vals, vals) && len(m.Vals) == len(vals))
	return m
}

// transposed is entry p of the transpose of a matrix of w columns and h rows.
func transposed(p int, m []float64, w, h int) float64 { return m[(p%h)*w+p/h] }

//verif:contract recTranspose
//verif:property C09
func Contract_recTranspose(m, out []float64, width, height, mXLow, mYLow, mXWidth, mYWidth, outXLow, outYLow int) {
	requires(0 < width && 0 < height && len(m) == width*height && len(out) == width*height)
	requires(0 <= mXLow && 0 < mXWidth && mXLow+mXWidth <= width && 0 <= mYLow && 0 < mYWidth && mYLow+mYWidth <= height)
	requires(outXLow == mYLow && outYLow == mXLow)
	decreases(mXWidth + mYWidth)
	modifies(out)
	recTranspose(m, out, width, height, mXLow, mYLow, mXWidth, mYWidth, outXLow, outYLow)
	ensures("the block is transposed", all(p, 0, len(out), imp(mXLow <= p/height && p/height < mXLow+mXWidth && mYLow <= p%height && p%height < mYLow+mYWidth, out[p] == transposed(p, m, width, height))))
	ensures("nothing else changes", all(p, 0, len(out), mXLow <= p/height && p/height < mXLow+mXWidth && mYLow <= p%height && p%height < mYLow+mYWidth || out[p] == old(out[p])))
}

//verif:annot baseTranspose
func Annot_baseTranspose() {
	loop(0, "0 <= y && y <= mYWidth",
		"all(p, 0, len(out), imp(mXLow <= p/height && p/height < mXLow+mXWidth && mYLow <= p%height && p%height < mYLow+y, out[p] == transposed(p, m, width, height)))",
		"all(p, 0, len(out), mXLow <= p/height && p/height < mXLow+mXWidth && mYLow <= p%height && p%height < mYLow+y || out[p] == old(out[p]))")
	loop(1, "0 <= x && x <= mXWidth", "start: lemma_at(outy0(mXLow, x), outx, height, width)", "start: lemma_entry(outy0(mXLow, x), outx, height)", "start: lemma_at(my, outy0(mXLow, x), width, height)",
		"all(p, 0, len(out), imp(mXLow <= p/height && p/height < mXLow+mXWidth && mYLow <= p%height && p%height < mYLow+y, out[p] == transposed(p, m, width, height)))",
		"all(p, 0, len(out), imp(mXLow <= p/height && p/height < mXLow+x && p%height == mYLow+y, out[p] == transposed(p, m, width, height)))",
		"all(p, 0, len(out), mXLow <= p/height && p/height < mXLow+mXWidth && mYLow <= p%height && p%height < mYLow+y || mXLow <= p/height && p/height < mXLow+x && p%height == mYLow+y || out[p] == old(out[p]))")
}

func outy0(low, x int) int { return low + x }

//verif:client
//verif:property C09
func Client_Transpose(m *Matrix, i, j int) {
	requires(shaped(m) && 0 <= i && i < m.Height && 0 <= j && j < m.Width)
	out := m.Transpose()
	lemma_at(j, i, m.Height, m.Width)
	lemma_entry(j, i, m.Height)
	lemma_at(i, j, m.Width, m.Height)
	ensures("shape", shaped(out) && out.Width == m.Height && out.Height == m.Width)
	ensures("rows are columns", out.Vals[j*m.Height+i] == m.Vals[i*m.Width+j])
}

func genMatrix(r *vpRng, w, h int) *Matrix {
	vals := make([]float64, w*h)
	for i := range vals {
		vals[i] = float64(r.Range(-64, 64)) / 8
	}
	return &Matrix{vals, w, h}
}

func Gen_Client_MultAt(r *vpRng) (*Matrix, *Matrix, *Matrix, int, int) {
	a, b, c := r.Range(1, 5), r.Range(1, 5), r.Range(1, 5)
	return genMatrix(r, b, a), genMatrix(r, c, b), genMatrix(r, c, a), r.Range(0, a-1), r.Range(0, c-1)
}

func Gen_Contract_Mult(r *vpRng) (*Matrix, *Matrix) {
	m1, m2, _, _, _ := Gen_Client_MultAt(r)
	if r.Range(0, 4) == 0 {
		m2 = genMatrix(r, r.Range(1, 4), r.Range(1, 4))
	}
	return m1, m2
}

func Gen_Client_MultRejects(r *vpRng) (*Matrix, *Matrix, *Matrix) {
	m1, m2 := Gen_Contract_Mult(r)
	return m1, m2, genMatrix(r, m2.Width, m1.Height)
}

func Gen_Contract_MultVec(r *vpRng) (*Matrix, []float64, []float64) {
	w, h := r.Range(1, 5), r.Range(1, 5)
	return genMatrix(r, w, h), genMatrix(r, w, 1).Vals, genMatrix(r, h, 1).Vals
}

func Gen_Contract_VecMult(r *vpRng) ([]float64, *Matrix, []float64) {
	m, v, out := Gen_Contract_MultVec(r)
	return out, m, v
}

func Gen_Client_Transpose(r *vpRng) (*Matrix, int, int) {
	w, h := r.Range(1, 6), r.Range(1, 6)
	return genMatrix(r, w, h), r.Range(0, h-1), r.Range(0, w-1)
}

func Gen_Contract_recTranspose(r *vpRng) ([]float64, []float64, int, int, int, int, int, int, int, int) {
	w, h := r.Range(1, 6), r.Range(1, 6)
	x, y := r.Range(0, w-1), r.Range(0, h-1)
	return genMatrix(r, w, h).Vals, genMatrix(r, w, h).Vals, w, h, x, y, r.Range(1, w-x), r.Range(1, h-y), y, x
}
