package mat

// dot32 is the sum of the products of k entries of a, from a0 in steps of as,
// with entries of b, from b0 in steps of bs.
//
//verif:rec
func dot32(k int, a []float32, a0, as int, b []float32, b0, bs int) float32 {
	if k <= 0 {
		return 0
	}
	return dot32(k-1, a, a0, as, b, b0, bs) + a[a0+(k-1)*as]*b[b0+(k-1)*bs]
}

// shaped32 says that a matrix has the shape and number of values that it says.
func shaped32(m *Matrix32) bool {
	return m != nil && 0 < m.Width && 0 < m.Height && len(m.Vals) == m.Width*m.Height
}

// product32 is entry p of the product32 of a matrix a with w1 columns and a matrix
// b with w2 columns.
//
//verif:rec
func product32(p int, a []float32, w1 int, b []float32, w2 int) float32 {
	return dot32(w1, a, (p/w2)*w1, 1, b, p%w2, w2)
}

//verif:client
//verif:property C09
func Client_MultAt32(m1, m2, out *Matrix32, i, j int) {
	requires(shaped32(m1) && shaped32(m2) && shaped32(out) && m1.Width == m2.Height && out.Height == m1.Height && out.Width == m2.Width)
	requires(0 <= i && i < m1.Height && 0 <= j && j < m2.Width)
	modifies(out.Vals)
	got := m1.MultAt(m2, out)
	ensures("returns the product32", got == out)
	lemma_at(i, j, m2.Width, m1.Height)
	lemma_entry(i, j, m2.Width)
	ensures("rows times columns", feqTol(float64(out.Vals[i*m2.Width+j]), float64(dot32(m1.Width, m1.Vals, i*m1.Width, 1, m2.Vals, j, m2.Width)), 1))
}

//verif:annot Matrix32.MultAt
func Annot_MultAt32() {
	loop(0, "all(p, 0, iter(), out.Vals[p] == 0)")
	loop(1, "0 <= i && i <= m1.Height",
		"all(p, 0, i*m2.Width, out.Vals[p] == product32(p, m1.Vals, m1.Width, m2.Vals, m2.Width))",
		"all(p, i*m2.Width, len(out.Vals), out.Vals[p] == 0)")
	loop(2, "0 <= j && j <= m2.Width",
		"all(p, 0, i*m2.Width+j, out.Vals[p] == product32(p, m1.Vals, m1.Width, m2.Vals, m2.Width))",
		"all(p, i*m2.Width+j, len(out.Vals), out.Vals[p] == 0)",
		"start: lemma_at(i, j, m2.Width, m1.Height)", "start: lemma_entry(i, j, m2.Width)")
	loop(3, "0 <= k && k <= m1.Width",
		"start: lemma_at(i, k, m1.Width, m1.Height)", "start: lemma_at(k, j, m2.Width, m2.Height)", "start: lemma_at(i, j, m2.Width, m1.Height)",
		"all(p, 0, i*m2.Width+j, out.Vals[p] == product32(p, m1.Vals, m1.Width, m2.Vals, m2.Width))",
		"all(p, i*m2.Width+j+1, len(out.Vals), out.Vals[p] == 0)",
		"out.Vals[i*m2.Width+j] == dot32(k, m1.Vals, i*m1.Width, 1, m2.Vals, j, m2.Width)")
}

//verif:contract Matrix32.Mult
//verif:property C09
func Contract_Mult32(m1, m2 *Matrix32) *Matrix32 {
	requires(shaped32(m1) && shaped32(m2))
	panicsWhen(m1.Width != m2.Height)
	out := m1.Mult(m2)
	ensures("shape", shaped32(out) && out.Height == m1.Height && out.Width == m2.Width)
	ensures("rows times columns", all(p, 0, len(out.Vals), feqTol(float64(out.Vals[p]), float64(product32(p, m1.Vals, m1.Width, m2.Vals, m2.Width)), 1)))
	return out
}

//verif:client
//verif:property C09
func Client_MultRejects32(m1, m2, out *Matrix32) {
	requires(shaped32(m1) && shaped32(m2) && shaped32(out) && out.Height == m1.Height && out.Width == m2.Width)
	panicsWhen(m1.Width != m2.Height)
	modifies(out.Vals)
	m1.MultAt(m2, out)
}

//verif:client
//verif:property C09
func Client_NewMatrix32(vals []float32, width, height int) *Matrix32 {
	panicsWhen(width <= 0 || height <= 0 || width*height != len(vals))
	m := NewMatrix32(vals, width, height)
	ensures("the matrix", m != nil && m.Width == width && m.Height == height && len(m.Vals) == len(vals) && all(k, 0, len(vals), m.Vals[k] == vals[k]))
	return m
}

func genMatrix32(r *vpRng, w, h int) *Matrix32 {
	vals := make([]float32, w*h)
	for i := range vals {
		vals[i] = float32(r.Range(-64, 64)) / 8
	}
	return &Matrix32{vals, w, h}
}

func Gen_Client_MultAt32(r *vpRng) (*Matrix32, *Matrix32, *Matrix32, int, int) {
	a, b, c := r.Range(1, 5), r.Range(1, 5), r.Range(1, 5)
	return genMatrix32(r, b, a), genMatrix32(r, c, b), genMatrix32(r, c, a), r.Range(0, a-1), r.Range(0, c-1)
}

func Gen_Contract_Mult32(r *vpRng) (*Matrix32, *Matrix32) {
	m1, m2, _, _, _ := Gen_Client_MultAt32(r)
	if r.Range(0, 4) == 0 {
		m2 = genMatrix32(r, r.Range(1, 4), r.Range(1, 4))
	}
	return m1, m2
}

func Gen_Client_MultRejects32(r *vpRng) (*Matrix32, *Matrix32, *Matrix32) {
	m1, m2 := Gen_Contract_Mult32(r)
	return m1, m2, genMatrix32(r, m2.Width, m1.Height)
}

