package geom

// ---------------------------------------------------------------- vocabulary

// near is equality up to single-precision rounding of terms as large as scale.
func near(a, b, scale float64) bool { return feqTol(a, b, 1000*(scale+1)) }

func sq(x float64) float64 { return x * x }

func absf(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// size is a bound on the components of a vector.
func size(v *Vec) float64 {
	return absf(float64(v[0])) + absf(float64(v[1])) + absf(float64(v[2]))
}

func sameVec(a *Vec, b Vec) bool { return *a == b }

// congruent says that a and b differ by a small whole number of widths.
func congruent(a, b, w float64) bool {
	s := absf(a) + absf(b) + w
	return near(a, b, s) || near(a, b+w, s) || near(a, b-w, s) || near(a, b+2*w, s) || near(a, b-2*w, s)
}

func scaled(v *Vec, k float64, r *Vec) bool {
	return all(i, 0, 3, near(float64(r[i]), float64(v[i])*k, size(v)*absf(k)))
}

func added(a, b, r *Vec) bool {
	return all(i, 0, 3, near(float64(r[i]), float64(a[i])+float64(b[i]), size(a)+size(b)))
}

func crossed(a, b, r *Vec) bool {
	s := size(a) * size(b)
	return near(float64(r[0]), float64(a[1])*float64(b[2])-float64(a[2])*float64(b[1]), s) &&
		near(float64(r[1]), float64(a[2])*float64(b[0])-float64(a[0])*float64(b[2]), s) &&
		near(float64(r[2]), float64(a[0])*float64(b[1])-float64(a[1])*float64(b[0]), s)
}

func wrapped(v *Vec, w float64, r *Vec) bool {
	return all(i, 0, 3, 0 <= float64(r[i]) && float64(r[i]) < w && congruent(float64(r[i]), float64(v[i]), w))
}

func inBox(v *Vec, w float64) bool {
	return all(i, 0, 3, 0 <= float64(v[i]) && float64(v[i]) < w)
}

// minImage says that r is the shortest displacement congruent to a - b.
func minImage(a, b *Vec, w float64, r *Vec) bool {
	return all(i, 0, 3, -w/2 <= float64(r[i]) && float64(r[i]) <= w/2 &&
		congruent(float64(r[i]), float64(a[i])-float64(b[i]), w))
}

// genVec makes a vector on a coarse grid, so that sums are exact.
func genVec(r *vpRng, lo, hi int) Vec {
	return Vec{float32(r.Range(4*lo, 4*hi)) / 4, float32(r.Range(4*lo, 4*hi)) / 4, float32(r.Range(4*lo, 4*hi)) / 4}
}

func genVec2(r *vpRng, w int) (*Vec, *Vec, float64) {
	a, b := genVec(r, 0, w), genVec(r, 0, w)
	for i := 0; i < 3; i++ {
		if a[i] == float32(w) {
			a[i] = 0
		}
		if b[i] == float32(w) {
			b[i] = 0
		}
	}
	return &a, &b, float64(w)
}

// ---------------------------------------------------------------- scaling, sums

//verif:client
//verif:property C15
func Client_VecScale(v *Vec, k float64) {
	u := *v
	out := Vec{}
	ensures("scaled", scaled(v, k, v.Scale(k)))
	ensures("the operand is unchanged", sameVec(v, u))
	v.ScaleAt(k, &out)
	ensures("scaled into the target", scaled(v, k, &out) && sameVec(v, u))
	r := v.ScaleSelf(k)
	ensures("scaled in place", scaled(&u, k, v) && *r == *v)
}

//verif:client
//verif:property C15
func Client_VecAdd(a, b *Vec) {
	a0, b0 := *a, *b
	out := Vec{}
	ensures("sum", added(&a0, &b0, a.Add(b)))
	ensures("the operands are unchanged", sameVec(a, a0) && sameVec(b, b0))
	a.AddAt(b, &out)
	ensures("sum in the target", added(&a0, &b0, &out) && sameVec(a, a0) && sameVec(b, b0))
	c := b0
	a.AddAt(&c, &c)
	ensures("the target may be the second operand", added(&a0, &b0, &c))
	r := a.AddSelf(b)
	ensures("sum in place", added(&a0, &b0, a) && *r == *a && sameVec(b, b0))
}

//verif:client
//verif:property C15
func Client_VecProducts(a, b *Vec) {
	a0, b0 := *a, *b
	out := Vec{}
	s := size(a) * size(b)
	ensures("the dot product", near(a.Dot(b), float64(a[0])*float64(b[0])+float64(a[1])*float64(b[1])+float64(a[2])*float64(b[2]), s))
	n := a.Norm()
	ensures("the norm", n >= 0 && near(n*n, sq(float64(a[0]))+sq(float64(a[1]))+sq(float64(a[2])), size(a)*size(a)))
	ensures("the cross product", crossed(&a0, &b0, a.Cross(b)))
	ensures("the operands are unchanged", sameVec(a, a0) && sameVec(b, b0))
	a.CrossAt(b, &out)
	ensures("the cross product in the target", crossed(&a0, &b0, &out) && sameVec(a, a0) && sameVec(b, b0))
	c := b0
	a.CrossAt(&c, &c)
	ensures("the target may be the second operand", crossed(&a0, &b0, &c))
	r := a.CrossSelf(b)
	ensures("the cross product in place", crossed(&a0, &b0, a) && *r == *a && sameVec(b, b0))
}

// ---------------------------------------------------------------- periodicity

//verif:client
//verif:property C15
func Client_VecMod(v *Vec, w float64) {
	requires(w > 0 && all(i, 0, 3, -w <= float64(v[i]) && float64(v[i]) < 2*w))
	u := *v
	out := Vec{}
	ensures("the image inside the box", wrapped(&u, w, v.Mod(w)))
	ensures("the operand is unchanged", sameVec(v, u))
	v.ModAt(w, &out)
	ensures("the image in the target", wrapped(&u, w, &out) && sameVec(v, u))
	r := v.ModSelf(w)
	ensures("the image in place", wrapped(&u, w, v) && *r == *v)
}

//verif:client
//verif:property C15
func Client_VecSub(a, b *Vec, w float64) {
	requires(w > 0 && all(i, 0, 3, absf(float64(a[i])-float64(b[i])) <= 2*w))
	a0, b0 := *a, *b
	out := Vec{}
	ensures("the shortest displacement", minImage(&a0, &b0, w, a.Sub(b, w)))
	ensures("the operands are unchanged", sameVec(a, a0) && sameVec(b, b0))
	a.SubAt(b, w, &out)
	ensures("the displacement in the target", minImage(&a0, &b0, w, &out) && sameVec(a, a0) && sameVec(b, b0))
	c := b0
	a.SubAt(&c, w, &c)
	ensures("the target may be the second operand", minImage(&a0, &b0, w, &c))
	r := a.SubSelf(b, w)
	ensures("the displacement in place", minImage(&a0, &b0, w, a) && *r == *a && sameVec(b, b0))
}

func Gen_Client_VecScale(r *vpRng) (*Vec, float64) {
	v := genVec(r, -5, 5)
	return &v, float64(r.Range(-12, 12)) / 4
}

func Gen_Client_VecAdd(r *vpRng) (*Vec, *Vec) {
	a, b := genVec(r, -5, 5), genVec(r, -5, 5)
	return &a, &b
}

func Gen_Client_VecProducts(r *vpRng) (*Vec, *Vec) { return Gen_Client_VecAdd(r) }

func Gen_Client_VecMod(r *vpRng) (*Vec, float64) {
	w := r.Range(1, 4)
	v := genVec(r, -w, 2*w)
	for i := range v {
		if v[i] == float32(2*w) {
			v[i] = 0
		}
	}
	return &v, float64(w)
}

func Gen_Client_VecSub(r *vpRng) (*Vec, *Vec, float64) {
	w := r.Range(1, 4)
	a, b := genVec(r, 0, w), genVec(r, 0, w)
	if r.Intn(3) == 0 {
		a, b = genVec(r, -w, w), genVec(r, -w, w)
	}
	return &a, &b, float64(w)
}
