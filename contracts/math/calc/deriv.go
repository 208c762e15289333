package calc

// ---------------------------------------------------------------- vocabulary

// spaced says that no two points coincide.
func spaced(xs []float64) bool {
	return all(i, 0, len(xs), all(j, i+1, len(xs), xs[i] != xs[j]))
}

// fd2 is the second order finite difference at point i.
func fd2(xs, ys []float64, n, i int) float64 {
	if i == 0 {
		return (4*ys[1] - 3*ys[0] - ys[2]) / (xs[2] - xs[0])
	}
	if i == n-1 {
		return (3*ys[n-1] - 4*ys[n-2] + ys[n-3]) / (xs[n-1] - xs[n-3])
	}
	return (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
}

// fd4 is the fourth order finite difference at point i.
func fd4(xs, ys []float64, n, i int) float64 {
	switch i {
	case 0:
		return (48*ys[1] - 25*ys[0] - 36*ys[2] + 16*ys[3] - 3*ys[4]) / (3 * (xs[4] - xs[0]))
	case 1:
		return (18*ys[2] - 3*ys[0] - 10*ys[1] - 6*ys[3] + ys[4]) / (3 * (xs[4] - xs[0]))
	case n - 2:
		return (3*ys[n-1] + 10*ys[n-2] - 18*ys[n-3] + 6*ys[n-4] - ys[n-5]) / (3 * (xs[n-1] - xs[n-5]))
	case n - 1:
		return (25*ys[n-1] - 48*ys[n-2] + 36*ys[n-3] - 16*ys[n-4] + 3*ys[n-5]) / (3 * (xs[n-1] - xs[n-5]))
	}
	return (8*ys[i+1] - 8*ys[i-1] - ys[i+2] + ys[i-2]) / (3 * (xs[i+2] - xs[i-2]))
}

// fd is the finite difference of the given order; order zero is the table.
//
//verif:rec
func fd(order int, xs, ys []float64, n, i int) float64 {
	switch order {
	case 2:
		return fd2(xs, ys, n, i)
	case 4:
		return fd4(xs, ys, n, i)
	}
	return ys[i]
}

// ---------------------------------------------------------------- Deriv

//verif:annot Deriv
func Annot_Deriv() {
	loop(0,
		"all(k, 0, i, imp(order == 0 || order == 2 && k >= 1 || order == 4 && k >= 2, feq(out[k], fd(order, xs, ys, len(xs), k))))")
}

//verif:client
//verif:split order=0|2|4
//verif:property C11
func Client_Deriv(xs, ys []float64, order int) {
	requires(order == 0 || order == 2 || order == 4)
	requires(len(ys) == len(xs) && len(xs) >= order+1 && spaced(xs))
	r := Deriv(xs, ys, order)
	ensures("one value per point", len(r) == len(xs))
	ensures("the finite difference at every point", all(i, 0, len(xs), feqTol(r[i], fd(order, xs, ys, len(xs), i), 100)))
}

//verif:client
//verif:split order=0|2|4
//verif:property C11
func Client_DerivOut(xs, ys, out []float64, order int) {
	requires(order == 0 || order == 2 || order == 4)
	requires(len(ys) == len(xs) && len(out) == len(xs) && len(xs) >= order+1 && spaced(xs))
	modifies(out)
	r := Deriv(xs, ys, order, Out(out))
	ensures("the given slice is returned", len(r) == len(out) && samebase(r, out))
	ensures("the finite difference at every point", all(i, 0, len(xs), feqTol(out[i], fd(order, xs, ys, len(xs), i), 100)))
}

//verif:client
//verif:property C11
func Client_DerivRejects(xs, ys, out []float64, order int) {
	requires(order != 0 && order != 2 && order != 4 || len(ys) != len(xs) || len(out) != len(xs))
	requires(out != nil)
	panicsWhen(true)
	modifies(out)
	Deriv(xs, ys, order, Out(out))
}

// poly is a polynomial of degree four.
func poly(a, b, c, d, e, x float64) float64 { return a + x*(b+x*(c+x*(d+x*e))) }

// dpoly is its derivative.
func dpoly(b, c, d, e, x float64) float64 { return b + x*(2*c+x*(3*d+x*4*e)) }

// isPoly says that ys are the values of a polynomial of the given order at
// the uniformly spaced points x0 + i h.
func isPoly(a, b, c, d, e, x0, h float64, xs, ys []float64) bool {
	return all(i, 0, len(xs), xs[i] == x0+float64(i)*h && ys[i] == poly(a, b, c, d, e, xs[i]))
}

// at says that point k lies at t and has the value of the polynomial.
func at(a, b, c, d, e, t float64, xs, ys []float64, k int) bool {
	return xs[k] == t && ys[k] == poly(a, b, c, d, e, t)
}

//verif:lemma
//verif:property C11
func lemma_exact2(a, b, c, x0, h float64, xs, ys []float64, i int) {
	requires(len(ys) == len(xs) && len(xs) >= 3 && h != 0 && 0 <= i && i < len(xs))
	requires(isPoly(a, b, c, 0, 0, x0, h, xs, ys))
	n := len(xs)
	x := x0 + float64(i)*h
	assert("the point itself", at(a, b, c, 0, 0, x, xs, ys, i))
	if i == 0 {
		assert("neighbours at the lower end", at(a, b, c, 0, 0, x+h, xs, ys, 1) && at(a, b, c, 0, 0, x+2*h, xs, ys, 2))
		assert("exact at the lower end", feqTol(fd2(xs, ys, n, 0), dpoly(b, c, 0, 0, x), 1e4))
	} else if i == n-1 {
		assert("neighbours at the upper end", at(a, b, c, 0, 0, x-h, xs, ys, i-1) && at(a, b, c, 0, 0, x-2*h, xs, ys, i-2))
		assert("exact at the upper end", feqTol(fd2(xs, ys, n, i), dpoly(b, c, 0, 0, x), 1e4))
	} else {
		assert("neighbours inside", at(a, b, c, 0, 0, x-h, xs, ys, i-1) && at(a, b, c, 0, 0, x+h, xs, ys, i+1))
		assert("exact inside", feqTol(fd2(xs, ys, n, i), dpoly(b, c, 0, 0, x), 1e4))
	}
	ensures("exact for polynomials up to the order", feqTol(fd(2, xs, ys, len(xs), i), dpoly(b, c, 0, 0, xs[i]), 1e4))
}

//verif:lemma
//verif:property C11
func lemma_exact4(a, b, c, d, e, x0, h float64, xs, ys []float64, i int) {
	requires(len(ys) == len(xs) && len(xs) >= 5 && h != 0 && 0 <= i && i < len(xs))
	requires(isPoly(a, b, c, d, e, x0, h, xs, ys))
	n := len(xs)
	x := x0 + float64(i)*h
	assert("the point itself", at(a, b, c, d, e, x, xs, ys, i))
	if i == 0 {
		assert("neighbours at the lower end", at(a, b, c, d, e, x+h, xs, ys, 1) && at(a, b, c, d, e, x+2*h, xs, ys, 2) &&
			at(a, b, c, d, e, x+3*h, xs, ys, 3) && at(a, b, c, d, e, x+4*h, xs, ys, 4))
		assert("exact at the lower end", feqTol(fd4(xs, ys, n, 0), dpoly(b, c, d, e, x), 1e4))
	} else if i == 1 {
		assert("neighbours next to the lower end", at(a, b, c, d, e, x-h, xs, ys, 0) && at(a, b, c, d, e, x+h, xs, ys, 2) &&
			at(a, b, c, d, e, x+2*h, xs, ys, 3) && at(a, b, c, d, e, x+3*h, xs, ys, 4))
		assert("exact next to the lower end", feqTol(fd4(xs, ys, n, 1), dpoly(b, c, d, e, x), 1e4))
	} else if i == n-2 {
		assert("neighbours next to the upper end", at(a, b, c, d, e, x+h, xs, ys, i+1) && at(a, b, c, d, e, x-h, xs, ys, i-1) &&
			at(a, b, c, d, e, x-2*h, xs, ys, i-2) && at(a, b, c, d, e, x-3*h, xs, ys, i-3))
		assert("exact next to the upper end", feqTol(fd4(xs, ys, n, i), dpoly(b, c, d, e, x), 1e4))
	} else if i == n-1 {
		assert("neighbours at the upper end", at(a, b, c, d, e, x-h, xs, ys, i-1) && at(a, b, c, d, e, x-2*h, xs, ys, i-2) &&
			at(a, b, c, d, e, x-3*h, xs, ys, i-3) && at(a, b, c, d, e, x-4*h, xs, ys, i-4))
		assert("exact at the upper end", feqTol(fd4(xs, ys, n, i), dpoly(b, c, d, e, x), 1e4))
	} else {
		assert("neighbours inside", at(a, b, c, d, e, x-h, xs, ys, i-1) && at(a, b, c, d, e, x+h, xs, ys, i+1) &&
			at(a, b, c, d, e, x-2*h, xs, ys, i-2) && at(a, b, c, d, e, x+2*h, xs, ys, i+2))
		assert("exact inside", feqTol(fd4(xs, ys, n, i), dpoly(b, c, d, e, x), 1e4))
	}
	ensures("exact for polynomials up to the order", feqTol(fd(4, xs, ys, len(xs), i), dpoly(b, c, d, e, xs[i]), 1e4))
}

//verif:client
//verif:property C11
func Client_DerivExact2(xs, ys []float64, a, b, c, x0, h float64) {
	requires(len(ys) == len(xs) && len(xs) >= 3 && h != 0 && spaced(xs))
	r := Deriv(xs, ys, 2)
	assert("the finite difference at every point", all(i, 0, len(xs), feqTol(r[i], fd(2, xs, ys, len(xs), i), 100)))
	requires(isPoly(a, b, c, 0, 0, x0, h, xs, ys))
	always(func(i int) { lemma_exact2(a, b, c, x0, h, xs, ys, i) })
	ensures("exact for parabolas", all(i, 0, len(xs), feqTol(r[i], dpoly(b, c, 0, 0, xs[i]), 1e4)))
}

//verif:client
//verif:property C11
func Client_DerivExact4(xs, ys []float64, a, b, c, d, e, x0, h float64) {
	requires(len(ys) == len(xs) && len(xs) >= 5 && h != 0 && spaced(xs))
	r := Deriv(xs, ys, 4)
	assert("the finite difference at every point", all(i, 0, len(xs), feqTol(r[i], fd(4, xs, ys, len(xs), i), 100)))
	requires(isPoly(a, b, c, d, e, x0, h, xs, ys))
	always(func(i int) { lemma_exact4(a, b, c, d, e, x0, h, xs, ys, i) })
	ensures("exact for quartics", all(i, 0, len(xs), feqTol(r[i], dpoly(b, c, d, e, xs[i]), 1e4)))
}

func Gen_Client_DerivExact2(r *vpRng) ([]float64, []float64, float64, float64, float64, float64, float64) {
	xs, ys, a, b, c, _, _, x0, h := genPoly(r, 2)
	return xs, ys, a, b, c, x0, h
}

func Gen_Client_DerivExact4(r *vpRng) ([]float64, []float64, float64, float64, float64, float64, float64, float64, float64) {
	return genPoly(r, 4)
}

func genPoly(r *vpRng, order int) (xs, ys []float64, a, b, c, d, e, x0, h float64) {
	n := order + 1 + r.Range(0, 5)
	dy := func() float64 { return float64(r.Range(-8, 8)) / 4 }
	a, b, c, x0, h = dy(), dy(), dy(), dy(), float64(r.Range(1, 8))/4
	if order == 4 {
		d, e = dy(), dy()
	}
	if r.Intn(2) == 0 {
		h = -h
	}
	for i := 0; i < n; i++ {
		x := x0 + float64(i)*h
		xs = append(xs, x)
		ys = append(ys, poly(a, b, c, d, e, x))
	}
	return
}

func Gen_Client_Deriv(r *vpRng) ([]float64, []float64, int) {
	order := []int{0, 2, 4}[r.Intn(3)]
	n := order + 1 + r.Range(0, 5)
	xs := r.Increasing(n)
	if r.Intn(3) == 0 {
		for i := range xs {
			xs[i] = -xs[i]
		}
	}
	return xs, r.Floats(n), order
}

func Gen_Client_DerivOut(r *vpRng) ([]float64, []float64, []float64, int) {
	xs, ys, order := Gen_Client_Deriv(r)
	return xs, ys, r.Floats(len(xs)), order
}

func Gen_Client_DerivRejects(r *vpRng) ([]float64, []float64, []float64, int) {
	xs, ys, order := Gen_Client_Deriv(r)
	out := r.Floats(len(xs))
	switch r.Intn(3) {
	case 0:
		order = []int{-2, -1, 1, 3, 5, 6, 8}[r.Intn(7)]
	case 1:
		ys = r.Floats(len(xs) + 1 + r.Intn(3))
	case 2:
		out = r.Floats(len(xs) + 1 + r.Intn(3))
	}
	return xs, ys, out, order
}
