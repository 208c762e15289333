package interpolate

import "math"

// beyond is the value of a table at index i, which may be up to its length
// before or behind it.
func beyond(n int, xs []float64, b BoundaryCondition, i int) float64 {
	switch {
	case 0 <= i && i < n:
		return xs[i]
	case b == Periodic:
		return xs[pick(i < 0, i+n, i-n)]
	case b == Reflection:
		return xs[pick(i < 0, -1-i, 2*n-1-i)]
	case b == ZeroPad:
		return 0
	}
	return xs[pick(i < 0, 0, n-1)]
}

func okCondition(b BoundaryCondition) bool { return Periodic <= b && b <= Extension }

//verif:contract BoundaryCondition.Get
//verif:property C07
func Contract_Get(b BoundaryCondition, xs []float64, i int) float64 {
	requires(okCondition(b) && len(xs) > 0 && -len(xs) <= i && i < 2*len(xs))
	x := b.Get(xs, i)
	ensures("the extended table", x == beyond(len(xs), xs, b, i))
	return x
}

// window is the sum of the first k weights times the values of the extended
// table from index s.
//
//verif:rec
func window(k int, cs []float64, n int, xs []float64, b BoundaryCondition, s int) float64 {
	if k <= 0 {
		return 0
	}
	return window(k-1, cs, n, xs, b, s) + cs[k-1]*beyond(n, xs, b, s+k-1)
}

func okKernel(k *Kernel) bool { return 0 <= k.center && k.center < len(k.cs) }

//verif:contract Kernel.ConvolveAt
//verif:property C07
//verif:split b=0|1|2|3
func Contract_ConvolveAt(k *Kernel, xs []float64, b BoundaryCondition, out []float64) {
	requires(okKernel(k) && len(k.cs) <= len(xs) && len(out) == len(xs) && okCondition(b))
	modifies(out)
	loop(0, "0 <= i && i <= nl+1", "all(p, 0, i, out[p] == window(len(k.cs), k.cs, len(xs), xs, b, p-k.center))")
	loop(1, "sum == window(iter(), k.cs, len(xs), xs, b, i-k.center)")
	loop(2, "nl+1 <= i && (i <= n-nr || i == nl+1)", "all(p, 0, i, out[p] == window(len(k.cs), k.cs, len(xs), xs, b, p-k.center))")
	loop(3, "sum == window(iter(), k.cs, len(xs), xs, b, i-k.center)")
	loop(4, "n-nr <= i && i <= n", "all(p, 0, i, out[p] == window(len(k.cs), k.cs, len(xs), xs, b, p-k.center))")
	loop(5, "sum == window(iter(), k.cs, len(xs), xs, b, i-k.center)")
	k.ConvolveAt(xs, b, out)
	ensures("weighted sum of the window", all(p, 0, len(xs), feqTol(out[p], window(len(k.cs), k.cs, len(xs), xs, b, p-k.center), 1)))
}

//verif:client
//verif:property C07
func Client_Convolve(k *Kernel, xs []float64, b BoundaryCondition) {
	requires(okKernel(k) && len(k.cs) <= len(xs) && okCondition(b))
	out := k.Convolve(xs, b)
	ensures("one value per point", len(out) == len(xs))
	ensures("weighted sum of the window", all(p, 0, len(xs), feqTol(out[p], window(len(k.cs), k.cs, len(xs), xs, b, p-k.center), 1)))
}

// weights is the sum of the first k weights.
//
//verif:rec
func weights(k int, cs []float64) float64 {
	if k <= 0 {
		return 0
	}
	return weights(k-1, cs) + cs[k-1]
}

// lemma_scaled: dividing the weights divides their sum.
//
//verif:lemma
func lemma_scaled(k int, cs, ds []float64, f float64) {
	requires(f != 0 && 0 <= k && k <= len(cs) && len(ds) == len(cs) && all(i, 0, k, ds[i]*f == cs[i]))
	decreases(k)
	if k > 0 {
		lemma_scaled(k-1, cs, ds, f)
	}
	ensures("sum", feq(weights(k, ds)*f, weights(k, cs)))
}

// lemma_constant: weights that are all the same.
//
//verif:lemma
func lemma_constant(k int, cs []float64, c float64) {
	requires(0 <= k && k <= len(cs) && all(i, 0, k, cs[i] == c))
	decreases(k)
	if k > 0 {
		lemma_constant(k-1, cs, c)
	}
	ensures("sum", feq(weights(k, cs), float64(k)*c))
}

// lemma_positive: positive weights.
//
//verif:lemma
func lemma_positive(k int, cs []float64) {
	requires(1 <= k && k <= len(cs) && all(i, 0, k, cs[i] > 0))
	decreases(k)
	if k > 1 {
		lemma_positive(k-1, cs)
	}
	ensures("sum", weights(k, cs) > 0)
}

//verif:contract Kernel.normalize
//verif:property C08
func Contract_normalize(k *Kernel) {
	requires(weights(len(k.cs), k.cs) != 0)
	loop(0, "sum == weights(iter(), k.cs)")
	loop(1, "all(i, 0, iter(), k.cs[i]*sum == old(k.cs[i]))", "all(i, iter(), len(k.cs), k.cs[i] == old(k.cs[i]))", "len(k.cs) == old(len(k.cs))")
	modifies(k.cs)
	cs := snap(k.cs)
	k.normalize()
	ensures("the proportions stay", all(i, 0, len(k.cs), feq(k.cs[i]*weights(len(cs), cs), cs[i])))
	lemma_scaled(len(cs), cs, k.cs, weights(len(cs), cs))
	lemma_ratios(cs, k.cs, weights(len(cs), cs))
	ensures("equal weights stay equal", all(i, 0, len(k.cs), all(j, 0, len(k.cs), imp(cs[i] == cs[j], feq(k.cs[i], k.cs[j])))))
	ensures("so do the ratios", all(i, 0, len(k.cs), all(j, 0, len(k.cs), feq(k.cs[i]*cs[j], k.cs[j]*cs[i]))))
	ensures("the sum is one", feq(weights(len(k.cs), k.cs), 1))
}

//verif:lemma
//verif:property C08
func lemma_ratios(cs, out []float64, w float64) {
	requires(len(cs) == len(out) && w != 0 && all(i, 0, len(cs), feq(out[i]*w, cs[i])))
	ensures("equal stay equal", all(i, 0, len(cs), all(j, 0, len(cs), imp(cs[i] == cs[j], feq(out[i], out[j])))))
	ensures("the ratios", all(i, 0, len(cs), all(j, 0, len(cs), feq(out[i]*cs[j], out[j]*cs[i]))))
}

//verif:client
//verif:property C08
func Client_Tophat(width int) {
	requires(width > 0)
	panicsWhen(width%2 != 1)
	k := NewTophatKernel(width)
	ensures("centered", len(k.cs) == width && 2*k.center+1 == width)
	ensures("constant", all(i, 0, width, feq(k.cs[i]*float64(width), 1)))
	ensures("the sum is one", feq(weights(len(k.cs), k.cs), 1))
}

//verif:annot NewTophatKernel
func Annot_NewTophatKernel() {
	loop(0, "len(k.cs) == width", "all(i, 0, iter(), k.cs[i] == 1)", "weights(iter(), k.cs) == float64(iter())", "use: lemma_constant(iter()+1, k.cs, 1)")
}

//verif:client
//verif:property C08
//verif:timeout 90
func Client_Gaussian(width int, sigma, dx float64) {
	requires(width > 0 && sigma != 0)
	panicsWhen(width%2 != 1)
	k := NewGaussianKernel(width, sigma, dx)
	ensures("centered", len(k.cs) == width && 2*k.center+1 == width)
	ensures("the sum is one", feq(weights(len(k.cs), k.cs), 1))
	ensures("symmetric", all(i, 0, width, feq(k.cs[i], k.cs[width-1-i])))
	ensures("proportional to a Gaussian", all(d, 0, k.center+1,
		feq(k.cs[k.center-d]*gaussian(0, sigma), k.cs[k.center]*gaussian(float64(d)*dx, sigma)) &&
			feq(k.cs[k.center+d]*gaussian(0, sigma), k.cs[k.center]*gaussian(float64(d)*dx, sigma))))
}

func gaussian(x, sigma float64) float64 { return math.Exp(-x * x / (2 * sigma * sigma)) }

//verif:annot NewGaussianKernel
func Annot_NewGaussianKernel() {
	loop(0, "0 <= i && i <= k.center+1", "len(k.cs) == width", "imp(i > 0, weights(i, k.cs) > 0)", "use: lemma_positive(i+1, k.cs)", "all(j, 0, i, k.cs[j] == gaussian(float64(j-k.center)*dx, sigma))")
	loop(1, "k.center+1 <= i && i <= width", "len(k.cs) == width", "weights(i, k.cs) > 0", "use: lemma_positive(i+1, k.cs)",
		"all(j, 0, k.center+1, k.cs[j] == gaussian(float64(j-k.center)*dx, sigma))", "all(j, k.center+1, i, k.cs[j] == k.cs[width-1-j])", "all(j, 0, i, k.cs[j] > 0)")
}

func genKernel(r *vpRng) *Kernel {
	n := r.Range(1, 7)
	k := &Kernel{make([]float64, n), r.Range(0, n-1)}
	for i := range k.cs {
		k.cs[i] = float64(r.Range(-8, 24)) / 4
	}
	return k
}

func genValues(r *vpRng, n int) []float64 {
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = float64(r.Range(-64, 64)) / 4
	}
	return xs
}

func Gen_Contract_Get(r *vpRng) (BoundaryCondition, []float64, int) {
	n := r.Range(1, 6)
	return BoundaryCondition(r.Range(0, 3)), genValues(r, n), r.Range(-n, 2*n-1)
}

func Gen_Contract_ConvolveAt(r *vpRng) (*Kernel, []float64, BoundaryCondition, []float64) {
	k := genKernel(r)
	n := len(k.cs) + r.Range(0, 8)
	return k, genValues(r, n), BoundaryCondition(r.Range(0, 3)), genValues(r, n)
}

func Gen_Client_Convolve(r *vpRng) (*Kernel, []float64, BoundaryCondition) {
	k, xs, b, _ := Gen_Contract_ConvolveAt(r)
	return k, xs, b
}

func Gen_Contract_normalize(r *vpRng) *Kernel { return genKernel(r) }

func Gen_Client_Tophat(r *vpRng) int { return r.Range(1, 30) }

func Gen_Client_Gaussian(r *vpRng) (int, float64, float64) {
	return r.Range(1, 30), float64(r.Range(1, 32)) / 8, float64(r.Range(1, 16)) / 8
}
