package sort

// ---------------------------------------------------------------- vocabulary

func sorted(xs []float64, lo, hi int) bool {
	return all(k, lo+1, hi, xs[k-1] <= xs[k])
}

func perm(a, b []float64) bool {
	if isRuntime() {
		return permNative(a, b)
	}
	return len(a) == len(b) && forallReal(func(q float64) bool {
		return cnt(a, 0, len(a), q) == cnt(b, 0, len(b), q) && cntgt(a, 0, len(a), q) == cntgt(b, 0, len(b), q)
	})
}

// permNative is perm for concrete slices.
func permNative(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[float64]int{}
	for i := range a {
		m[a[i]]++
		m[b[i]]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

func members(a, b []float64) bool {
	return all(k, 0, len(b), ex(j, 0, len(a), b[k] == a[j]))
}

// shellInc says that n is a member of 1, 4, 13, 40, ... (n_{i+1} = 3 n_i + 1).
//
//verif:rec
func shellInc(n int) bool {
	if n <= 1 {
		return n == 1
	}
	return n%3 == 1 && shellInc(n/3)
}

// ---------------------------------------------------------------- lemmas

//verif:lemma
func lemma_cntpos(a []float64, n, k int) {
	requires(0 <= k && k < n && n <= len(a))
	decreases(n)
	proof(func() {
		if k < n-1 {
			lemma_cntpos(a, n-1, k)
		}
	})
	ensures("an element is counted", cnt(a, 0, n, a[k]) >= 1)
}

//verif:lemma
func lemma_cntposr(a []float64, lo, n, k int) {
	requires(0 <= lo && lo <= k && k < n && n <= len(a))
	decreases(n)
	proof(func() {
		if k < n-1 {
			lemma_cntposr(a, lo, n-1, k)
		}
	})
	ensures("an element is counted", cnt(a, lo, n, a[k]) >= 1)
}

//verif:lemma
func lemma_cntwit(a []float64, n int, v float64) {
	requires(0 <= n && n <= len(a) && cnt(a, 0, n, v) >= 1)
	decreases(n)
	proof(func() {
		if a[n-1] != v {
			lemma_cntwit(a, n-1, v)
		}
	})
	ensures("a counted value is an element", ex(j, 0, n, a[j] == v))
}

//verif:lemma
func lemma_members(a, b []float64) {
	requires(perm(a, b))
	proof(func() {
		loop(0, "all(i, 0, k, ex(j, 0, len(a), b[i] == a[j]))")
		for k := 0; k < len(b); k++ {
			lemma_cntpos(b, len(b), k)
			lemma_cntwit(a, len(a), b[k])
		}
	})
	ensures("members", members(a, b))
}

//verif:lemma
func lemma_cntposs(a []float64) {
	proof(func() {
		loop(0, "all(i, 0, k, cnt(a, 0, len(a), a[i]) >= 1)", "all(i, 0, k, forallReal(func(v float64) bool { return imp(a[i] > v, cntgt(a, 0, len(a), v) >= 1) }))",
			"all(i, 0, k, forallReal(func(v float64) bool { return imp(a[i] < v, cnt(a, 0, len(a), v)+cntgt(a, 0, len(a), v) <= len(a)-1) }))")
		for k := 0; k < len(a); k++ {
			lemma_cntgtpos(a, len(a), k)
			lemma_cntpos(a, len(a), k)
		}
	})
	ensures("elements are counted", all(i, 0, len(a), cnt(a, 0, len(a), a[i]) >= 1))
	ensures("larger elements are counted", all(i, 0, len(a), forallReal(func(v float64) bool { return imp(a[i] > v, cntgt(a, 0, len(a), v) >= 1) })))
	ensures("smaller elements are not", all(i, 0, len(a), forallReal(func(v float64) bool { return imp(a[i] < v, cnt(a, 0, len(a), v)+cntgt(a, 0, len(a), v) <= len(a)-1) })))
}

//verif:lemma
func lemma_cntgtpos(a []float64, n, k int) {
	requires(0 <= k && k < n && n <= len(a))
	decreases(n)
	proof(func() {
		if k < n-1 {
			lemma_cntgtpos(a, n-1, k)
		}
		lemma_cntub(a, n-1)
	})
	ensures("a larger element is counted", forallReal(func(v float64) bool { return imp(a[k] > v, cntgt(a, 0, n, v) >= 1) }))
	ensures("a smaller element is not counted", forallReal(func(v float64) bool { return imp(a[k] < v, cnt(a, 0, n, v)+cntgt(a, 0, n, v) <= n-1) }))
}

//verif:lemma
func lemma_cntub(a []float64, n int) {
	requires(0 <= n && n <= len(a))
	decreases(n)
	proof(func() {
		if n > 0 {
			lemma_cntub(a, n-1)
		}
	})
	ensures("an element is counted at most once", forallReal(func(v float64) bool { return cnt(a, 0, n, v)+cntgt(a, 0, n, v) <= n }))
}

// ---------------------------------------------------------------- contracts

//verif:contract Reverse
//verif:property C01
func Contract_Reverse(xs []float64) {
	a := snap(xs)
	modifies(xs)
	loop(0, "all(k, 0, len(xs), xs[k] == pick(k < i || k > len(xs)-1-i, old(xs)[len(xs)-1-k], old(xs)[k]))")
	returnsSame(xs)
	r := Reverse(xs)
	ensures("the slice is returned", len(r) == len(xs) && samebase(r, xs))
	ensures("reversed", all(k, 0, len(xs), xs[k] == a[len(xs)-1-k]))
}

//verif:contract Shell
//verif:property C01
func Contract_Shell(xs []float64) {
	a := snap(xs)
	modifies(xs)
	loop(0, "inc >= 1 && shellInc(inc)")
	loop(1, "inc >= 1 && shellInc(inc)", "perm(old(xs), xs)", "imp(inc == 1, sorted(xs, 0, len(xs)))")
	loop(2, "inc >= 1 && shellInc(inc)", "perm(old(xs), xs)", "all(k, inc, i, xs[k-inc] <= xs[k])")
	loop(3, "inc >= 1 && inc <= j && j <= i",
		"forallReal(func(q float64) bool { return cnt(xs, 0, len(xs), q) - pick(xs[j] == q, 1, 0) + pick(v == q, 1, 0) == cnt(old(xs), 0, len(xs), q) && cntgt(xs, 0, len(xs), q) - pick(xs[j] > q, 1, 0) + pick(v > q, 1, 0) == cntgt(old(xs), 0, len(xs), q)})",
		"all(k, inc, i, xs[k-inc] <= xs[k])",
		"imp(j < i, xs[i-inc] <= xs[i] && j+inc <= i && v < xs[j+inc])")
	returnsSame(xs)
	r := Shell(xs)
	ensures("the slice is returned", len(r) == len(xs) && samebase(r, xs))
	ensures("ascending", sorted(xs, 0, len(xs)))
	ensures("permutation", perm(a, xs))
	lemma_members(a, xs)
	ensures("members", members(a, xs))
}

//verif:contract partition
//verif:property C01 C02
func Contract_partition(xs []float64) {
	requires(len(xs) >= 4)
	a := snap(xs)
	modifies(xs)
	loop(0, "1 <= lo && lo <= hi && 2 <= hi && hi <= n-1 && (lo < hi || hi <= n-2)", "perm(old(xs), xs)",
		"xs[1] == mid && xs[0] <= mid",
		"all(k, 2, lo+1, xs[k] <= mid)", "all(k, hi, n, mid <= xs[k])", "dec: hi-lo")
	loop(1, "1 <= lo && lo <= hi+1 && lo <= n-1", "all(k, 2, lo, xs[k] <= mid)", "dec: n-lo")
	loop(2, "1 <= hi && hi <= n-2", "all(k, hi+1, n, mid <= xs[k])", "dec: hi")
	p := partition(xs)
	ensures("the pivot splits the slice in two non-empty parts", 1 <= p && p <= len(xs)-1)
	ensures("nothing left of the pivot is larger", all(k, 0, p, xs[k] <= xs[p]))
	ensures("nothing right of the pivot is smaller", all(k, p, len(xs), xs[p] <= xs[k]))
	ensures("permutation", perm(a, xs))
	lemma_members(a, xs)
	ensures("members", members(a, xs))
	lemma_low(xs, xs[p])
	lemma_high(xs, xs[p], p)
	lemma_cntposr(xs, p, len(xs), p)
	ensures("the pivot is counted", cnt(xs, p, len(xs), xs[p]) >= 1)
	ensures("no larger element is counted left of the pivot", cntgt(xs, 0, p, xs[p]) == 0)
	ensures("every element right of the pivot is counted", cntgt(xs, p, len(xs), xs[p])+cnt(xs, p, len(xs), xs[p]) == len(xs)-p)
}

//verif:contract Quick
//verif:paths
//verif:property C01
func Contract_Quick(xs []float64) {
	a := snap(xs)
	modifies(xs)
	decreases(len(xs))
	returnsSame(xs)
	r := Quick(xs)
	ensures("the slice is returned", len(r) == len(xs) && samebase(r, xs))
	ensures("ascending", sorted(xs, 0, len(xs)))
	ensures("permutation", perm(a, xs))
	lemma_members(a, xs)
	ensures("members", members(a, xs))
}

// Quick's recursion is only entered for slices of manualLen elements or more.
func Gen_Contract_Quick(r *vpRng) []float64 {
	return r.Floats([]int{r.Range(0, 30), r.Range(0, 3), r.Range(20, 30), r.Range(30, 300)}[r.Intn(4)])
}

func Gen_Contract_partition(r *vpRng) []float64 {
	return r.Floats([]int{r.Range(4, 8), r.Range(4, 30), r.Range(30, 100)}[r.Intn(3)])
}

// ---------------------------------------------------------------- order statistics

// rank says that v is the n-th largest element (counting from 1) of xs.
func rank(xs []float64, n int, v float64) bool {
	return cntgt(xs, 0, len(xs), v) < n && n <= cntgt(xs, 0, len(xs), v)+cnt(xs, 0, len(xs), v)
}

// lemma_low: while nothing exceeds v, nothing is counted.
//
//verif:lemma
func lemma_low(a []float64, v float64) {
	proof(func() {
		loop(0, "all(q, 0, p+1, imp(all(k, 0, q, a[k] <= v), cntgt(a, 0, q, v) == 0))")
		for p := 0; p < len(a); p++ {
		}
	})
	ensures("no element of such a prefix is greater", all(q, 0, len(a)+1, imp(all(k, 0, q, a[k] <= v), cntgt(a, 0, q, v) == 0)))
}

// lemma_high: if everything from q on is at least v, everything is counted.
//
//verif:lemma
func lemma_high(a []float64, v float64, q int) {
	requires(0 <= q && q <= len(a))
	proof(func() {
		loop(0, "q <= p && p <= len(a)", "imp(all(k, q, p, v <= a[k]), cntgt(a, q, p, v)+cnt(a, q, p, v) == p-q)")
		for p := q; p < len(a); p++ {
		}
	})
	ensures("every element of such a range is counted", imp(all(k, q, len(a), v <= a[k]), cntgt(a, q, len(a), v)+cnt(a, q, len(a), v) == len(a)-q))
}

//verif:lemma
func lemma_highs(a []float64, v float64) {
	proof(func() {
		loop(0, "all(q, 0, p, imp(all(k, q, len(a), v <= a[k]), cntgt(a, q, len(a), v)+cnt(a, q, len(a), v) == len(a)-q))")
		for p := 0; p <= len(a); p++ {
			lemma_high(a, v, p)
		}
	})
	ensures("every element of such a suffix is counted", all(q, 0, len(a)+1, imp(all(k, q, len(a), v <= a[k]), cntgt(a, q, len(a), v)+cnt(a, q, len(a), v) == len(a)-q)))
}

//verif:contract nthLargest
//verif:paths
//verif:property C02
func Contract_nthLargest(xs []float64, n int) {
	requires(1 <= n && n <= len(xs))
	a := snap(xs)
	modifies(xs)
	decreases(len(xs))
	r := nthLargest(xs, n)
	ensures("permutation", perm(a, xs))
	lemma_members(a, xs)
	ensures("members", members(a, xs))
	ensures("the result is an element", ex(j, 0, len(xs), xs[j] == r))
	lemma_low(xs, r)
	lemma_highs(xs, r)
	ensures("the result has rank n", rank(xs, n, r))
	ensures("the result has rank n in the input", rank(a, n, r))
}

func Gen_Contract_nthLargest(r *vpRng) ([]float64, int) {
	xs := r.Floats([]int{r.Range(1, 4), r.Range(1, 12), r.Range(10, 60)}[r.Intn(3)])
	return xs, r.Range(1, len(xs))
}

// ---- through the exported functions

//verif:client
//verif:property C02
func Client_NthLargest(xs []float64, n int) {
	requires(1 <= n && n <= len(xs))
	a := snap(xs)
	r := NthLargest(xs, n)
	ensures("the n-th largest element", rank(a, n, r))
	ensures("the input is untouched", all(k, 0, len(xs), xs[k] == a[k]))
}

//verif:client
//verif:property C02
func Client_NthLargestBuf(xs, buf []float64, n int) {
	requires(1 <= n && n <= len(xs) && len(buf) == len(xs))
	a := snap(xs)
	r := NthLargest(xs, n, buf)
	ensures("the n-th largest element", rank(a, n, r))
	ensures("the input is untouched", all(k, 0, len(xs), xs[k] == a[k]))
}

//verif:client
//verif:property C02
func Client_Median(xs []float64) {
	requires(len(xs) >= 1)
	a := snap(xs)
	r := Median(xs)
	ensures("the middle element, or the upper one of the two middle elements", rank(a, (len(a)+1)/2, r))
	ensures("the input is untouched", all(k, 0, len(xs), xs[k] == a[k]))
}

//verif:client
//verif:property C02
func Client_Percentile(xs []float64, p float64) {
	requires(len(xs) >= 1 && 0 <= p && p <= 1)
	a := snap(xs)
	r := Percentile(xs, p)
	i := int(p * float64(len(xs)))
	if i == len(xs) {
		i--
	}
	ensures("the element at index floor(p n) of the ascending order", rank(a, len(a)-i, r))
	ensures("the input is untouched", all(k, 0, len(xs), xs[k] == a[k]))
}

//verif:client
//verif:property C02
func Client_PercentileEnds(xs []float64) {
	requires(len(xs) >= 1)
	lo, hi := Percentile(xs, 0), Percentile(xs, 1)
	lemma_cntposs(xs)
	ensures("p = 0 is the minimum", all(k, 0, len(xs), lo <= xs[k]))
	ensures("p = 1 is the maximum", all(k, 0, len(xs), xs[k] <= hi))
}

//verif:client
//verif:property C02
func Client_StatisticsBuf(xs, buf []float64, p float64) {
	requires(len(xs) >= 1 && len(buf) == len(xs) && 0 <= p && p <= 1)
	a := snap(xs)
	r := Median(xs, buf)
	ensures("the median with a buffer", rank(a, (len(a)+1)/2, r))
	ensures("the input is untouched", all(k, 0, len(xs), xs[k] == a[k]))
	r = Percentile(xs, p, buf)
	i := int(p * float64(len(xs)))
	if i == len(xs) {
		i--
	}
	ensures("the percentile with a buffer", rank(a, len(a)-i, r))
	ensures("the input is still untouched", all(k, 0, len(xs), xs[k] == a[k]))
}

//verif:client
//verif:property C02
func Client_NthLargestRejects(xs, buf []float64, n int) {
	panicsWhen(len(xs) == 0 || len(buf) != len(xs))
	requires(len(xs) == 0 || len(buf) != len(xs))
	NthLargest(xs, n, buf)
}

//verif:client
//verif:property C02
func Client_MedianRejects(xs []float64) {
	requires(len(xs) == 0)
	panicsWhen(true)
	Median(xs)
}

//verif:client
//verif:property C02
func Client_PercentileRejects(xs []float64, p float64) {
	requires(len(xs) == 0 || p < 0 || p > 1)
	panicsWhen(true)
	Percentile(xs, p)
}

func Gen_Client_StatisticsBuf(r *vpRng) ([]float64, []float64, float64) {
	xs, p := Gen_Client_Percentile(r)
	return xs, r.Floats(len(xs)), p
}
func Gen_Client_NthLargestRejects(r *vpRng) ([]float64, []float64, int) {
	n := r.Range(0, 4)
	return r.Floats(n), r.Floats(n + r.Range(0, 2)), r.Range(1, 4)
}
func Gen_Client_MedianRejects(r *vpRng) []float64 { return nil }
func Gen_Client_PercentileRejects(r *vpRng) ([]float64, float64) {
	return r.Floats(r.Range(0, 3)), []float64{-0.25, 1.25, 0.5}[r.Intn(3)]
}
func Gen_Client_NthLargest(r *vpRng) ([]float64, int) { return Gen_Contract_nthLargest(r) }
func Gen_Client_NthLargestBuf(r *vpRng) ([]float64, []float64, int) {
	xs, n := Gen_Contract_nthLargest(r)
	return xs, r.Floats(len(xs)), n
}
func Gen_Client_Median(r *vpRng) []float64 { xs, _ := Gen_Contract_nthLargest(r); return xs }
func Gen_Client_PercentileEnds(r *vpRng) []float64 { xs, _ := Gen_Contract_nthLargest(r); return xs }
func Gen_Client_Percentile(r *vpRng) ([]float64, float64) {
	xs, _ := Gen_Contract_nthLargest(r)
	return xs, []float64{0, 1, r.Float64(), float64(r.Range(0, len(xs))) / float64(len(xs))}[r.Intn(4)]
}
