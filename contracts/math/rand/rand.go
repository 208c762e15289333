package rand

// What every backend promises.

//verif:behaviour generatorBackend.Next
func Behaviour_Next(gen generatorBackend) {
	f := gen.Next()
	ensures("in the unit interval", 0 <= f && f < 1)
}

//verif:behaviour generatorBackend.NextSequence
func Behaviour_NextSequence(gen generatorBackend, target []float64) {
	modifies(target)
	gen.NextSequence(target)
	ensures("in the unit interval", all(k, 0, len(target), 0 <= target[k] && target[k] < 1))
}

//verif:contract Generator.UniformInt
//verif:property C03
func Contract_UniformInt(gen *Generator, low, high int) {
	requires(gen != nil && low < high)
	i := gen.UniformInt(low, high)
	ensures("in [low, high)", low <= i && i < high)
}

//verif:contract Generator.Uniform
//verif:property C03
func Contract_Uniform(gen *Generator, low, high float64) {
	requires(gen != nil && low < high)
	f := gen.Uniform(low, high)
	ensures("in [low, high)", low <= f && f < high)
}

//verif:contract Generator.UniformAt
//verif:property C03
func Contract_UniformAt(gen *Generator, low, high float64, target []float64) {
	requires(gen != nil && low < high)
	loop(0, "all(k, iter(), len(target), 0 <= target[k] && target[k] < 1)", "all(k, 0, iter(), low <= target[k] && target[k] < high)")
	modifies(target)
	gen.UniformAt(low, high, target)
	ensures("in [low, high)", all(k, 0, len(target), low <= target[k] && target[k] < high))
}

// ---------------------------------------------------------------- backends

//verif:client
//verif:property C03
func Client_Golang(seed uint64, n int, target []float64) {
	requires(n >= 0)
	gen := &golangGenerator{}
	gen.Init(seed)
	f := gen.Next()
	ensures("in the unit interval", 0 <= f && f < 1)
	gen.NextSequence(target)
	ensures("a sequence in the unit interval", all(k, 0, len(target), 0 <= target[k] && target[k] < 1))
}

//verif:annot golangGenerator.NextSequence
func Annot_golangNextSequence() {
	loop(0, "all(k, 0, iter(), 0 <= target[k] && target[k] < 1)")
}

// newest is the new last word of a xorshift generator.
func newest(w, x uint32) uint32 {
	t := x ^ (x << 11)
	return w ^ (w >> 19) ^ (t ^ (t >> 8))
}

// The state after a draw; a word of zero is thrown away.
//
//verif:rec
func drawW(w, x, y, z uint32) uint32 {
	if newest(w, x) == 0 {
		return drawW(newest(w, x), y, z, w)
	}
	return newest(w, x)
}

//verif:rec
func drawX(w, x, y, z uint32) uint32 {
	if newest(w, x) == 0 {
		return drawX(newest(w, x), y, z, w)
	}
	return y
}

//verif:rec
func drawY(w, x, y, z uint32) uint32 {
	if newest(w, x) == 0 {
		return drawY(newest(w, x), y, z, w)
	}
	return z
}

//verif:rec
func drawZ(w, x, y, z uint32) uint32 {
	if newest(w, x) == 0 {
		return drawZ(newest(w, x), y, z, w)
	}
	return w
}

// unit is the number in the unit interval that belongs to a word.
func unit(w uint32) float64 { return float64(4294967295-w) / 4294967295 }

//verif:contract xorshiftGenerator.Next
//verif:property C03
//verif:partial
func Contract_xorshiftNext(gen *xorshiftGenerator) float64 {
	w, x, y, z := gen.w, gen.x, gen.y, gen.z
	modifies(gen)
	f := gen.Next()
	ensures("in the unit interval", 0 <= f && f < 1)
	ensures("the number", feq(f, unit(drawW(w, x, y, z))))
	ensures("the state", gen.w == drawW(w, x, y, z) && gen.x == drawX(w, x, y, z) && gen.y == drawY(w, x, y, z) && gen.z == drawZ(w, x, y, z))
	return f
}

// The state after n draws.
//
//verif:rec
func stateW(n int, w, x, y, z uint32) uint32 {
	if n <= 0 {
		return w
	}
	return drawW(stateW(n-1, w, x, y, z), stateX(n-1, w, x, y, z), stateY(n-1, w, x, y, z), stateZ(n-1, w, x, y, z))
}

//verif:rec
func stateX(n int, w, x, y, z uint32) uint32 {
	if n <= 0 {
		return x
	}
	return drawX(stateW(n-1, w, x, y, z), stateX(n-1, w, x, y, z), stateY(n-1, w, x, y, z), stateZ(n-1, w, x, y, z))
}

//verif:rec
func stateY(n int, w, x, y, z uint32) uint32 {
	if n <= 0 {
		return y
	}
	return drawY(stateW(n-1, w, x, y, z), stateX(n-1, w, x, y, z), stateY(n-1, w, x, y, z), stateZ(n-1, w, x, y, z))
}

//verif:rec
func stateZ(n int, w, x, y, z uint32) uint32 {
	if n <= 0 {
		return z
	}
	return drawZ(stateW(n-1, w, x, y, z), stateX(n-1, w, x, y, z), stateY(n-1, w, x, y, z), stateZ(n-1, w, x, y, z))
}

//verif:annot xorshiftGenerator.NextSequence
func Annot_xorshiftNextSequence() {
	loop(0, "0 <= i && i <= len(target)", "all(k, 0, i, 0 <= target[k] && target[k] < 1)",
		"all(k, 0, i, target[k] == unit(stateW(k+1, old(gen.w), old(gen.x), old(gen.y), old(gen.z))))",
		"drawW(gen.w, gen.x, gen.y, gen.z) == stateW(i+1, old(gen.w), old(gen.x), old(gen.y), old(gen.z))",
		"drawX(gen.w, gen.x, gen.y, gen.z) == stateX(i+1, old(gen.w), old(gen.x), old(gen.y), old(gen.z))",
		"drawY(gen.w, gen.x, gen.y, gen.z) == stateY(i+1, old(gen.w), old(gen.x), old(gen.y), old(gen.z))",
		"drawZ(gen.w, gen.x, gen.y, gen.z) == stateZ(i+1, old(gen.w), old(gen.x), old(gen.y), old(gen.z))",
		"imp(i == len(target), gen.w == stateW(i, old(gen.w), old(gen.x), old(gen.y), old(gen.z)) && gen.x == stateX(i, old(gen.w), old(gen.x), old(gen.y), old(gen.z)) && gen.y == stateY(i, old(gen.w), old(gen.x), old(gen.y), old(gen.z)) && gen.z == stateZ(i, old(gen.w), old(gen.x), old(gen.y), old(gen.z)))")
}

//verif:client
//verif:property C03
func Client_Xorshift(gen *xorshiftGenerator, target []float64) {
	w, x, y, z := gen.w, gen.x, gen.y, gen.z
	loop(0, "all(k, 0, iter(), got[k] == unit(stateW(k+1, w, x, y, z)))",
		"one.w == stateW(iter(), w, x, y, z)", "one.x == stateX(iter(), w, x, y, z)", "one.y == stateY(iter(), w, x, y, z)", "one.z == stateZ(iter(), w, x, y, z)")
	one := &xorshiftGenerator{w, x, y, z}
	got := make([]float64, len(target))
	for i := range got {
		got[i] = one.Next()
	}
	gen.NextSequence(target)
	ensures("a sequence in the unit interval", all(k, 0, len(target), 0 <= target[k] && target[k] < 1))
	ensures("one at a time or together", all(k, 0, len(target), feq(target[k], got[k])))
	ensures("to the same state", *gen == *one)
}


// ---------------------------------------------------------------- Tausworthe

// earlier is the position before i in a ring of n.
func earlier(i, n int) int { return pick(i == 0, n-1, i-1) }

// place is the position after k steps from i.
//
//verif:rec
func place(k, i, n int) int {
	if k <= 0 {
		return i
	}
	return earlier(place(k-1, i, n), n)
}

// wrapped is the difference of two numbers of the unit interval, in the unit
// interval.
func wrapped(a, b float64) float64 { return pick(a < b, a-b+1, a-b) }

// slot is entry j of the ring after k steps.
//
//verif:rec
func slot(k, j int, seq []float64, n, l, f, s int) float64 {
	if k <= 0 {
		return seq[j]
	}
	if j == place(k-1, l, n) {
		return wrapped(slot(k-1, place(k-1, f, n), seq, n, l, f, s), slot(k-1, place(k-1, s, n), seq, n, l, f, s))
	}
	return slot(k-1, j, seq, n, l, f, s)
}

func okTausworthe(gen *tauswortheGenerator) bool {
	n := len(gen.seq)
	return 0 <= gen.leader && gen.leader < n && 0 <= gen.firstFollower && gen.firstFollower < n && 0 <= gen.secondFollower && gen.secondFollower < n &&
		all(i, 0, n, 0 <= gen.seq[i] && gen.seq[i] < 1)
}

// after: the state of a generator after k numbers.
func after(gen *tauswortheGenerator, k int, seq []float64, l, f, s int) bool {
	n := len(gen.seq)
	return gen.leader == place(k, l, n) && gen.firstFollower == place(k, f, n) && gen.secondFollower == place(k, s, n) && all(j, 0, n, gen.seq[j] == slot(k, j, seq, n, l, f, s))
}

//verif:annot tauswortheGenerator.NextSequence
func Annot_tauswortheNextSequence() {
	loop(0, "okTausworthe(gen)", "len(gen.seq) == old(len(gen.seq))", "all(k, 0, iter(), 0 <= target[k] && target[k] < 1)",
		"after(gen, iter(), old(gen.seq), old(gen.leader), old(gen.firstFollower), old(gen.secondFollower))",
		"all(k, 0, iter(), target[k] == slot(k+1, place(k, old(gen.leader), len(gen.seq)), old(gen.seq), len(gen.seq), old(gen.leader), old(gen.firstFollower), old(gen.secondFollower)))")
}

//verif:client
//verif:property C03
func Client_Tausworthe(gen *tauswortheGenerator, target []float64) {
	requires(okTausworthe(gen))
	n, l, f, s := len(gen.seq), gen.leader, gen.firstFollower, gen.secondFollower
	seq := snap(gen.seq)
	loop(0, "okTausworthe(one)", "len(one.seq) == n", "all(k, 0, iter(), 0 <= got[k] && got[k] < 1)", "after(one, iter(), seq, l, f, s)",
		"all(k, 0, iter(), got[k] == slot(k+1, place(k, l, n), seq, n, l, f, s))")
	one := &tauswortheGenerator{seq: snap(gen.seq), leader: l, firstFollower: f, secondFollower: s}
	got := make([]float64, len(target))
	for i := range got {
		got[i] = one.Next()
	}
	_, _ = seq, n
	gen.NextSequence(target)
	ensures("a sequence in the unit interval", all(k, 0, len(target), 0 <= target[k] && target[k] < 1))
	ensures("one at a time or together", all(k, 0, len(target), feq(target[k], got[k])))
	ensures("to the same state", gen.leader == one.leader && gen.firstFollower == one.firstFollower && gen.secondFollower == one.secondFollower && all(j, 0, n, gen.seq[j] == one.seq[j]))
	ensures("ready for more", okTausworthe(gen) && okTausworthe(one))
}

//verif:annot tauswortheGenerator.Init
func Annot_tauswortheInit() {
	loop(0, "0 <= digit && digit <= 15", "f > 0 && f <= 1", "len(gen.seq) == 9689", "all(i, 0, 9689, 0 <= gen.seq[i] && gen.seq[i] <= 2-2*f)")
	loop(1, "f > 0 && f <= 1", "len(gen.seq) == 9689", "all(k, 0, iter(), 0 <= gen.seq[k] && gen.seq[k] <= 2-f)", "all(k, iter(), 9689, 0 <= gen.seq[k] && gen.seq[k] <= 2-2*f)")
	loop(2, "len(gen.seq) == 9689", "all(k, 0, iter(), 0 <= gen.seq[k] && gen.seq[k] < 1)", "all(k, iter(), 9689, 0 <= gen.seq[k] && gen.seq[k] < 2)")
}

//verif:client
//verif:property C03
//verif:keep 15 range
func Client_TauswortheInit(gen *tauswortheGenerator, seed uint64) {
	gen.Init(seed)
	ensures("ready", okTausworthe(gen))
	ensures("different followers", gen.leader != gen.firstFollower && gen.leader != gen.secondFollower && gen.firstFollower != gen.secondFollower)
}

//verif:client
//verif:property C03
func Client_XorshiftInit(gen *xorshiftGenerator, seed uint64) {
	gen.Init(seed)
	ensures("the seed", gen.w == uint32(seed))
	ensures("nothing else", gen.x == 123456789 && gen.y == 362436069 && gen.z == 521288629)
}

// One step of the lagged Fibonacci ring.
//
//verif:client
//verif:property C03
func Client_TauswortheStep(gen *tauswortheGenerator) {
	requires(okTausworthe(gen))
	n, l, f, s := len(gen.seq), gen.leader, gen.firstFollower, gen.secondFollower
	seq := snap(gen.seq)
	got := gen.Next()
	ensures("difference in the unit interval", feq(got, wrapped(seq[f], seq[s])))
	ensures("kept in the ring", all(j, 0, n, gen.seq[j] == pick(j == l, got, seq[j])))
	ensures("everything moves back by one", gen.leader == earlier(l, n) && gen.firstFollower == earlier(f, n) && gen.secondFollower == earlier(s, n))
}

//verif:client
//verif:property C03
//verif:keep 15 range
func Client_New(gt GeneratorType, seed uint64, low, high float64, a, b int) {
	requires(gt <= Tausworthe && low < high && a < b)
	gen := New(gt, seed)
	f := gen.Uniform(low, high)
	ensures("ready to use", low <= f && f < high)
	i := gen.UniformInt(a, b)
	ensures("integers too", a <= i && i < b)
}

func Gen_Client_Tausworthe(r *vpRng) (*tauswortheGenerator, []float64) {
	gen := &tauswortheGenerator{}
	n := r.Range(2, 12)
	gen.seq = make([]float64, n)
	for i := range gen.seq {
		gen.seq[i] = float64(r.Range(0, 1023)) / 1024
	}
	gen.leader, gen.firstFollower, gen.secondFollower = r.Range(0, n-1), r.Range(0, n-1), r.Range(0, n-1)
	return gen, make([]float64, r.Range(0, 3*n))
}

func Gen_Client_TauswortheStep(r *vpRng) *tauswortheGenerator {
	gen, _ := Gen_Client_Tausworthe(r)
	return gen
}

func Gen_Contract_UniformInt(r *vpRng) (*Generator, int, int) {
	low := r.Range(-1000, 1000)
	return New(GeneratorType(r.Range(0, 2)), uint64(r.Range(0, 1000))), low, low + r.Range(1, 500)
}

func Gen_Contract_Uniform(r *vpRng) (*Generator, float64, float64) {
	low := float64(r.Range(-1000, 1000)) / 64
	return New(GeneratorType(r.Range(0, 2)), uint64(r.Range(0, 1000))), low, low + float64(r.Range(1, 500))/64
}

func Gen_Contract_UniformAt(r *vpRng) (*Generator, float64, float64, []float64) {
	gen, low, high := Gen_Contract_Uniform(r)
	return gen, low, high, make([]float64, r.Range(0, 20))
}
