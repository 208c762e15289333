package render

import (
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
)

// pow2: x is a power of two.
//
//verif:rec
func pow2(x int) bool {
	if x <= 1 {
		return x == 1
	}
	return x%2 == 0 && pow2(x/2)
}

//verif:annot isPowTwo
func Annot_isPowTwo() {
	loop(0, "x <= old(x)", "imp(x != old(x), x > 0)", "pow2(x) == pow2(old(x))", "dec: pick(x > 0, x, 0)")
}

//verif:client
//verif:property C23
func Client_Subsample(man *Manager, n int) {
	requires(n >= -1000)
	panicsWhen(!pow2(n))
	man.Subsample(n)
	ensures("powers of two are used", man.skip == n && pow2(n))
}

func Gen_Client_Subsample(r *vpRng) (*Manager, int) {
	return &Manager{skip: r.Range(0, 3)}, 1 << uint(r.Range(0, 9))
}

// probe is an overlap that checks how it is used.
type probe struct {
	n int

	man    *Manager
	r      *renderer
	id     int
	called int
}

func (p *probe) DomainCellBounds() *geom.CellBounds           { return &geom.CellBounds{} }
func (p *probe) BufferCellBounds() *geom.CellBounds           { return &geom.CellBounds{} }
func (p *probe) Cells() int                                   { return 1 }
func (p *probe) BufferSize() int                              { return p.n }
func (p *probe) ScaleVecs(vs []geom.Vec, vcb *geom.CellBounds) {}
func (p *probe) Add(buf, grid density.Buffer)                 {}

func (p *probe) Interpolate(buf density.Buffer, xs, vs []geom.Vec, ptVal float64, weights density.Buffer, low, high, jump int) {
	assert("once", p.called == 0)
	p.called++
	w := &p.man.workspaces[p.id]
	assert("the buffer of the worker", buf == w.buf)
	assert("the particles of the segment", len(xs) == len(p.man.scaledXs) && all(i, 0, len(xs), xs[i] == p.man.scaledXs[i]))
	assert("their velocities", len(vs) == len(p.man.vs) && all(i, 0, len(vs), vs[i] == p.man.vs[i]))
	cw := p.man.hd.CountWidth
	frac := float64(p.r.box.Cells()) / float64(cw)
	assert("a particle is worth its share of the mean density", feq(ptVal, pick(vector(p.man.q), 1, frac*frac*frac)))
	assert("the range of the worker", low == w.lowX && high == w.highX && jump == p.man.workers)
}

//verif:client
//verif:property C23
//verif:split q=0|1|2|3|4
func Client_Worker(q density.Quantity, cells, n, points, workers, low, high, id int, cw int64, xs, vs, sxs []geom.Vec) {
	requires(0 <= q && q <= 4 && cells >= 1 && n >= 0 && points >= 1 && workers >= 1 && cw >= 1 && 0 <= id && id < 2)
	man := &Manager{xs: xs, vs: vs, scaledXs: sxs, q: q, workers: workers, workspaces: make([]workspace, 2)}
	man.hd.CountWidth = cw
	b := &box3D{}
	b.cells = cells
	p := &probe{n: n, man: man, id: id}
	r := &renderer{box: b, over: p}
	p.r = r
	man.workspaces[0] = workspace{buf: density.NewBuffer(q, n, points, nil), lowX: low, highX: high, intr: p}
	man.workspaces[1] = workspace{buf: density.NewBuffer(q, n, points, nil), lowX: low, highX: high, intr: p}
	man.chanInterpolate(id, r, make(chan int, 1))
	ensures("the segment is deposited once", p.called == 1)
}

func Gen_Client_Worker(r *vpRng) (density.Quantity, int, int, int, int, int, int, int, int64, []geom.Vec, []geom.Vec, []geom.Vec) {
	k := r.Range(0, 4)
	return density.Quantity(r.Range(0, 4)), r.Range(1, 9), r.Range(0, 9), r.Range(1, 4), r.Range(1, 3), r.Range(0, 3), r.Range(0, 9), r.Range(0, 1), int64(r.Range(1, 9)),
		make([]geom.Vec, k), make([]geom.Vec, k), make([]geom.Vec, k)
}

func untouched(b density.Buffer, q density.Quantity, n int) bool {
	s, _ := b.ScalarBuffer()
	v, _ := b.VectorBuffer()
	c, _ := b.CountBuffer()
	return sameShape(b, q, n) && all(i, 0, len(s), s[i] == 0) && all(i, 0, len(v), v[i] == [3]float64{}) && all(i, 0, len(c), c[i] == 0)
}

//verif:client
//verif:property C23
//verif:split q=0|1|2|3|4
func Client_initWorkspaces(q density.Quantity, cells, n, m, points int, seg, cw int64, skip int, s []float64, v [][3]float64, c []int, g *geom.GridLocation) {
	requires(0 <= q && q <= 4 && cells >= 1 && 0 <= n && n <= m && points >= 1 && cw >= 1 && seg >= 1 && skip >= 1)
	requires(len(s) == m && len(v) == m && len(c) == m)
	man := &Manager{q: q, skip: skip, workers: 3, workspaces: make([]workspace, 3)}
	man.hd.CountWidth = cw
	man.hd.SegmentWidth = seg
	man.unitBufs = [][]geom.Vec{make([]geom.Vec, points+1), make([]geom.Vec, points+1)}
	b := &box3D{}
	b.cells = cells
	b.pts = points
	r := &renderer{box: b, over: &probe{n: n}, g: g}
	for i := range man.workspaces {
		man.workspaces[i].buf = holding(q, m, s, v, c)
	}
	r.initWorkspaces(man)
	side := int(seg) / skip
	for i := range man.workspaces {
		w := &man.workspaces[i]
		ensures("every worker starts at its own number", w.lowX == i)
		ensures("every worker goes to the last cube", w.highX == side*side*side)
		ensures("every worker has an empty buffer of the right size", untouched(w.buf, q, n))
		ensures("every worker has an interpolator", w.intr.Cells() == 1)
	}
	for i := range man.unitBufs {
		ensures("as many points as the box asks for", len(man.unitBufs[i]) == points)
	}
}

func Gen_Client_initWorkspaces(r *vpRng) (density.Quantity, int, int, int, int, int64, int64, int, []float64, [][3]float64, []int, *geom.GridLocation) {
	n := r.Range(0, 5)
	m := n + r.Range(0, 2)
	return density.Quantity(r.Range(0, 4)), r.Range(1, 9), n, m, r.Range(1, 4), int64(r.Range(1, 9)), int64(r.Range(1, 9)), r.Range(1, 4), r.Floats(m), make([][3]float64, m), make([]int, m), nil
}
