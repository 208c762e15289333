From 75eba8507c4f45385d286a12c2c9d0ea151a7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 01/36] fix: Median of an odd-length slice is its middle
 element

---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index c6c0d45..61bc984 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -18,7 +18,7 @@ func Median(xs []float64, buf ...[]float64) float64 {
 		panic("xs empty in call to Median(xs)")
 	}
 
-	return NthLargest(xs, len(xs) / 2, buf...)
+	return NthLargest(xs, (len(xs) + 1) / 2, buf...)
 }
 
 // Remember that this function is 1-indexed.
-- 
2.43.0


From 936c8e026085fd23492a55b321b41f0425cbe03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 02/36] fix: Percentile counts from the smallest element and
 accepts p = 0

---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index 61bc984..c2be700 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -10,7 +10,7 @@ func Percentile(xs []float64, p float64, buf ...[]float64) float64 {
 	n := int(p * float64(len(xs)))
 	if n == len(xs) { n-- }
 
-	return NthLargest(xs, n, buf...)
+	return NthLargest(xs, len(xs) - n, buf...)
 }
 
 func Median(xs []float64, buf ...[]float64) float64 {
-- 
2.43.0


From 9c8d00b265f6ef7955b4179acf02476a0b915b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 03/36] fix: TriLinear looks z up in its own table

---
 math/interpolate/linear_interpolators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/linear_interpolators.go b/math/interpolate/linear_interpolators.go
index 5b24db6..f059edd 100644
--- a/math/interpolate/linear_interpolators.go
+++ b/math/interpolate/linear_interpolators.go
@@ -282,7 +282,7 @@ func NewUniformTriLinear(
 func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	ix := tri.xs.search(x)
 	iy := tri.ys.search(y)
-	iz := tri.ys.search(z)
+	iz := tri.zs.search(z)
 
 	dix, diy, diz := 1, tri.nx, tri.nx*tri.ny
 	i := ix + iy*tri.nx + iz*tri.ny*tri.nx
@@ -298,7 +298,7 @@ func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	
 	x1, x2 := tri.xs.val(ix), tri.xs.val(ix + 1)
 	y1, y2 := tri.ys.val(iy), tri.ys.val(iy + 1)
-	z1, z2 := tri.ys.val(iz), tri.ys.val(iz + 1)
+	z1, z2 := tri.zs.val(iz), tri.zs.val(iz + 1)
 	
 	xd := (x - x1) / (x2 - x1)
 	yd := (y - y1) / (y2 - y1)
-- 
2.43.0


From cc05be925f2ee20ec2d53e2a81cfe048351a5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 04/36] fix: interpolators accept decreasing tables

---
 math/interpolate/search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/search.go b/math/interpolate/search.go
index a417fe9..cb8feab 100644
--- a/math/interpolate/search.go
+++ b/math/interpolate/search.go
@@ -33,7 +33,9 @@ func (s *searcher) unifInit(x0, dx float64, n int) {
 
 
 func (s *searcher) search(x float64) int {
-	if x > s.lim || x < s.x0 {
+	min, max := s.x0, s.lim
+	if !s.incr { min, max = max, min }
+	if x > max || x < min {
 		panic(fmt.Sprintf(
 			"Value %g out of range bounds [%g, %g]", x, s.x0, s.lim,
 		))
-- 
2.43.0


From 5631f3f49b6213191c6e605a4b3f8ea27cf75393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 05/36] fix: fourth order derivative divides by the width of
 its stencil

---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index 31d4adc..ad9dae1 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -44,7 +44,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	} else if order == 4 {
 		for i := 2; i < n - 2; i++ {
 			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-1]))
+				(3*(xs[i+2] - xs[i-2]))
 		}
 
 		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-- 
2.43.0


From ce14ac4581c16677f5917bf5c0eae80af4bcb757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 06/36] fix: Cross computes v1 x v2, not v2 x v1

---
 render/geom/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 7ba4d3f..4b7cbc5 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -125,7 +125,7 @@ func (v1 *Vec) CrossSelf(v2 *Vec) *Vec {
 	return v1.CrossAt(v2, v1)
 }
 
-func (v2 *Vec) CrossAt(v1, out *Vec) *Vec {
+func (v1 *Vec) CrossAt(v2, out *Vec) *Vec {
 	out0 := v1[1]*v2[2] - v1[2]*v2[1]
 	out1 := v1[2]*v2[0] - v1[0]*v2[2]
 	out2 := v1[0]*v2[1] - v1[1]*v2[0]
-- 
2.43.0


From dc560396822fe8968383ffffeec44472762ea529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 07/36] fix: Intersect compares the last cell of the smaller
 box

---
 render/geom/grid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index f8bf107..fea94b2 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -116,7 +116,7 @@ func (cb1 *CellBounds) Intersect(cb2 *CellBounds, width int) bool {
 			oBig, wBig = cb1.Origin[i], cb1.Width[i]
 		}
 
-		eSmall := oSmall + wSmall
+		eSmall := oSmall + wSmall - 1
 		beSmall := bound(eSmall, oBig, width)
 		boSmall := bound(oSmall, oBig, width)
 
@@ -146,7 +146,7 @@ func (cb1 *CellBounds) IntersectUnbounded(cb2 *CellBounds) bool {
 func bound(x, origin, width int) int {
 	diff := x - origin
 	if diff < 0 { return diff + width }
-	if diff > width { return diff - width }
+	if diff >= width { return diff - width }
 	return diff
 }
 
-- 
2.43.0


From bbe8ad3a9fec857f31eb310b0353693ee0b7713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 08/36] fix: Grid.Coords inverts Idx when the origin is not
 zero

---
 render/geom/grid.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index fea94b2..f835b6c 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -85,9 +85,9 @@ func (g *Grid) BoundsCheck(x, y, z int) bool {
 
 // Coords returns the x, y, z coordinates of a point from its grid index.
 func (g *Grid) Coords(idx int) (x, y, z int) {
-	x = idx % g.Length
-	y = (idx % g.Area) / g.Length
-	z = idx / g.Area
+	x = idx % g.Length + g.Origin[0]
+	y = (idx % g.Area) / g.Length + g.Origin[1]
+	z = idx / g.Area + g.Origin[2]
 	return x, y, z
 }
 /*
-- 
2.43.0


From d2569bd5768657e44afcb3807d72907a7c1c7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 09/36] fix: InitCentered checks the bounds of all three
 coordinates

---
 render/geom/tetra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 79412a5..b524e31 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -122,9 +122,9 @@ func compressCoordsCheck(
 
 	if newX >= countWidth || newX < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 {
+	} else if newY >= countWidth || newY < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 { 
+	} else if newZ >= countWidth || newZ < 0 { 
 		return -1, false
 	}	
 
-- 
2.43.0


From ea952587169b4200f69a711e35a725054803da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 10/36] fix: Barycenter averages all four corners

---
 render/geom/tetra.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index b524e31..7d30176 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -453,7 +453,8 @@ func (t *Tetra) Barycenter() *Vec {
 	}
 
 	for i := 0; i < 3; i++ {
-		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i]) / 4.0
+		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] +
+			t.Corners[2][i] + t.Corners[3][i]) / 4.0
 	}
 
 	t.baryValid = true
-- 
2.43.0


From 09606ce4328aa061279a30f9877d5a51c09a28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 11/36] fix: derivatives along z step by whole planes at the
 edges

---
 render/geom/deriv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 81f1036..b254f14 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -95,7 +95,7 @@ func (g *Grid) wrapDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.wrapDeriv(idx, 1, pos, g.Width[2])
+					d.wrapDeriv(idx, g.Area, pos, g.Width[2])
 				}
 			}
 		}
@@ -132,7 +132,7 @@ func (g *Grid) edgesDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.edgeDeriv(idx, 1, pos)
+					d.edgeDeriv(idx, g.Area, pos)
 				}
 			}
 		}
-- 
2.43.0


From 0a91e4c0556443ddff413e75af0fb4a13aa09f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 12/36] fix: Curl and Divergence leave their options unchanged

---
 render/geom/deriv.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index b254f14..a161438 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -324,11 +324,9 @@ func (g *GridLocation) Curl(
 	op *DerivOptions,
 ) {
 	// We can't change and revert due to thread safety.
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 
 	g.Deriv(vecs[2], out[0], 1, op)
 	g.Deriv(vecs[0], out[1], 2, op)
@@ -344,11 +342,9 @@ func (g *GridLocation) Divergence(
 	vecs [3][]float32, out []float32,
 	op *DerivOptions,
 ) {
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 	g.Deriv(vecs[0], out, 0, op)
 	op.Op = Add
 	g.Deriv(vecs[1], out, 1, op)
-- 
2.43.0


From 3841d8a2ccc3fe6bd9770c54bd54ba8224770934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 13/36] fix: fourth order derivatives require a width of at
 least five

---
 render/geom/deriv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index a161438..0593258 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -26,9 +26,9 @@ func (g *GridLocation) Deriv(
 
 	if axis > 2 || axis < 0 {
 		log.Fatalf("Unrecognized axis %d", axis)
-	} else if g.Width[axis] < 3 {
-		log.Fatalf("Width of array must be at least 3 for a " +
-			"second-order derivative.")
+	} else if g.Width[axis] <= opt.Order {
+		log.Fatalf("Width of array must be at least %d for an " +
+			"order %d derivative.", opt.Order + 1, opt.Order)
 	} else if opt.Order != 2 && opt.Order != 4 {
 		log.Fatalf("Grid.Deriv() can only compute 2nd and 4th order " +
 			"derivatives, not %d order.", opt.Order)
-- 
2.43.0


From 7d721cd7bcbcd591083996af0f67e233fbae40ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 14/36] fix: the zeroth derivative is the table of values

---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index ad9dae1..a8b04fe 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -34,7 +34,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	}
 
 	if order == 0 {
-		for i := range xs { out[i] = xs[i] }
+		for i := range ys { out[i] = ys[i] }
 	} else if order == 2 {
 		for i := 1; i < n - 1; i++ {
 			out[i] = (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
-- 
2.43.0


From 36edfb9e6cb92a9c1d1529a4e8d8755c1bb2b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 15/36] fix: Quantity.String panicked for Density

---
 render/density/quantity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/quantity.go b/render/density/quantity.go
index b17327e..7a201b7 100644
--- a/render/density/quantity.go
+++ b/render/density/quantity.go
@@ -15,7 +15,7 @@ const (
 )
 
 func (q Quantity) String() string {
-	if q <= 0 || q >= EndQuantity {
+	if q < 0 || q >= EndQuantity {
 		panic(fmt.Sprintf("Value %d out of range for Quantity type.", q))
 	}
 
-- 
2.43.0


From 3f7ed96b709536bd7dc35935e4147de172ef0903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 16/36] fix: finalizing a velocity buffer of less than 30 cells
 divided by zero

---
 render/density/buffer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 595258c..4375006 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -295,9 +295,6 @@ func (buf *velocityBuffer) FinalizedVectorBuffer() (xs, ys, zs []float32, ok boo
 	ys = make([]float32, len(buf.vecs))
 	zs = make([]float32, len(buf.vecs))
 	for i, vec := range buf.vecs {
-		if i % (len(buf.vecs) / 30) == 0 {
-			fmt.Println(i, buf.num[i], vec[0], vec[1], vec[2])
-		}
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		xs[i], ys[i], zs[i] = float32(vec[0])/n, float32(vec[1])/n, float32(vec[2])/n
-- 
2.43.0


From 4a9d9e7ffee6bba8ae5df0f70531fbad60123cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 17/36] fix: velocity divergence used the x velocity for the y
 velocity

---
 render/density/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 4375006..d4b8a55 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -351,7 +351,7 @@ func (buf *divergenceBuffer) FinalizedScalarBuffer() (vals []float32, ok bool) {
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		vecs[0][i] = float32(vec[0])/n
-		vecs[1][i] = float32(vec[0])/n
+		vecs[1][i] = float32(vec[1])/n
 		vecs[2][i] = float32(vec[2])/n
 	} 
 
-- 
2.43.0


From 1b19e5e45ade2d01dd558398e528ebe085a7e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 18/36] fix: intFloor put integers that are not positive one
 cell too low

---
 render/box.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/render/box.go b/render/box.go
index 08bbd8a..d8de373 100644
--- a/render/box.go
+++ b/render/box.go
@@ -683,11 +683,7 @@ func (w *domainOverlap3D) Interpolate(
 }
 
 func intFloor(x float32) int {
-	if x > 0 {
-		return int(x)
-	} else {
-		return int(x - 1)
-	}
+	return int(math.Floor(float64(x)))
 }
 
 func cbSubtr(cb1, cb2 *geom.CellBounds) (i, j, k int) {
-- 
2.43.0


From a574a5f9523a369a2be3132db1a1821531f17b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 19/36] fix: a box as wide as the simulation box had a column
 of cells twice

---
 render/box.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/box.go b/render/box.go
index d8de373..86cb1f3 100644
--- a/render/box.go
+++ b/render/box.go
@@ -163,6 +163,7 @@ func newBox2D(
 			math.Floor((width[j] + origin[j]) / cellWidth),
 		)
 		b.cb.Width[j] -= b.cb.Origin[j]
+		if b.cb.Width[j] > cells { b.cb.Width[j] = cells }
 	}
 
 	b.cells = cells
@@ -199,6 +200,7 @@ func newBox3D(
 			math.Floor((width[j] + origin[j]) / cellWidth),
 		)
 		b.cb.Width[j] -= b.cb.Origin[j]
+		if b.cb.Width[j] > cells { b.cb.Width[j] = cells }
 	}
 
 	b.cells = cells
-- 
2.43.0


From 7442ab06cbca91ce60665fe0bce15cc8039baebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 20/36] fix: reject balls with a negative radius

---
 render/io/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index 39f8354..c9dff2b 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -349,7 +349,7 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
-	if ball.Radius == 0 {
+	if ball.Radius <= 0 {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
 		)
-- 
2.43.0


From 193b1fad3fea427601f43b9fb3992177a1acb8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 21/36] fix: a ball that touches the edge of the simulation
 starts at zero, not at its width

---
 render/io/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index c9dff2b..fdb6fbd 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -391,19 +391,19 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 
 	box.XWidth, box.YWidth, box.ZWidth = 2 * rad, 2 * rad, 2 * rad
 
-	if ball.X > rad {
+	if ball.X >= rad {
 		box.X = ball.X - rad
 	} else {
 		box.X = ball.X - rad + totalWidth
 	}
 
-	if ball.Y > rad {
+	if ball.Y >= rad {
 		box.Y = ball.Y - rad
 	} else {
 		box.Y = ball.Y - rad + totalWidth
 	}
 
-	if ball.Z > rad {
+	if ball.Z >= rad {
 		box.Z = ball.Z - rad
 	} else {
 		box.Z = ball.Z - rad + totalWidth
-- 
2.43.0


From ed42e2cef05d2a5f67aa31156d5299476a1f6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 22/36] fix: support the documented ProjectionAxis of balls

---
 render/io/config.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index fdb6fbd..f8888e2 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -345,6 +345,7 @@ type BallConfig struct {
 
 	// Optional
 	RadiusMultiplier float64
+	ProjectionAxis string
 	Name string
 }
 
@@ -382,6 +383,17 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	axis := ball.ProjectionAxis
+	ball.ProjectionAxis = strings.Trim(strings.ToUpper(axis), " ")
+	switch ball.ProjectionAxis {
+	case "", "X", "Y", "Z":
+	default:
+		return fmt.Errorf(
+			"ProjectionAxis of Ball '%s' must be one of [X | Y | Z]. '%s' is " +
+				"not recognized.", name, axis,
+		)
+	}
+
 	return nil
 }
 
@@ -410,6 +422,7 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 	}
 
 	box.Name = ball.Name
+	box.ProjectionAxis = ball.ProjectionAxis
 
 	return box
 }
-- 
2.43.0


From 7b0cff1ac46f0a5744b5746de466214c456dd3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 23/36] fix: Subsample checks the new subsampling length, not
 the old one

---
 render/hist.go   | 4 ++--
 render/render.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 6f5e5d8..9324064 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -101,8 +101,8 @@ func NewHistManager(
 }
 
 func (man *HistManager) Subsample(skip int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(skip) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.", skip)
 	}
 
 	man.skip = skip
diff --git a/render/render.go b/render/render.go
index 9740a29..4ec0611 100644
--- a/render/render.go
+++ b/render/render.go
@@ -215,8 +215,8 @@ func (r *renderer) initWorkspaces(man *Manager) {
 func (man *Manager) Log(flag bool) { man.log = flag }
 
 func (man *Manager) Subsample(subsampleLength int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(subsampleLength) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.", subsampleLength)
 	}
 
 	man.skip = subsampleLength
-- 
2.43.0


From bf7e6bbb8111c2ac8a79f4939aacf74c59aac54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 24/36] fix: Tausworthe generator never returns 1

---
 math/rand/tausworthe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math/rand/tausworthe.go b/math/rand/tausworthe.go
index 2d1ca26..83ae7c2 100644
--- a/math/rand/tausworthe.go
+++ b/math/rand/tausworthe.go
@@ -36,6 +36,7 @@ func (gen *tauswortheGenerator) Init(seed uint64) {
 func (gen *tauswortheGenerator) Next() float64 {
 	next := gen.seq[gen.firstFollower] - gen.seq[gen.secondFollower]
 	if next < 0 { next += 1.0 }
+	if next >= 1.0 { next = 0.0 } // The addition can round up to 1.
 	gen.seq[gen.leader] = next
 
 	if gen.leader == 0 { gen.leader = len(gen.seq) }
@@ -53,6 +54,7 @@ func (gen *tauswortheGenerator) NextSequence(target []float64) {
 	for i := range target {
 		next := gen.seq[gen.firstFollower] - gen.seq[gen.secondFollower]
 		if next < 0 { next += 1.0 }
+		if next >= 1.0 { next = 0.0 }
 		gen.seq[gen.leader] = next
 
 		if gen.leader == 0 { gen.leader = len(gen.seq) }
-- 
2.43.0


From c1425efe1800ed85cbc660cae57acd973e3ad7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 25/36] fix: Sobol direction numbers follow the recurrence of
 their polynomial

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 9d6cad6..6e951c0 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -58,7 +58,7 @@ func (seq *SobolSequence) Init() {
 			i ^= (i >> deg)
 
 			for l := deg - 1; l >= 1; l-- {
-				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - 1) + k] }
+				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - l) + k] }
 				ipp >>= 1
 			}
 
-- 
2.43.0


From 9794d54f33e75bdd7a5328d2a0545946a6fbb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 26/36] fix: Init restarts a Sobol sequence that has been used

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 6e951c0..20a9b66 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -39,8 +39,8 @@ func NewSobolSequence() *SobolSequence {
 // See Press et al. 2007.
 func (seq *SobolSequence) Init() {
 	for i := range seq.ix { seq.ix[i] = 0 }
-	if seq.isInit { return }
 	seq.seqNum = 0
+	if seq.isInit { return }
 
 	seq.iv = initIv
 	seq.ip = initIp
-- 
2.43.0


From d6254999fb8bb476447ca87cf4bd606c5369618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 27/36] fix: store products of matrices of different widths in
 the right row

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index fd1dcf3..a1c6e0e 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -66,7 +66,7 @@ func (m1 *Matrix) MultAt(m2, out *Matrix) *Matrix {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 2532a08..10e2f21 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -59,7 +59,7 @@ func (m1 *Matrix32) MultAt(m2, out *Matrix32) *Matrix32 {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
-- 
2.43.0


From 848e14b149dedbcd67afc5f579148336930c6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 28/36] fix: apply the pivoting order when solving with an LU
 decomposition

---
 math/mat/mat.go   | 7 ++++---
 math/mat/mat32.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index a1c6e0e..2bc92d0 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -238,8 +238,8 @@ func (lu *LUFactors) factorizeInPlace() {
 		vv[i] = 1 / big
 	}
 
-	var imax int
 	for k := 0; k < n; k++ {
+		imax := k
 		big := 0.0
 		for i := k; i < n; i++ {
 			tmp := vv[i] * math.Abs(m.Vals[i*n + k])
@@ -297,8 +297,9 @@ func (luf *LUFactors) SolveVector(bs, xs []float64) []float64 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst(n int, pivot []int, lu, bs, ys []float64) {
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := 0.0
@@ -342,7 +343,7 @@ func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = b.Vals[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 10e2f21..88b862c 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -142,8 +142,8 @@ func (lu *LUFactors32) factorizeInPlace() {
 		vv[i] = 1 / big
 	}
 
-	var imax int
 	for k := 0; k < n; k++ {
+		imax := k
 		big := float32(0.0)
 		for i := k; i < n; i++ {
 			tmp := vv[i] * float32(math.Abs(float64(m.Vals[i*n + k])))
@@ -201,8 +201,9 @@ func (luf *LUFactors32) SolveVector(bs, xs []float32) []float32 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst32(n int, pivot []int, lu, bs, ys []float32) {
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := float32(0.0)
@@ -246,7 +247,7 @@ func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = b.Vals[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
-- 
2.43.0


From a06f7526aa0843430f207a54e9c4940e18171791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 29/36] fix: wrap and reflect below the start of a table in the
 filters

---
 math/interpolate/filter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index f4ae577..1560e51 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -33,7 +33,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	switch {
 	case i < 0:
 		switch b {
-		case Periodic: return xs[len(xs) - 1 + i]
+		case Periodic: return xs[len(xs) + i]
 		case Reflection: return xs[-(i + 1)]
 		case ZeroPad: return 0
 		case Extension: return xs[0]
@@ -42,7 +42,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	case i >= len(xs):
 		switch b {
 		case Periodic: return xs[i - len(xs)]
-		case Reflection: return xs [(len(xs)-1) - (i - len(xs)-1)]
+		case Reflection: return xs [(len(xs)-1) - (i - len(xs))]
 		case ZeroPad: return 0
 		case Extension: return xs[len(xs) - 1]
 		}
@@ -94,8 +94,8 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			idx := i + j - k.center
 			if idx < 0 {
 				switch b {
-				case Periodic: x = xs[(n - 1) + idx]
-				case Reflection: x = xs[-(idx - 1)]
+				case Periodic: x = xs[n + idx]
+				case Reflection: x = xs[-(idx + 1)]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
 				}
@@ -121,7 +121,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			if idx >= n {
 				switch b {
 				case Periodic: x = xs[idx - n]
-				case Reflection: x = xs[2*(n-1) - idx]
+				case Reflection: x = xs[2*n - 1 - idx]
 				case ZeroPad: x = 0
 				case Extension: x = xs[n - 1]
 				}
-- 
2.43.0


From c45fee9c4c4cce52590c91cd1e4acb43cbc0ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 30/36] fix: splines through two points

---
 math/interpolate/spline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 5f84666..efdacc8 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -202,6 +202,7 @@ func (sp *Spline) calcY2s() {
 	// zero. Better yet, they could be set to something computed via finite
 	// differences.
 	sp.y2s[0], sp.y2s[n-1] = 0, 0
+	if n == 2 { return }
 
 	xs, ys := sp.xs, sp.ys
 	for i := range rs {
-- 
2.43.0


From c81d7ce08d0582e2016ab23df1f84c6394f3c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 31/36] fix: splines over decreasing tables accept the ends of
 the table

---
 math/interpolate/spline.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index efdacc8..bb46cd0 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -109,7 +109,7 @@ func (sp *Spline) EvalAll(xs []float64, out ...[]float64) []float64 {
 //
 // x must be within the range of x values given to NewSpline().
 func (sp *Spline) Deriv(x float64, order int) float64 {
-	if x < sp.xs[0] == sp.incr || x > sp.xs[len(sp.xs)-1] == sp.incr {
+	if sp.outside(x) {
 		panic(fmt.Sprintf("Point %g given to Spline.Differentiate() " + 
 			"out of bounds.", x))
 	}
@@ -134,10 +134,10 @@ func (sp *Spline) Deriv(x float64, order int) float64 {
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
 	if lo > hi { return -sp.Integrate(hi, lo) }
-	if lo < sp.xs[0] == sp.incr || lo > sp.xs[len(sp.xs)-1] == sp.incr {
+	if sp.outside(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
-	} else if hi < sp.xs[0] == sp.incr || hi > sp.xs[len(sp.xs)-1] == sp.incr {
+	} else if sp.outside(hi) {
 		panic(fmt.Sprintf("High bound %g in Spline.Integrate() " + 
 			"out of bounds.", hi))
 	}
@@ -155,6 +155,13 @@ func (sp *Spline) Integrate(lo, hi float64) float64 {
 	return sum
 }
 
+// outside returns true if x is not within the range of the table.
+func (sp *Spline) outside(x float64) bool {
+	first, last := sp.xs[0], sp.xs[len(sp.xs)-1]
+	if sp.incr { return x < first || x > last }
+	return x > first || x < last
+}
+
 func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
 	a, b, c, d := coeff.a, coeff.b, coeff.c, coeff.d
 	dx := hi - lo
-- 
2.43.0


From db52f6ad04ff60cafab5642fee41135e5135615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 32/36] fix: integrals of splines from inside a segment and
 over decreasing tables

---
 math/interpolate/spline.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index bb46cd0..b223af8 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -142,17 +142,21 @@ func (sp *Spline) Integrate(lo, hi float64) float64 {
 			"out of bounds.", hi))
 	}
 
+	// Go through the segments in the order of the table.
+	sign := 1.0
+	if !sp.incr { lo, hi, sign = hi, lo, -1 }
+
 	iLo, iHi := sp.bsearch(lo), sp.bsearch(hi)
 	if iLo == iHi {
-		return integTerm(&sp.coeffs[iLo], lo, hi)
+		return sign * integTerm(&sp.coeffs[iLo], lo - sp.xs[iLo], hi - sp.xs[iLo])
 	}
-	sum := integTerm(&sp.coeffs[iLo], lo, sp.xs[iLo+1]) +
-		integTerm(&sp.coeffs[iHi], sp.xs[iHi], hi)
+	sum := integTerm(&sp.coeffs[iLo], lo - sp.xs[iLo], sp.xs[iLo+1] - sp.xs[iLo]) +
+		integTerm(&sp.coeffs[iHi], 0, hi - sp.xs[iHi])
 
 	for i := iLo + 1; i < iHi; i++ {
-		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i + 1])
+		sum += integTerm(&sp.coeffs[i], 0, sp.xs[i + 1] - sp.xs[i])
 	}
-	return sum
+	return sign * sum
 }
 
 // outside returns true if x is not within the range of the table.
@@ -162,10 +166,11 @@ func (sp *Spline) outside(x float64) bool {
 	return x > first || x < last
 }
 
+// integTerm integrates a cubic from lo to hi, which are relative to its knot.
 func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
 	a, b, c, d := coeff.a, coeff.b, coeff.c, coeff.d
-	dx := hi - lo
-	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
+	return a*(hi*hi*hi*hi - lo*lo*lo*lo)/4 + b*(hi*hi*hi - lo*lo*lo)/3 +
+		c*(hi*hi - lo*lo)/2 + d*(hi - lo)
 }
 
 // bsearch returns the the index of the largest element in xs which is smaller
-- 
2.43.0


From cf19fed2b1a37d7021ba22fff5eada42fac8d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:05 +0000
Subject: [PATCH 33/36] fix: points at the start of a segment are inside it

---
 render/hist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 9324064..d50d64f 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -217,7 +217,7 @@ func intersect1D(a, aSpan, b, bSpan, L float64) bool {
 // can be within [0, 2*L).
 func contains1D(a, aSpan, b, L float64) bool {
 	if b >= L { b -= L }
-	return (b > a && a + aSpan > b) ||
+	return (b >= a && a + aSpan > b) ||
 		(b < a && a + aSpan - L > b)
 }
 
-- 
2.43.0


From e0f7edca8d25347bf253508b7ba335fe074bdf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 34/36] fix: every cube of a subsampled sheet goes to one
 histogram worker

---
 render/hist.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index d50d64f..85d9938 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -243,9 +243,7 @@ func (man *HistManager) chanHistogram(
 			for y := 0; y < segWidth; y += man.skip {
 				for x := 0; x < segWidth; x += man.skip {
 					idx := x + y*gridWidth + z*gridWidth*gridWidth
-					if idx%(man.skip*man.skip*man.skip*man.workers) != worker {
-						continue
-					}
+					if (idx/man.skip)%man.workers != worker { continue }
 
 					if !man.cubeIntersects(idx) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
-- 
2.43.0


From a9b9662d93acdd22b2df637dc27ae8d9c5ad2d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:07 +0000
Subject: [PATCH 35/36] fix: the bounding box of a cube contains all of its
 corners

---
 render/hist.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 85d9938..8e3d4b1 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -296,9 +296,9 @@ func (man *HistManager) cubeBoundingBox(
 	w, L := int(man.hd.GridWidth), float32(man.hd.TotalWidth)
 	origin, span = man.xs[ix + iy*w + iz*w*w], geom.Vec{ }
 
-	for dz := 0; dz < jump; dz += jump {
-		for dy := 0; dy < jump; dy += jump {
-			for dx := 0; dx < jump; dx += jump {
+	for dz := 0; dz <= jump; dz += jump {
+		for dy := 0; dy <= jump; dy += jump {
+			for dx := 0; dx <= jump; dx += jump {
 				// Get the vector in each corner of the Lagrangian cube.
 				x, y, z := ix + dx, iy + dy, iz + dz
 				vec := man.xs[x + y*w + z*w*w]
@@ -315,9 +315,9 @@ func (man *HistManager) cubeBoundingBox(
 					if delta > 0 && delta > span[k] {
 						span[k] = delta
 					} else if delta < 0 {
-						origin[k] -= delta
+						origin[k] += delta
 						if origin[k] < 0 { origin[k] += L }
-						span[k] += delta
+						span[k] -= delta
 					}
 				}
 			}
-- 
2.43.0


From 4c87885faa882a5e3f2502a9d0d5964b87dbe7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:08 +0000
Subject: [PATCH 36/36] fix: tetrahedra across the edge of the simulation are
 sampled in one piece

---
 render/hist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 8e3d4b1..69415c4 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -350,6 +350,7 @@ func (man *HistManager) getDensities(
 		&man.xs[idxBuf[0]], &man.xs[idxBuf[1]],
 		&man.xs[idxBuf[2]], &man.xs[idxBuf[3]],
 	)
+	man.periodizeTetra(&tet, L)
 	
 	bufIdx := rand.Int63n(int64(len(man.unitBufs)))
 	tet.DistributeTetra(man.unitBufs[bufIdx], vecBuf)
@@ -401,7 +402,7 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 func (man *HistManager) periodizeTetra(tet *geom.Tetra, L float32) {
 	for i := 1; i < 4; i++ {
 		for k := 0; k < 3; k++ {
-			delta := tet.Corners[i][k] - tet.Corners[i][0]
+			delta := tet.Corners[i][k] - tet.Corners[0][k]
 			if delta > L/2 { tet.Corners[i][k] -= L }
 			if delta < -L/2 { tet.Corners[i][k] += L }
 		}
-- 
2.43.0

