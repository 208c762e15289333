package io

import "strings"

// ---------------------------------------------------------------- vocabulary

// axisOf is the canonical form of a projection axis given by a user.
func axisOf(s string) string { return strings.Trim(strings.ToUpper(s), " ") }

func okAxis(s string) bool { return s == "" || s == "X" || s == "Y" || s == "Z" }

func inside(x, tw float64) bool { return 0 <= x && x < tw }

func okBox(b BoxConfig, tw float64) bool {
	return b.XWidth > 0 && b.YWidth > 0 && b.ZWidth > 0 &&
		inside(b.X, tw) && inside(b.Y, tw) && inside(b.Z, tw) &&
		okAxis(axisOf(b.ProjectionAxis))
}

func okBall(b BallConfig, tw float64) bool {
	return b.Radius > 0 && b.RadiusMultiplier >= 0 &&
		inside(b.X, tw) && inside(b.Y, tw) && inside(b.Z, tw) &&
		okAxis(axisOf(b.ProjectionAxis))
}

// lowEdge is x - r, a distance r below x, in a periodic box.
func lowEdge(x, r, tw float64) float64 {
	if x-r >= 0 {
		return x - r
	}
	return x - r + tw
}

// ---------------------------------------------------------------- boxes

//verif:contract BoxConfig.CheckInit
//verif:property C27
//verif:paths
func Contract_BoxCheckInit(box *BoxConfig, name string, totalWidth float64) {
	requires(box != nil)
	modifies(box)
	b0 := *box
	err := box.CheckInit(name, totalWidth)
	ensures("accepted exactly when it is valid", (err == nil) == okBox(b0, totalWidth))
	if err == nil {
		ensures("named", box.Name == name)
		ensures("canonical axis", box.ProjectionAxis == axisOf(b0.ProjectionAxis))
		ensures("valid axis", okAxis(box.ProjectionAxis))
	}
	ensures("same region", box.X == b0.X && box.Y == b0.Y && box.Z == b0.Z &&
		box.XWidth == b0.XWidth && box.YWidth == b0.YWidth && box.ZWidth == b0.ZWidth)
}

func vpWord(r *vpRng) string {
	return []string{"", "X", "y", " z", "Z ", "XY", "w", "x "}[r.Intn(8)]
}

func vpCoord(r *vpRng) float64 {
	return []float64{-1, 0, 0.5, 3, 9.75, 10, 11}[r.Intn(7)]
}

func vpCenter(r *vpRng) float64 {
	return []float64{0, 0.5, 3, 9.75}[r.Intn(4)]
}

func Gen_Contract_BoxCheckInit(r *vpRng) (*BoxConfig, string, float64) {
	b := &BoxConfig{ProjectionAxis: vpWord(r), Name: "old"}
	if r.Intn(2) == 0 {
		b.X, b.Y, b.Z = vpCenter(r), vpCenter(r), vpCenter(r)
		b.XWidth, b.YWidth, b.ZWidth = 1, 2, 3
	} else {
		b.X, b.Y, b.Z = vpCoord(r), vpCoord(r), vpCoord(r)
		b.XWidth, b.YWidth, b.ZWidth = vpCoord(r), vpCoord(r), vpCoord(r)
	}
	return b, "new", 10
}

//verif:contract BoxConfig.IsProjection
//verif:property C27
func Contract_IsProjection(box *BoxConfig) {
	requires(box != nil)
	ok := box.IsProjection()
	ensures("exactly when it has an axis", ok == (box.ProjectionAxis != ""))
}

// ---------------------------------------------------------------- balls

//verif:contract BallConfig.CheckInit
//verif:property C27
//verif:paths
func Contract_BallCheckInit(ball *BallConfig, name string, totalWidth float64) {
	requires(ball != nil)
	modifies(ball)
	b0 := *ball
	err := ball.CheckInit(name, totalWidth)
	ensures("accepted exactly when it is valid", (err == nil) == okBall(b0, totalWidth))
	if err == nil {
		ensures("named", ball.Name == name)
		ensures("canonical axis", ball.ProjectionAxis == axisOf(b0.ProjectionAxis))
		if b0.RadiusMultiplier == 0 {
			ensures("multiplier defaults to one", ball.RadiusMultiplier == 1)
		} else {
			ensures("same multiplier", ball.RadiusMultiplier == b0.RadiusMultiplier)
		}
	}
	ensures("same region", ball.X == b0.X && ball.Y == b0.Y && ball.Z == b0.Z && ball.Radius == b0.Radius)
}

func Gen_Contract_BallCheckInit(r *vpRng) (*BallConfig, string, float64) {
	b := &BallConfig{ProjectionAxis: vpWord(r), Name: "old", Radius: vpCoord(r), RadiusMultiplier: vpCoord(r)}
	if r.Intn(2) == 0 {
		b.X, b.Y, b.Z = vpCenter(r), vpCenter(r), vpCenter(r)
	} else {
		b.X, b.Y, b.Z = vpCoord(r), vpCoord(r), vpCoord(r)
	}
	return b, "new", 10
}

//verif:contract BallConfig.Box
//verif:property C27
//verif:paths
func Contract_BallBox(ball *BallConfig, totalWidth float64) {
	requires(ball != nil)
	requires(inside(ball.X, totalWidth) && inside(ball.Y, totalWidth) && inside(ball.Z, totalWidth))
	requires(ball.Radius*ball.RadiusMultiplier > 0)
	requires(ball.Radius*ball.RadiusMultiplier <= totalWidth)
	rad := ball.Radius * ball.RadiusMultiplier
	box := ball.Box(totalWidth)
	ensures("cube around the ball", box.XWidth == 2*rad && box.YWidth == 2*rad && box.ZWidth == 2*rad)
	ensures("starts a radius below the center in x", box.X == lowEdge(ball.X, rad, totalWidth))
	ensures("starts a radius below the center in y", box.Y == lowEdge(ball.Y, rad, totalWidth))
	ensures("starts a radius below the center in z", box.Z == lowEdge(ball.Z, rad, totalWidth))
	ensures("starts inside the simulation", inside(box.X, totalWidth) && inside(box.Y, totalWidth) && inside(box.Z, totalWidth))
	ensures("same name and axis", box.Name == ball.Name && box.ProjectionAxis == ball.ProjectionAxis)
}

func Gen_Contract_BallBox(r *vpRng) (*BallConfig, float64) {
	b := &BallConfig{ProjectionAxis: "X", Name: "n"}
	b.X, b.Y, b.Z = vpCenter(r), vpCenter(r), vpCenter(r)
	b.Radius = []float64{0.25, 0.5, 3, 5, 10}[r.Intn(5)]
	b.RadiusMultiplier = []float64{1, 0.5, 2}[r.Intn(3)]
	return b, 10
}

// The box of an accepted ball is an accepted box.

//verif:client
//verif:property C27
//verif:paths
func Client_BallBoxIsValid(ball *BallConfig, name, again string, totalWidth float64) {
	requires(ball != nil)
	err := ball.CheckInit(name, totalWidth)
	if err == nil && ball.Radius*ball.RadiusMultiplier <= totalWidth {
		box := ball.Box(totalWidth)
		ax := ball.ProjectionAxis
		e2 := box.CheckInit(again, totalWidth)
		if axisOf(ax) == ax {
			ensures("accepted", e2 == nil)
			ensures("projected along the axis of the ball", box.IsProjection() == (ax != ""))
		}
	}
}

func Gen_Client_BallBoxIsValid(r *vpRng) (*BallConfig, string, string, float64) {
	b, n, tw := Gen_Contract_BallCheckInit(r)
	return b, n, "again", tw
}

// ---------------------------------------------------------------- the other values

//verif:client
//verif:property C27
func Client_SharedValid(con *SharedConfig) {
	requires(con != nil)
	ensures("input", con.ValidInput() == (con.Input != ""))
	ensures("output", con.ValidOutput() == (con.Output != ""))
	ensures("log", con.ValidLogFile() == (con.LogFile != ""))
	ensures("profile", con.ValidProfileFile() == (con.ProfileFile != ""))
}

//verif:client
//verif:property C27
func Client_ConvertSnapshotValid(con *ConvertSnapshotConfig) {
	requires(con != nil)
	ensures("cells", con.ValidCells() == (con.Cells > 0))
	ensures("id size", con.ValidGadget2IDSize() == (con.Gadget2IDSize == 32 || con.Gadget2IDSize == 64))
	ensures("format", con.ValidInputFormat() == (con.InputFormat != ""))
	ensures("iterated input", con.ValidIteratedInput() == (con.IteratedInput != ""))
	ensures("iterated output", con.ValidIteratedOutput() == (con.IteratedOutput != ""))
	ensures("start", con.ValidIterationStart() == (con.IterationStart >= 0))
	ensures("end", con.ValidIterationEnd() == (con.IterationEnd >= 0))
}

//verif:client
//verif:property C27
func Client_RenderValid(con *RenderConfig) {
	requires(con != nil)
	low := strings.ToLower(con.Quantity)
	ensures("quantity", con.ValidQuantity() == (low == strings.ToLower("Density") || low == strings.ToLower("DensityGradient") ||
		low == strings.ToLower("Velocity") || low == strings.ToLower("VelocityDivergence") || low == strings.ToLower("VelocityCurl")))
	ensures("total pixels", con.ValidTotalPixels() == (con.TotalPixels > 0))
	ensures("image pixels", con.ValidImagePixels() == (con.ImagePixels > 0))
	ensures("particles", con.ValidParticles() == (con.Particles > 0))
	ensures("depth", con.ValidProjectionDepth() == (con.ProjectionDepth > 0))
	ensures("subsampling", con.ValidSubsampleLength() == (con.SubsampleLength > 0))
}

//verif:client
//verif:property C27
//verif:paths
func Client_TetraHistValid(con *TetraHistConfig) {
	requires(con != nil)
	ensures("input", con.ValidInput() == (con.Input != ""))
	ensures("output", con.ValidOutput() == (con.Output != ""))
	ensures("grid", con.ValidGridFile() == (con.GridFile != ""))
	ensures("quantity", con.ValidQuantity() == (con.Quantity == "Density"))
	ensures("bins", con.ValidHistBins() == (con.HistBins > 0))
	ensures("scale", con.ValidHistScale() == (con.HistScale == "Log" || con.HistScale == "Linear"))
	log, linear := con.HistScale == "Log", con.HistScale == "Linear"
	ensures("lower end", con.ValidHistMin() == ((linear || log && con.HistMin > 0) && con.HistMin < con.HistMax))
	ensures("upper end", con.ValidHistMax() == ((linear || log && con.HistMax > 0) && con.HistMin < con.HistMax))
}

//verif:client
//verif:property C27
func Client_Defaults() {
	r := DefaultRenderWrapper().Render
	ensures("no subsampling", r.SubsampleLength == 1)
	ensures("nothing else set", r.TotalPixels == 0 && r.ImagePixels == 0 && r.Particles == 0 && !r.AutoParticles && r.ProjectionDepth == 0)
	h := DefaultTetraHistWrapper().TetraHist
	ensures("no subsampling of histograms", h.SubsampleLength == 1)
	c := DefaultConvertSnapshotWrapper().ConvertSnapshot
	ensures("units", c.XUnits == 1 && c.VUnits == 1 && c.MUnits == 1)
	ensures("id size", c.Gadget2IDSize == 64)
	ensures("no iteration range", c.IterationStart == 0 && c.IterationEnd == -1)
}

// pow2 says that s is a power of two.

//verif:rec
func pow2(s int) bool {
	if s <= 0 {
		return false
	}
	if s == 1 {
		return true
	}
	if s%2 == 1 {
		return false
	}
	return pow2(s / 2)
}

//verif:contract TetraHistConfig.ValidSubsampleLength
//verif:property C27
func Contract_ValidSubsampleLength(con *TetraHistConfig) {
	requires(con != nil)
	loop(0, "s >= 1", "pow2(s) == pow2(con.SubsampleLength)", "dec: s")
	ok := con.ValidSubsampleLength()
	ensures("exactly the powers of two", ok == pow2(con.SubsampleLength))
}

func Gen_Client_RenderValid(r *vpRng) *RenderConfig {
	c := &RenderConfig{Quantity: []string{"", "density", "Density", "DensityGradient", "VELOCITY", "VelocityDivergence", "VelocityCurl", "Curl", "Velocity "}[r.Intn(9)]}
	c.TotalPixels, c.ImagePixels, c.Particles = r.Range(-1, 2), r.Range(-1, 2), r.Range(-1, 2)
	c.ProjectionDepth, c.SubsampleLength = r.Range(-1, 2), r.Range(-1, 4)
	return c
}

func Gen_Client_TetraHistValid(r *vpRng) *TetraHistConfig {
	c := &TetraHistConfig{GridFile: []string{"", "x"}[r.Intn(2)], HistScale: []string{"", "Log", "Linear", "log", "Log10"}[r.Intn(5)]}
	c.Quantity = []string{"", "Density", "density", "Velocity"}[r.Intn(4)]
	c.Input, c.Output = []string{"", "x"}[r.Intn(2)], []string{"", "x"}[r.Intn(2)]
	c.HistBins, c.HistMin, c.HistMax = r.Range(-1, 2), float64(r.Range(-2, 3)), float64(r.Range(-2, 3))
	return c
}
