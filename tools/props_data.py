prop("C01", "Sorting returns the sorted permutation of its input",
  "Sorting a slice in place with either sorting routine leaves it in ascending order and containing exactly the same multiset of values, whatever its length, order or repetitions, and returns the same slice. Reversing a slice returns the same elements in the opposite order.",
  ["inputs"], "every slice of ordered float64 values of every length, including all repeated-value patterns and both sides of the small-slice cut-off",
  "The tests sort a few random slices; nothing covers every length, duplicate pattern and pivot choice.",
  ["math/sort/quick.go", "math/sort/shell.go", "math/sort/sort.go"],
  [("partition", "math/sort/quick.go"), ("gap sequence and insertion", "math/sort/shell.go"), ("Reverse", "math/sort/sort.go")],
  observe=["Quick", "Shell", "Reverse"])

prop("C02", "Order statistics are the true order statistics",
  "The n-th largest element, the median and the p-th percentile of a slice are the values that sorting the slice would put at that rank (the median of an even-length slice is the upper one of the two middle values; percentile p is the element at ascending index floor(p n), the last one for p = 1), and the input slice is left unchanged whether or not a scratch buffer is supplied. An empty slice, a percentile outside [0, 1] and a buffer of another length are rejected.",
  ["inputs"], "every slice, every rank or percentile, with and without a caller-supplied buffer",
  "The tests check the median of a few slices; rank and percentile code is not tested at all.",
  ["math/sort/median.go", "math/sort/quick.go"],
  [("quick-select", "math/sort/median.go"), ("partition", "math/sort/quick.go")],
  observe=["NthLargest", "Median", "Percentile"])

prop("C05", "Linear interpolators in 1, 2 and 3 dimensions evaluate the multilinear function",
  "For any strictly monotonic or uniform grid lines (ascending or descending) and table of values the linear, bilinear and trilinear interpolators return, for every point within the table's range, the linear, bilinear or trilinear function of the grid cell around the point, equal to the table value at the grid points; the value of grid point (ix, iy, iz) is entry ix + iy nx + iz nx ny. A point outside the range and, in two and three dimensions, a table whose length is not the product of the numbers of grid lines are rejected. Evaluating a batch, into a new or a given slice, equals evaluating each of its points.",
  ["inputs", "configurations"], "every table (uniform or not, increasing or decreasing along each axis, any numbers of at least two grid lines) and every point in its range, grid points and edges included",
  "No test evaluates any of these interpolators; samples cannot cover cell boundaries and descending tables of every shape.",
  ["math/interpolate/linear_interpolators.go", "math/interpolate/search.go", "math/interpolate/interpolator.go"],
  [("cell search", "math/interpolate/search.go"), ("Linear / BiLinear / TriLinear Eval", "math/interpolate/linear_interpolators.go")],
  state=[("grid lines", "the ordered x values of the table or their uniform origin and spacing")],
  observe=["NewLinear", "NewUniformLinear", "Linear.Eval", "Linear.EvalAll", "NewBiLinear", "NewUniformBiLinear", "BiLinear.Eval", "BiLinear.EvalAll", "NewTriLinear", "NewUniformTriLinear", "TriLinear.Eval", "TriLinear.EvalAll"])

prop("C13", "Grid indices and grid coordinates are inverse to each other",
  "For every grid, whatever its origin and width, the index of a cell inside the grid is its row-major position (x fastest, z slowest, counted from the origin), lies between 0 and the grid's volume, and differs between different cells; Coords gives back the cell whose index it is given; cells outside the grid are reported as outside by the bounds check and the checked index lookup.",
  ["configurations", "inputs"], "every origin and width (including negative origins and width one) and every cell inside or outside",
  "No test covers grids with an origin away from zero or with three different widths.",
  ["render/geom/grid.go"],
  [("Idx / Coords / IdxCheck", "render/geom/grid.go")],
  state=[("Grid", "Length, Area, Volume and upper bounds derived from origin and width")],
  observe=["NewGrid", "NewGridLocation", "Grid.Idx", "Grid.Coords", "Grid.IdxCheck", "Grid.BoundsCheck"])

prop("C14", "Boxes of cells intersect exactly when they share a cell",
  "Two boxes of cells in a periodic box intersect exactly when there is a cell that belongs to both, counting cells that a box reaches by wrapping around the edge; the answer does not depend on the order of the two boxes and neither is modified. The unbounded version answers the same question without periodicity.",
  ["inputs", "configurations"], "every pair of boxes (origins inside the periodic box, any widths up to the whole box) and every number of cells per side",
  "The tests cover a few boxes; wrap-around, equal-size and touching cases are not covered.",
  ["render/geom/grid.go"],
  [("Intersect / IntersectUnbounded", "render/geom/grid.go")],
  observe=["CellBounds.Intersect", "CellBounds.IntersectUnbounded"])

prop("C15", "Vector operations compute the algebra they are named for",
  "Scaling, addition, dot product, norm and cross product of three-vectors equal their textbook definitions; Mod returns the image of a vector inside [0, w) and Sub returns the shortest periodic displacement (every component between -w/2 and w/2). The forms that return a new vector, write to a target (which may be the second operand) and work in place agree with each other, and operands that are not the target are unchanged.",
  ["inputs"], "every pair of vectors and every box width; vectors within one box width of the box for the periodic operations",
  "The few existing vector tests do not compile; no test compares the three forms of each operation.",
  ["render/geom/vec.go"],
  [("Add/Sub/Scale/Mod/Cross and their At and Self forms", "render/geom/vec.go")],
  observe=["Vec.Scale", "Vec.Add", "Vec.Sub", "Vec.Mod", "Vec.Dot", "Vec.Norm", "Vec.Cross"])

prop("C16", "The six tetrahedra of a cube fill it without overlap",
  "For each of the six directions the tetrahedron indices name four corners of the cube of the given side anchored at the given particle, and the six tetrahedra together cover every point of the cube while no point is interior to two of them; building from an index and building from coordinates agree. The centred form names the particle and its neighbours in one octant per direction, and is refused exactly when a neighbour would fall outside the particle grid.",
  ["inputs", "configurations"], "every particle index, grid size, subsampling step and direction, and every point of the cube",
  "Nothing tests the tiling: a wrong corner would lose or double mass in the rendered field for one direction only.",
  ["render/geom/tetra.go"],
  [("direction tables", "render/geom/tetra.go"), ("InitCartesian / Init / InitCentered", "render/geom/tetra.go")],
  observe=["NewTetraIdxs", "TetraIdxs.InitCartesian", "TetraIdxs.InitCentered"])

prop("C17", "Tetrahedra: volume, containment, bounds and sample points are geometric",
  "A tetrahedron's volume is a sixth of the absolute determinant of its edges, its barycenter is the mean of its corners, it contains the points whose barycentric coordinates are all positive and none with a negative one, and its cell bounds are the smallest box of cells that encloses its corners, also when it was reinitialised after earlier queries. Points spread over it from the unit cube are the barycentric images of the volume-preserving fold of the cube onto the tetrahedron, so all of them lie inside; a random batch takes three unit random numbers of its own for every point.",
  ["inputs", "histories"], "every four corners, every point, every sequence of queries and reinitialisations, and every batch of sample coordinates",
  "The tests of this package do not compile; caching makes the answer depend on the order of queries.",
  ["render/geom/tetra.go"],
  [("signedVolume and caching", "render/geom/tetra.go"), ("DistributeUnit / DistributeTetra / Distribute", "render/geom/tetra.go")],
  state=[("volumeValid / baryValid", "what is cached is that of the current corners")],
  observe=["Tetra.Volume", "Tetra.Barycenter", "Tetra.Contains", "Tetra.CellBounds", "DistributeUnit", "Tetra.DistributeTetra", "Tetra.DistributeTetra64", "Tetra.Distribute"])

prop("C21", "Positions are converted to cells of the segment or the domain",
  "Converting particle positions of a segment to code units expresses each coordinate in cells counted from the origin of the segment, wrapped around the periodic box so that it is not negative, and for a domain the same point counted from the origin of the domain, taking the short way around the box between the two origins. The segment and the domain are not modified.",
  ["inputs", "configurations"], "every set of positions in the box, every segment and domain, every number of cells and box width",
  "Nothing tests these conversions; errors only show when a segment wraps around the edge of the box.",
  ["render/geom/grid.go", "render/box.go"],
  [("ScaleVecsSegment / ScaleVecsDomain", "render/geom/grid.go"), ("ScaleVecs of the four overlaps", "render/box.go")],
  observe=["CellBounds.ScaleVecsSegment", "CellBounds.ScaleVecsDomain", "Overlap.ScaleVecs"])

prop("C18", "Grid derivatives are the stated finite differences in every cell",
  "The derivative of a field along an axis is, in every cell of the grid, the second or fourth order finite difference along that axis: central inside, one-sided at the edges, and central with wrap-around when periodic and the grid spans the whole box; one-sided and central forms are exact for polynomials of that order. Op None replaces the output, Add and Subtract accumulate into it. Gradient, curl and divergence are the textbook combinations of these derivatives (added to the output for Op Add), without options they use the fourth-order one-sided default, and the input field and the options are not modified.",
  ["inputs", "configurations"], "every field, grid shape at least one cell wider than the order along the axis, axis, order, operation, periodicity, and every cell",
  "No working test covers any of this; edge cells, three different widths, and the eighteen combinations of axis, order and operation are separate code paths.",
  ["render/geom/deriv.go"],
  [("Deriv", "render/geom/deriv.go"), ("edgesDeriv / wrapDeriv", "render/geom/deriv.go"), ("Curl / Divergence / Gradient", "render/geom/deriv.go")],
  observe=["GridLocation.Deriv", "GridLocation.Curl", "GridLocation.Divergence", "GridLocation.Gradient"])

prop("C11", "Numerical derivatives of a table are finite differences of the stated order",
  "The derivative of order 2 or 4 of a table of points is, at every point, the finite difference with a stencil of three or five neighbouring points: central inside the table and one-sided at its first and last one (order 2) or two (order 4) points, for any distinct, increasing or decreasing x values; for uniformly spaced points it is exact for polynomials of degree up to the order. Order 0 returns the table of values. The result goes to the given output slice when there is one, the inputs are unchanged, and any other order and slices of different lengths are rejected.",
  ["inputs"], "every table of at least order + 1 points with distinct x values, every order, with and without an output slice",
  "No test covers this package; each end point has its own formula and a wrong weight shows only for curved tables.",
  ["math/calc/deriv.go"],
  [("Deriv", "math/calc/deriv.go")],
  observe=["Deriv", "Out"])

prop("C12", "Cosmological densities and the Hubble rate follow the Friedmann equation",
  "HubbleFrac is the non-negative root of omegaM (1+z)^3 + omegaL, and one today in a flat universe. The critical density is 3 H(z)^2 / (8 pi G) in units in which the Hubble constant does not appear (2.7753e11 solar masses per cubic megaparsec, times h squared, today for omegaM + omegaL = 1), so it does not depend on the Hubble constant; the average matter density is omegaM times today's critical density times (1+z)^3.",
  ["inputs"], "every Hubble constant, matter and vacuum density and redshift of an expanding universe",
  "No test covers this package; an error in a unit or exponent changes every density in the output.",
  ["cosmo/param.go", "cosmo/const.go"],
  [("HubbleFrac / RhoCritical / RhoAverage", "cosmo/param.go"), ("physical constants", "cosmo/const.go")],
  observe=["HubbleFrac", "RhoCritical", "RhoAverage"])

prop("C19", "Density buffers hold the finished quantity of the accumulated sums",
  "Each quantity has one name that parses back to it, unrecognised names and invalid quantities are rejected, exactly the velocity quantities require velocities and exactly density and mean velocity can be projected. A new buffer has one value (a scalar, or a vector and a count for the velocity quantities) per cell, all zero; Clear zeroes a buffer without changing its shape and Slice keeps the values of the given range of cells. What a buffer is finalized to is, for every cell, the sum itself for density; the sum over the count for velocity (zero in empty cells); and, for the derived quantities, the fourth order gradient of the density, or the divergence or curl of the mean velocity, over the grid of the buffer. Finalizing does not change the sums, the counts or the shape.",
  ["inputs", "configurations"], "every quantity, every number of cells, grid shape wide enough for fourth order derivatives, and every contents of the arrays",
  "The tests of this package do not compile; each quantity has its own code path and errors only show as wrong values in the output.",
  ["render/density/buffer.go", "render/density/quantity.go"],
  [("NewBuffer and the buffer types", "render/density/buffer.go")],
  state=[("vecs / nums / scalars", "one entry per cell for the arrays the quantity needs")],
  observe=["NewBuffer", "Buffer.Clear", "Buffer.Slice", "Buffer.FinalizedScalarBuffer", "Buffer.FinalizedVectorBuffer", "QuantityFromString"])

prop("C20", "Deposition and buffer addition account for every particle once",
  "Interpolating a batch of particles onto a buffer adds, for each particle of the requested range and stride that falls into the buffer, its value (times its scalar or vector weight when there are weights) to the cell it lies in and nothing elsewhere; in projections the value is divided by the depth of the box and only particles within that depth count. Velocity quantities also count one particle in that cell. Adding a buffer to the grid of a box adds every value and count of a cell that both have, found across the periodic boundary, exactly once to that cell, and leaves all other cells and the buffer as they were.",
  ["inputs", "configurations"], "every set of particles in the segment or within a box width of the domain, every pair of cell bounds of at most the periodic box, every projection axis, quantity, weights and previous contents",
  "There are no tests; mass that is lost or doubled at the periodic boundary or at the edge of a box does not stop the program.",
  ["render/box.go"],
  [("Interpolate of the four overlaps", "render/box.go"), ("Add of the four overlaps", "render/box.go")],
  observe=["Overlap.Interpolate", "Overlap.Add", "segmentOverlap2D", "segmentOverlap3D", "domainOverlap2D", "domainOverlap3D"])

prop("C22", "Boxes and segments occupy exactly the cells they touch",
  "A new box has the cells that its configured region touches along each axis, or all cells once when the region is as wide as the simulation; it is a projection along the configured axis exactly when one is configured and the quantity can be projected (any other axis name is rejected), its buffer has one zero value per pixel or per cell, and derived quantities are located at those cells. A segment occupies the cells it touches. The overlap of a box and a segment has the cells of the box as its domain and the cells of either the segment or the box as its buffer, and its buffer size is the number of pixels or cells of that buffer.",
  ["inputs", "configurations"], "every box width, number of cells, region with a non-negative origin and positive widths, quantity and projection axis, and every segment header",
  "There are no tests; a missing last row of cells or a swapped axis only shows in the output image.",
  ["render/box.go", "render/io/io.go"],
  [("newBox2D / newBox3D", "render/box.go"), ("Overlap", "render/box.go"), ("SheetHeader.CellBounds", "render/io/io.go")],
  observe=["NewBox", "Box.Overlap", "Overlap.BufferSize", "SheetHeader.CellBounds"])

prop("C27", "Box and ball configurations are accepted exactly when they are valid",
  "Checking a box accepts it exactly when its three widths are positive, its origin lies in [0, width of the simulation) along each axis and its projection axis, ignoring case and surrounding blanks, is empty, X, Y or Z; an accepted box has the given name and a canonical projection axis, and is a projection exactly when that axis is not empty. Checking a ball does the same for a positive radius, a center inside the simulation, a radius multiplier that is not negative (zero counts as one) and the projection axis. The box of a ball with a radius of at most the width of the simulation is the cube around it, which starts one (multiplied) radius below the center, wrapped into the simulation, with the name and projection axis of the ball. No check changes the region. The Valid methods and the default values of the three run configurations accept exactly the documented values.",
  ["inputs", "configurations"], "every box, ball and run configuration, name and width of the simulation",
  "There are no tests; a bad configuration that is accepted renders the wrong region.",
  ["render/io/config.go"],
  [("BoxConfig.CheckInit / BallConfig.CheckInit / BallConfig.Box", "render/io/config.go")],
  observe=["BoxConfig.CheckInit", "BallConfig.CheckInit", "BallConfig.Box", "BoxConfig.IsProjection", "DefaultRenderWrapper", "DefaultTetraHistWrapper", "DefaultConvertSnapshotWrapper"])

prop("C03", "Uniform random numbers lie in [low, high) and depend only on the state",
  "For every backend and seed, a uniform number, integer or each number of a sequence lies in [low, high), for low < high. A Xorshift or Tausworthe generator gives the same numbers and ends in the same state whether they are drawn one at a time or as a sequence. The next Xorshift number is the one of Marsaglia's recurrence (a word that would give one is thrown away), which starts from the seed and three constants; the next Tausworthe number is the difference, modulo one, of two earlier entries of its ring of 9689, 2444 and 4187 places from the oldest one, which it replaces.",
  ["inputs", "histories"], "every backend, seed, state, range and sequence length",
  "The tests only benchmark; a one in a few billion value of exactly high, or a sequence that differs from single draws, is not seen by sampling.",
  ["math/rand/rand.go", "math/rand/xorshift.go", "math/rand/tausworthe.go", "math/rand/golang.go"],
  [("Uniform / UniformInt / UniformAt", "math/rand/rand.go"), ("Next / NextSequence of the backends", "math/rand/tausworthe.go")],
  state=[("seq / leader / firstFollower / secondFollower", "ring of numbers in [0, 1) and three positions in it")],
  observe=["Generator.Uniform", "Generator.UniformInt", "Generator.UniformAt", "New"])

prop("C04", "Sobol points follow the direction numbers of their polynomials",
  "In each of the six dimensions, the direction numbers are the tabulated initial ones followed by the recurrence of that dimension's primitive polynomial, and number j is an odd multiple of 2^-(j+1). Each point of the sequence, from the first to number 2^30 - 2, differs from the one before (the first: from zero) in each requested dimension by exactly the direction number of the lowest zero bit of its number, counted from one; every coordinate is in [0, 1), the other dimensions do not move, and initialising a used sequence again restarts it.",
  ["inputs", "histories"], "every dimension up to six, every number of points already drawn and every state",
  "The tests only benchmark; a wrong direction number only shows as uneven coverage of higher dimensional space.",
  ["math/rand/sobol.go"],
  [("SobolSequence.Init / NextAt", "math/rand/sobol.go")],
  state=[("ix / seqNum", "current point in units of 2^-30, and its number")],
  observe=["NewSobolSequence", "SobolSequence.Init", "SobolSequence.Next", "SobolSequence.NextAt"])

prop("C23", "The workers deposit the mass of every tetrahedron exactly once",
  "With subsampling length s (a power of two that divides the segment width; Subsample rejects others), the workers together visit each of the (segment width / s)^3 cubes of a sheet segment exactly once. For each of the six tetrahedra of a cube whose cells overlap the domain, the cells are sampled at exactly `points` points of that tetrahedron (moved by at most one box width per axis), at which velocities are interpolated as well when needed, and each point carries 1/(6 points) of the mass of s^3 particles, in units of the mean mass of a cell for densities, or of one for velocities; other tetrahedra are skipped. Workspaces are cleared, have the size of the overlap, and get the worker's number, the number of cubes and the number of workers as their range.",
  ["inputs", "configurations"], "every number of workers, segment width, subsampling length, sheet, random buffer, domain and number of points",
  "The tests of this package do not compile; a cube that is visited twice or never, or a wrong normalisation, does not stop the program.",
  ["render/density/interpolator.go", "render/render.go", "render/geom/tetra.go"],
  [("mcarlo.Interpolate", "render/density/interpolator.go"), ("Manager.Subsample / initWorkspaces / chanInterpolate", "render/render.go"), ("TetraIdxs.Init", "render/geom/tetra.go")],
  observe=["MonteCarlo", "mcarlo.Interpolate", "Manager.Subsample", "Manager.initWorkspaces", "Manager.chanInterpolate"])

prop("C06", "Splines are the natural cubic spline through their points",
  "For every strictly monotonic table (ascending or descending, two points or more) a spline is the natural cubic spline of the table: on every cell a cubic that runs through both points, with first and second derivatives that are continuous across cells and second derivatives that vanish at both ends. Evaluation returns its value at every point of the range, ends included, one at a time or in a batch; derivatives of order 0 to 3 are those of the cubic around the point, higher ones zero; the integral between two points of the range, in either order, is that of the pieces between them. Points outside the range are rejected. The tridiagonal solver returns the solution of every diagonally dominant system. Re-initialising a spline with another table of the same size gives the spline of that table.",
  ["inputs", "histories"], "every strictly monotonic table of at least two points, every point of its range (knots and ends included), every pair of integration limits, every derivative order",
  "The one spline test compares a few values of one ascending table; derivatives, integrals, descending tables and re-initialisation are not exercised.",
  ["math/interpolate/spline.go"],
  [("second derivatives and coefficients", "math/interpolate/spline.go"), ("Eval / Deriv / Integrate", "math/interpolate/spline.go"), ("TriDiagAt", "math/interpolate/spline.go")],
  state=[("spline", "the table, the second derivatives at its points and the coefficients of its pieces")],
  observe=["NewSpline", "Spline.Init", "Spline.Eval", "Spline.EvalAll", "Spline.Deriv", "Spline.Integrate", "TriDiagAt"])

prop("C07", "Filters convolve with the chosen continuation of the table",
  "Convolving a table with a kernel no wider than the table gives at every position the sum of the kernel weights times the table values around it, aligned with the kernel's center, where values beyond either end are those of the chosen boundary condition: repeated periodically, mirrored at the end, equal to the end value, or zero. Looking up a single index through a boundary condition uses the same continuation.",
  ["inputs", "configurations"], "every table, kernel no wider than the table, kernel center, boundary condition and position",
  "The filter tests only compare kernel weights; no test convolves near the edges of a table with each boundary condition.",
  ["math/interpolate/filter.go"],
  [("BoundaryCondition.Get", "math/interpolate/filter.go"), ("ConvolveAt / Convolve", "math/interpolate/filter.go")],
  observe=["BoundaryCondition.Get", "Kernel.Convolve", "Kernel.ConvolveAt"])

prop("C08", "Smoothing kernels are centered, normalised and of the stated shape",
  "Every tophat or Gaussian kernel of an odd width has as many weights as its width, its center in the middle and weights that add up to one; the weights of the tophat are all equal, those of the Gaussian are symmetric and proportional to the Gaussian of the stated width sampled at the stated spacing. Even widths are rejected. Normalising any weights whose sum is not zero keeps their proportions and makes their sum one.",
  ["inputs", "configurations"], "every odd width, smoothing scale and spacing",
  "The tests compare one Savitzky-Golay kernel with stored values; tophat and Gaussian kernels of arbitrary width are not tested.",
  ["math/interpolate/filter.go"],
  [("normalize", "math/interpolate/filter.go"), ("NewTophatKernel / NewGaussianKernel", "math/interpolate/filter.go")],
  observe=["NewTophatKernel", "NewGaussianKernel"])

prop("C09", "Matrix products and transposes are those of linear algebra",
  "For matrices of every compatible shape, square or not, in both precisions, entry (i, j) of the product is the sum over k of m1(i, k) m2(k, j), whether it is written into a new or a given matrix, and products of a (double precision) matrix with a vector from either side likewise; incompatible shapes are rejected. The transpose of a matrix is the matrix with rows and columns exchanged, for every shape, and a new matrix has the given entries and a shape that fits them, or is rejected.",
  ["inputs"], "every shape of at least one row and column and every entry",
  "The package has benchmarks only, all of square matrices; rectangular shapes are not exercised.",
  ["math/mat/mat.go", "math/mat/mat32.go"],
  [("MultAt / Mult", "math/mat/mat.go"), ("float32 variants", "math/mat/mat32.go")],
  observe=["Matrix.Mult", "Matrix.MultAt", "VecMult", "Transpose", "NewMatrix"])

prop("C10", "Linear systems are solved and inverted through an LU decomposition",
  "For every invertible matrix, the LU decomposition with row exchanges gives solutions x of A x = b for vectors and matrices b, an inverse with A A^-1 = 1, and the determinant.",
  ["inputs"], "every invertible matrix of every size and every right hand side",
  "The package has benchmarks only.",
  ["math/mat/mat.go", "math/mat/mat32.go"],
  [("factorizeInPlace", "math/mat/mat.go"), ("forwardSubst / backSubst", "math/mat/mat.go")],
  observe=["LUFactors.SolveVector", "LUFactors.SolveMatrix", "LUFactors.InvertAt", "LUFactors.Determinant"],
  claimed=False, na="The invariant of the in-place pivoted decomposition (sums of products over rows that are exchanged while they are summed) is beyond what the solvers discharge here; a version for matrices of two and three rows was tried and only the determinant of two rows was decided. The defects found on the way were repaired.")

prop("C28", "Tetrahedron histograms count the samples inside the histogram box",
  "A point of a periodic box is inside a histogram box exactly when it lies in the half-open segment of the box along every axis, across the edge of the simulation too. A sheet with a point in the histogram box, and a cube with a corner in the sheet, are never skipped; the bounding box of a cube contains its eight corners on the short way around the simulation. The samples of a tetrahedron are points of the tetrahedron whose corners are brought to the side of the first; each is accepted exactly when it lies in the histogram box and in the density grid, and gets the value of the pixel of the grid that contains it. Every accepted value inside the range of the histogram is counted once, in the bin that contains it, on the linear or the logarithmic scale, and the reported centers are the middles of those bins.",
  ["inputs", "configurations"], "every histogram box, sheet, tetrahedron, density grid, list of values and histogram",
  "There are no tests; samples near the edges of the periodic box, of a histogram box or of a bin are the ones that are lost or counted wrongly.",
  ["render/hist.go"],
  [("contains1D / intersect1D / HistBox.Contains", "render/hist.go"), ("getDensities / gridIndex / histogram", "render/hist.go"), ("cubeBoundingBox / cubeIntersects", "render/hist.go")],
  observe=["HistManager.Hist", "HistBox.Contains", "NewHistBox"])
