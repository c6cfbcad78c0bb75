"""Per property: the oracle, why exhaustive enumeration reaches what tests cannot, and notes for DESIGN.md."""
D = {
"C01": ("index arithmetic written independently (mixed radix), cell boxes recomputed from the bounds",
 "an index map wrong for one axis order or for indices beyond 16 bits survives tests on a handful of grids"),
"C02": ("a walk recomputed from matrix indices: next cell, line end and block bounds for all six directions",
 "each walk is a transition system; every (cell, direction, block) transition of every small grid is taken"),
"C03": ("a std::map model of the store, compared by every query after every insertion history, after locking and after moving; "
 "run under AddressSanitizer", "lookup bugs need particular insertion orders, rejected elements or ids spread over families"),
"C04": ("every cell classified by exact integer/rational geometry of the generating solid (voxel sets, convex pieces, prisms); cells touched "
 "only in a face may be reported either way", "flood-fill and voting bugs need a topology (cavities, isolated groups, slabs) tests do not contain"),
"C05": ("the single-thread classification, plus a happens-before race detector fed by compiler-inserted access callbacks",
 "a schedule-dependent merge fails in a few of thousands of interleavings; the sandbox's own scheduler never shows them"),
"C06": ("the single-thread model (elements, points, segments, totals) and the same race detector",
 "as C05, for the element loop, the condition loop, the reductions and the critical sections of model creation"),
"C07": ("moments of the material in the cell from exact clipping of convex pieces; positivity and location of points", 
 "wrong moments appear for particular cuts only (thin slivers, faces on the cell boundary, high anisotropy)"),
"C08": ("exact volumes per cell; every entry of the model information recomputed from the elements",
 "totals are wrong only if full, cut and neglected cells are mixed in particular ways"),
"C09": ("exact monomial integrals in rational arithmetic", "one wrong digit of one table entry breaks one order and method"),
"C10": ("exact integrals of every B-spline of the target space (order, continuity, number of elements)", "as C09: more than a thousand tabulated rules"),
"C11": ("exact spline integrals over the set of full cells, each direction", "every subset of cells of the small grids: grouping bugs need gaps in particular places"),
"C12": ("exact polygon clipping of every surface triangle with every cell, lower planes of the first cells included",
 "parts on cell faces are lost or doubled only for surfaces exactly on or within rounding of a face"),
"C13": ("exact clipping in extended precision, area, normal and vertex positions", "triangle/box configurations on a 5^3 lattice hit all degenerate cases"),
"C14": ("closedness by edge pairing, enclosed volume and first moments by exact clipping", "every answer of the random perturbation is tried wherever it is drawn"),
"C15": ("exact winding of the generating solid", "the code draws rays at random: every direction it may draw from an adversarial set is forced, in every sequence of draws up to a depth, so that a wrong answer of one in 10^9 draws is found"),
"C16": ("an independent reader of STL written from the format", "every truncation point, field and read fault, not a few broken files"),
"C17": ("independent decoders of STL and VTK", "buffer boundary and index width bugs need sizes tests do not use"),
"C18": ("byte comparison with the file written without faults", "a fault at one write of one function is a schedule of the environment no unit test drives"),
"C19": ("a map from (dictionary, key) to value", "all histories of operations over all registered keys"),
"C20": ("value by value comparison in Python of what was set and what was read back; rejection lists for damaged files", "boundary values of every key and every subset of sections"),
"C21": ("the documented rules written as a predicate", "the whole (finite) settings space, not the two combinations tests try"),
"C22": ("optimality (KKT) conditions evaluated in extended precision", "degenerate and rank-deficient matrices need exact coincidences"),
"C23": ("affine maps in extended precision", "anisotropic boxes in every axis order"),
"C24": ("exact rational knots and control points, evaluation by de Boor in fractions", "every order and count in every direction"),
"C25": ("surface measures (area per plane, moments, orientation) before and after each operation", "histories such as append-itself or refine-after-remove, under AddressSanitizer"),
"C26": ("an exact reference octree compared node by node", "histories of refinement calls"),
"C27": ("exact predicates over integers; brute force over all objects", "all insertion, removal and move histories of small trees"),
"C28": ("exact values and object contents kept from the first access", "the order in which Python drops objects is a history no test drives"),
"C29": ("the model's own consistency; for histories, models made by the effective operations alone", "crashes and reads of invalid memory are found by checked containers and sanitizers while the enumeration drives the code through states tests never reach"),
"C30": ("the tree of files before the run, with the output directory replaced by the files that belong to the model", "what a run deletes depends on the name and on what earlier runs left; a test that deletes the wrong directory is not written"),
"C31": ("points, triangles and integrals computed from the model of QuESo; strict containment of nodes in boxes; ids and values recorded by the stand-in", "the tests of the interface need Kratos, are not run without it, and compare a few sums"),
}
