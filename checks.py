"""Registry of the checks: which harness decides which property, and how it is reported."""
CHECKS = {
 "C01": {"level": "exploration", "parts": [{"name": "grid", "harness": "grid"}],
  "title": "bounded-exhaustive enumeration of grid configurations against an arithmetic reference",
  "rule": "one case per grid size up to 6x6x6 (9x9x9 thorough) x 5 global boxes x 5 parametric boxes x 2 grid types; every triple of 5 (9) numbers of cells up to 2^20 per direction, there the first, second, middle and last two cells per direction; non-trivial: more than one cell and not a cube"},
 "C02": {"level": "model_checking", "parts": [{"name": "walk", "harness": "grid"}],
  "title": "explicit-state exploration of every walk step on every block of every small grid",
  "rule": "one case per (grid size, block); every cell x 6 directions is a transition; grids of up to 2^20 cells per direction at boundary and middle positions; non-trivial: proper block with more than one cell"},
 "C03": {"level": "model_checking", "parts": [{"name": "store", "harness": "store", "profile": "asan"}],
  "title": "explicit-state exploration of all insertion histories of the real container against a map model",
  "rule": "all histories of length <= 3 (4 on the 3-cell grid; thorough: 4 everywhere) over cell x {full, trimmed, rejected full, rejected trimmed} on three grids, then lock, move, every query; 40 grids of 70000 (140000) elements in 4 orders and 5 family patterns, ids beyond 32 bits; non-trivial: full and cut elements both present"},
 "C04": {"level": "exploration", "parts": [{"name": "classify", "harness": "classify"}],
  "title": "bounded-exhaustive enumeration of solids and grids, every cell compared with an exact reference",
  "rule": "one case per (solid, grid): all 255 voxel solids in 2x2x2 x 10 grids x 2 spacings x 5 scales/offsets, manifold voxel solids in 3x2x2 (3x3x2), cavities in 3x3x3, all lattice tetrahedra on {0,1,2}^3, prisms over all simple lattice polygons; every cell is a state; non-trivial: inside, outside and cut (or face-touching) cells in one grid"},
 "C05": {"level": "model_checking", "parts": [{"name": "sched", "harness": "schedules", "profile": "sched"}],
  "title": "stateless exploration of every thread schedule of the real flood fill under a controlled OpenMP runtime with race detection",
  "rule": "one case per (solid, grid, team sizes); every order of critical sections, loop chunks and atomics; the result must equal the single-thread result and no two accesses may race; non-trivial: more than one schedule"},
 "C06": {"level": "model_checking", "parts": [{"name": "sched", "harness": "schedules", "profile": "sched"}],
  "title": "stateless exploration of the thread schedules of the real model creation up to a preemption bound, with race detection",
  "rule": "one case per (solid, condition mesh, grid, team sizes, preemption bound); element set, points, segments and totals must equal the single-thread model and no two accesses may race; non-trivial: more than one schedule"},
 "C07": {"level": "exploration", "parts": [{"name": "cut", "harness": "cut"}],
  "assumptions": ["cell edges of at least 1e-2: the code drops weights and facet areas below an absolute tolerance of 1e-14"],
  "title": "bounded-exhaustive enumeration of cut cells, quadrature compared with exact moments",
  "rule": "one case per (solid, cell): all manifold voxel solids in 2x2x2, lattice tetrahedra, prisms over lattice polygons x 14 cells (aligned with faces, halving, skew, thin, containing) x 3 scales, stride given by the tier; orders 1,1,1 to 3,1,1 (3,3,3 thorough), and for voxel solids every order up to 8 in one direction; non-trivial: the surface passes through the cell"},
 "C14": {"level": "exploration", "parts": [{"name": "cut", "harness": "cut"}],
  "title": "bounded-exhaustive enumeration of cut cells and perturbation answers, boundary mesh compared with exact clipping",
  "rule": "one case per (solid, cell) as in C07, for every answer in {0, 0.3, 1} of the random perturbation wherever it is drawn; non-trivial: the surface passes through the cell"},
 "C15": {"level": "exploration", "parts": [{"name": "global", "harness": "member"}, {"name": "cut", "harness": "cut"}, {"name": "kept", "harness": "model", "profile": "asan"}],
  "title": "exhaustive exploration of the answers of the random source over an adversarial set of ray directions",
  "rule": "one case per solid (all 255 voxel solids in 2x2x2, lattice tetrahedra, prisms, cavities, 3e-6 to 250 scale); for every lattice point and every direction in a 5^3 grid or aimed at a vertex, edge or facet point, the direction is answered for up to 50 rays; all sequences of 4 (5) answers over degenerate and generic directions; cut part: points of every cut cell; non-trivial: inside and outside points and aimed directions"},
 "C09": {"level": "exploration", "parts": [{"name": "gauss", "harness": "gauss"}],
  "title": "bounded-exhaustive enumeration of orders, methods and cells, Gauss rules compared with exact moments",
  "rule": "one case per (order triple, method, cell box, parametric box); every monomial up to the promised degree; non-trivial: orders differ between the directions"},
 "C10": {"level": "exploration", "parts": [{"name": "gauss", "harness": "gauss"}],
  "title": "exhaustive enumeration of the generalized Gauss rules against exact spline integrals",
  "rule": "one case per (order, method, number of elements, interval); every B-spline of the target space; non-trivial: more than one element"},
 "C11": {"level": "exploration", "parts": [{"name": "gauss", "harness": "gauss"}],
  "title": "exhaustive enumeration of sets of full cells, assembled rules compared with exact spline integrals",
  "rule": "one case per (grid, set of full cells, orders, method): every subset of cells on the small grids; every spline of the target space; non-trivial: neither no cell nor every cell full"},
 "C08": {"level": "exploration", "parts": [{"name": "model", "harness": "model"}],
  "title": "bounded-exhaustive enumeration of models, totals compared with exact volumes and the model info with the model",
  "rule": "one case per (solid, grid, grid type, method, order, condition); element set, number, volume of points, heaviest cells and every entry of the model info; non-trivial: full and cut elements both present"},
 "C12": {"level": "exploration", "parts": [{"name": "model", "harness": "model"}],
  "assumptions": ["the volume is created before the conditions"],
  "title": "bounded-exhaustive enumeration of condition surfaces and grids, every cell's segment compared with exact polygon clipping",
  "rule": "one case per (solid, condition surface, grid, scale): surfaces on cell faces, edges, grid bounds and skew; non-trivial: surface parts in more than one cell"},
 "C13": {"level": "exploration", "parts": [{"name": "clip", "harness": "geom"}],
  "title": "bounded-exhaustive enumeration of triangle and box configurations, clipped polygon compared with exact clipping",
  "rule": "one case per (box, map, first vertex): all triangles with vertices on a 5^3 lattice against 7 boxes (aligned, half, skew, slab, containing) under 6 maps (scales, offsets, shear), stride 5 except for the aligned box, all cyclic orders; non-trivial: polygons with an area"},
 "C26": {"level": "exploration", "parts": [{"name": "octree", "harness": "cut"}],
  "title": "bounded-exhaustive enumeration of cut cells and refinement histories, octree compared node by node and point by point with an exact reference tree",
  "rule": "one case per (solid, cell) as in C07; 11 to 15 histories of refinement calls up to depth 3; node and leaf counts and every integration point of two orders; non-trivial: trees deeper than one level"},
 "C27": {"level": "model_checking", "parts": [{"name": "search", "harness": "geom"}],
  "title": "explicit-state exploration of insertion, removal and move histories of the tree and exhaustive enumeration of boxes, rays and triangles",
  "rule": "every lattice triangle on {0,1,2}^3 against lattice boxes and rays (exact predicates); trees of every size 0..140 in 6 orders; all 720 insertion orders of 5 sets; all histories of insert, remove and move of 4 objects up to depth 6 (7); non-trivial: more than one object"},
 "C22": {"level": "exploration", "parts": [{"name": "nnls", "harness": "algebra"}],
  "title": "bounded-exhaustive enumeration of matrices and right-hand sides, every solution tested for the optimality conditions",
  "rule": "every matrix and right-hand side over small alphabets for 23 (32 thorough) shapes from 1x1 to 4x4, 2x6, 3x5, with scales 1e-5 to 7e6; every subset of 10 (12) points x every interval for Legendre moment systems of degree 1..6; oracle: x >= 0, A'(b-Ax) <= 0, complementary, reported residual = |b-Ax|; non-trivial: leading entries not all zero"},
 "C23": {"level": "exploration", "parts": [{"name": "map", "harness": "algebra"}, {"name": "helper", "harness": "py_helper", "lang": "py"}],
  "assumptions": ["box edges differ by at most a factor 1e6 between the spaces: area vectors scaled below the absolute tolerance 1e-14 lose their normal"],
  "title": "bounded-exhaustive enumeration of boxes, points, normals and models, every mapping compared with exact affine maps",
  "rule": "all triples of 11 axis configurations x 125 points x 28 normals in both directions and back (C++ and the Python helper); 480 models x both grid types x 4 parametric spaces: every volume and surface point, bounds, inside and box-state query in both spaces; non-trivial: different scales per axis, full and cut elements both present"},
 "C25": {"level": "model_checking", "parts": [{"name": "histories", "harness": "mesh", "profile": "asan", "args": ["histories"]}, {"name": "solids", "harness": "mesh", "args": ["solids"]}, {"name": "large", "harness": "mesh", "args": ["large"]}],
  "title": "explicit-state exploration of all histories of mesh operations, every transition compared with the surface before it, and exhaustive enumeration of solids",
  "rule": "all histories of up to 4 (5) of 20 operations (append, append itself, refine, remove, copy, move, assign, clear, reserve) from 6 meshes under AddressSanitizer: area and moments per plane, volume, bounds, orientation, views (own and foreign), area and volume with 1..8 threads; lattice solids x 3 scales and 441 x 21 boxes against exact values; large: three meshes of 90000 (1.2 million) triangles in four vertex numberings; non-trivial: more than one triangle"},
"C16": {"level": "exploration", "parts": [{"name": "wellformed", "harness": "ioread", "args": ["wellformed"]}, {"name": "truncated", "harness": "ioread", "args": ["truncated"]}, {"name": "damaged", "harness": "ioread", "args": ["damaged"]}, {"name": "faults", "harness": "ioread", "args": ["faults"]}],
  "assumptions": ["text outside solids and behind keywords and up to 49 bytes behind the last triangle of a binary file are ignored by design", "files whose damage yields another well-formed file are read as that file"],
  "title": "exhaustive enumeration of STL files, their truncations and damages and of read faults, the mesh read compared with the file",
  "rule": "small meshes x headers, names, number formats and white space variants in both encodings; every truncation point; every field, line and token left out, doubled or replaced; every read failing or returning short; non-trivial: more than one triangle"},
"C17": {"level": "exploration", "parts": [{"name": "buffer", "harness": "iowrite", "args": ["buffer"]}, {"name": "meshes", "harness": "iowrite", "args": ["meshes"]}, {"name": "grids", "harness": "iowrite", "args": ["grids"]}, {"name": "conditions", "harness": "iowrite", "args": ["conditions"]}, {"name": "models", "harness": "iowrite", "args": ["models"]}],
  "title": "exhaustive enumeration of write sequences of the buffered writer, meshes, grids and models, every file decoded independently and compared",
  "rule": "all sequences of 4 (5) of 9 write operations for buffers of 1..24 bytes in both byte orders; meshes of 0 to 70000 triangles, every small set of elements and points, every condition of up to 4 (5) segments of 0 to 3 triangles and conditions of up to 200000 triangles or 70000 segments, grids of up to 65709 elements, models of voxel solids, in both encodings; counts, connectivity, byte order and every number compared; non-trivial: more than one triangle or element"},
"C18": {"level": "fault_enumeration", "parts": [{"name": "faults", "harness": "iowrite", "args": ["faults"]}, {"name": "modelfaults", "harness": "iowrite", "args": ["modelfaults"]}],
  "assumptions": ["errors reported only by close() after a successful flush are out of scope"],
  "title": "enumeration of every write fault of every output function",
  "rule": "for every output function, encoding and size: the n-th write fails for every n (ENOSPC, EIO; once or for good), every write is short by every amount, the file cannot be opened; an error must be reported or the file be byte for byte the file without faults; the same for every file of a model; non-trivial: the fault hits after the first write"},
"C19": {"level": "model_checking", "parts": [{"name": "histories", "harness": "dict", "args": ["histories"]}, {"name": "tree", "harness": "dict", "args": ["tree"]}],
  "assumptions": ["the library is built with its debug assertions, which refuse keys of another dictionary"],
  "title": "explicit-state exploration of all histories of dictionary operations against a map model",
  "rule": "every key of every registered dictionary, by key and by name, every operation (set, overwrite, check, refused accesses) in every state of set and unset values and all histories of 2 to 3 (4) operations; all histories of 5 (7) of 14 operations inserting, replacing, moving and clearing sub-dictionaries and list entries; the whole content is compared after each operation; non-trivial: a value overwritten or refused"},
"C20": {"level": "exploration", "parts": [{"name": "values", "harness": "py_json", "lang": "py", "args": ["values"]}, {"name": "files", "harness": "py_json", "lang": "py", "args": ["files"]}],
  "assumptions": ["real values are finite, strings are UTF-8", "true and false inside a list of numbers count as 1 and 0"],
  "title": "bounded-exhaustive enumeration of settings and settings files, round trips compared value by value and damaged files rejected",
  "rule": "every boundary value of every key, every third (every) of the 131072 set/unset masks, all masks of one condition, pairs and triples of 8 masks, up to 12 conditions; every key with 33 kinds of values, every unknown key at every level, every subset of sections and keys, every truncation; non-trivial: not all values set"},
"C21": {"level": "exploration", "parts": [{"name": "feasible", "harness": "dict", "args": ["feasible"]}],
  "title": "exhaustive enumeration of the settings, acceptance compared with the documented rules",
  "rule": "grid types x methods x all order triples 0..10 (12), all triples of 8 numbers of elements (those between 10^6 and 2^64 elements in total left out), every pair of 17 bounds in every direction of both spaces, and every subset of missing values; non-trivial: orders differ"},
"C24": {"level": "exploration", "parts": [{"name": "spline", "harness": "py_spline", "lang": "py"}],
  "assumptions": ["knot and control point positions are compared up to rounding: 16 (n + 2p) units in the last place of the bounds"],
  "title": "exhaustive enumeration of orders, element counts, boxes and knot vector types, every knot, control point and mapped parameter compared with exact rational values",
  "rule": "both knot vector types x orders 1..8 x 1..40 (1..130) and 64, 97 (200, 257, 500) elements x 13 pairs of intervals, each in every direction, and all triples of orders and counts 1..3 (1..5); non-trivial: orders and counts differ between directions"},
"C28": {"level": "model_checking", "parts": [{"name": "models", "harness": "py_model", "lang": "py", "args": ["models"]}, {"name": "lifetimes", "harness": "py_model", "lang": "py", "args": ["lifetimes"]}, {"name": "meshes", "harness": "py_model", "lang": "py", "args": ["meshes"]}],
  "assumptions": ["freed memory is overwritten with a pattern (MALLOC_PERTURB_) and reused before every comparison; an access to memory whose freed content happens to be unchanged is not seen", "an iterator over a container is not used after the container was changed"],
  "title": "bounded-exhaustive enumeration of models made through the Python front end, and explicit-state exploration of the orders in which the objects of a model are dropped",
  "rule": "models: all manifold 2 x 2 x 2 voxel solids and 2 (5) of them on every combination of 6 grids, both grid types, 6 methods, 4 orders and 5 sets of conditions; settings, elements, bounds, moments, Gauss points, conditions, segments, triangles, surface points, information compared with exact values; lifetimes: 33 chains of accesses, all objects dropped in every order (chains of more than 3 steps: every object first, every object last), everything still held compared after each drop, settings held across Run, every index behind the end; meshes: every history of 5 (6) operations (vertices, 6 triangles of which some name unknown vertices, reserving, holding the triangles, stepping a running iterator) from 4 meshes, everything listed or held compared after each operation, all GGQ rules of 11 orders x 6 methods x 7 numbers of elements; non-trivial: each"},
"C29": {"level": "model_checking", "parts": [{"name": "histories", "harness": "robust", "profile": "debug", "args": ["histories"]}, {"name": "flawed", "harness": "robust", "profile": "debug", "args": ["flawed"]}, {"name": "plates", "harness": "robust", "profile": "debug", "args": ["plates"]}],
  "assumptions": ["coordinates are finite", "a moved-from model is not used again"],
  "title": "explicit-state exploration of all histories of model operations, and bounded-exhaustive enumeration of flawed geometries, under checked containers and sanitizers",
  "rule": "histories: all sequences of 4 (5) of 10 operations (4 volumes, 3 conditions, move, move over another model, write): after each step elements, points, segments, model info and files equal those of a model made by the effective operations alone, refused operations raise an error and change nothing; flawed: 14 solids and solids that overlap, touch, are nested or inverted, single triangles with every choice of 3 of 6 points, every triangle missing, inverted, doubled, degenerate, moved or alone, every pair of them, scales 1e-8..1e150, on 6 grids with varied settings (every 5th to 301st quick, all thorough): no crash, ids, bounds, weights, counts and areas consistent; plates: diagonal plates of thickness down to 0.0080 (0.0033) at 17 positions; non-trivial: active elements and, in histories, conditions"},
"C30": {"level": "model_checking", "parts": [{"name": "names", "harness": "py_output", "lang": "py", "args": ["names"]}, {"name": "histories", "harness": "py_output", "lang": "py", "args": ["histories"]}],
  "assumptions": ["an output directory that contains the input files is a misuse; not explored", "the working directory does not change between the creation of the front end and the run", "the check runs in a scratch directory as an unprivileged user with guards in place of the calls that delete or create; names outside of the scratch directory are left out if no unprivileged user is available"],
  "title": "explicit-state exploration of all histories of runs and of all kinds of output directory names, on the real front end and file system",
  "rule": "names: 48 names (relative, absolute, nested, existing, with spaces, links, the working directory in 8 spellings, directories above it, files) x 4 models x output on or off, run again twice over the old files; histories: all sequences of 3 (4) of 10 operations (runs of 3 models into 2 directories, without output, creation without a run, foreign files, removal of the directory): after every step the whole tree compared with the expected one, files equal in every run of the same model; non-trivial: each"},
"C31": {"level": "model_checking", "parts": [{"name": n, "harness": "py_kratos", "lang": "py", "args": [n]} for n in ("runs", "boxes", "meshes", "histories", "refusals")],
  "assumptions": ["Kratos is not installed: a stand-in (harness/kratos_stub.py) has the part of its interface that is used, records what it is given, refuses ids that are taken, and adds point loads of conditions and of their nodes as Kratos does; nothing is solved", "triangles with an area up to 1e-14 or an aspect ratio from 1e8 on carry no support", "elements are added to a model part that has none", "the mesh file is in single precision"],
  "title": "bounded-exhaustive enumeration of analyses and explicit-state exploration of all histories of one model part, on the real interface and models of QuESo with a recording stand-in for Kratos",
  "rule": "runs: 2 solids x 2 frames x 3 parameter boxes x 3 grids x (no condition, 7 conditions on 10 surfaces), all pairs of 15 conditions (thorough: all triples of 14), 6 integration methods; each analysed twice; boxes: all boxes with corners at or between nodes (3375) with all choices of fixed directions and 2 forces, all pairs and triples (quadruples) of 16 boxes; meshes: all meshes of up to 2 (3) triangles over 5 lists of vertices, with repeated and unused vertices; histories: all sequences of 4 (5) of 7 operations on one model part, everything compared after every step; refusals: 125 directions, unknown condition types, a missing Kratos, all mixtures of boxes and conditions; non-trivial: each"},
}
NOT_APPLICABLE = {}
