#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place."""
import json, os
from checks import CHECKS
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state="", observe=""):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": state, "meaning": "state the property speaks about", "where": files[0]}], "observe_at": [observe], "hook_needed": None}})

prop("C01", "Background-grid cells are numbered one-to-one and tile the box",
 "For every grid size, physical box and parametric box, the mapping between a cell's linear number and its (i,j,k) position is one-to-one with x running fastest, and the cells' physical boxes tile the physical box without gap or overlap. On a B-spline grid the cells' parametric boxes tile the parametric box in the same way; on a hexahedral finite-element grid every cell has the whole parametric box.",
 ["configurations", "inputs"], "all grid sizes, boxes and grid types, all cells",
 "Tests check a few cells of a few fixed grids; an error that only shows on non-cubic grids, on offset boxes or on one grid type passes.",
 ["queso/containers/grid_indexer.hpp"], [("index maps and cell boxes", "GridIndexer")], "grid settings", "GridIndexer queries; element bounds in a created model")

prop("C02", "Directional grid walks visit every cell once and flag line ends",
 "Stepping from a cell in one of the six directions, in the whole grid or in any block of it, returns the face neighbour and reports a normal step exactly when that neighbour exists inside the block; otherwise the step is flagged as a line end and moves to another line of the block, or stays and is flagged as the end of the walk. Starting at a corner, each walk therefore visits every cell of the block exactly once, the opposite direction visits them in reverse order, and the end-of-line query agrees with the flags.",
 ["inputs", "histories"], "all grid sizes, all blocks, all start cells, six directions",
 "Tests walk whole grids of one or two sizes; sub-blocks and degenerate grids are hardly stepped through.",
 ["queso/containers/grid_indexer.hpp"], [("next/previous index per axis", "GridIndexer::GetNextIndex*")], "current cell, block", "returned index and flag")

prop("C03", "The background grid stores exactly the elements it was given",
 "After any sequence of element insertions, the grid contains exactly the elements whose construction produced a result, each found under its own id, in the right (trimmed or full) family, with its own bounds and data, in every lookup, listing, count and neighbour traversal. Inserting an id a second time is refused with a catchable error and changes nothing, inserting after the container has been locked is refused, and element pointers obtained after locking stay valid when the grid is moved.",
 ["histories"], "all sequences of insertions (full, trimmed, rejected, duplicate), lock and move",
 "Tests use one fixed population; storage order, reallocation and duplicate insertion are not covered over histories.",
 ["queso/containers/background_grid.hpp", "queso/containers/trimmed_element.hpp", "queso/containers/untrimmed_element.hpp"],
 [("insertion and lookup", "BackgroundGrid::MakeElement, GetElementView, pGetElement, GetNextElement*")], "element containers and id map", "grid queries")

prop("C04", "Every cell is classified inside, outside or cut exactly as the solid says",
 "For a closed surface that bounds a solid, a grid cell is reported as cut if and only if the surface passes through the cell's interior; otherwise it is reported as inside exactly when it lies in the solid and as outside exactly when it does not.",
 ["inputs", "configurations"], "all closed solids within bounds, all grid sizes and placements",
 "Tests compare a few STL files on a few grids with stored results; enclosed cavities, disconnected parts and thin gaps between cells are hit only by chance.",
 ["queso/embedding/brep_operator.cpp", "queso/embedding/flood_fill.cpp", "queso/embedding/geometry_query.cpp"],
 [("flood fill of cell groups", "FloodFill"), ("box/surface intersection", "GeometryQuery")], "cell states", "element classifications; active elements of a model")

prop("C05", "Classification does not depend on threads or scheduling",
 "Classifying the cells of a grid gives the same result for every number of threads and for every interleaving of the threads, and no two threads access the same memory in conflict without synchronisation.",
 ["schedules", "configurations"], "all thread counts, all interleavings of the parallel regions",
 "Tests run with one thread count and whatever schedule the machine produces; partition boundaries only exist with several threads.",
 ["queso/embedding/flood_fill.cpp", "queso/embedding/brep_operator.cpp"], [("parallel flood fill and group merging", "FloodFill::ClassifyElements")], "group sets, partition boundaries", "element classifications")

prop("C06", "Parallel model creation is race-free and independent of scheduling",
 "Creating the volume and the conditions of a model produces, for every number of threads and every interleaving, the same set of elements with the same integration points, the same condition segments and the same totals in the model information (up to the order of elements and segments and rounding of sums), without unsynchronised conflicting accesses.",
 ["schedules", "configurations"], "all thread counts and interleavings of the parallel loops over elements and cells",
 "A lost update or an unprotected insertion shows only in rare interleavings; the tests run each model once.",
 ["queso/embedded_model.cpp", "queso/containers/background_grid.hpp", "queso/utilities/mesh_utilities.cpp"],
 [("parallel loop over elements", "EmbeddedModel::ComputeVolume"), ("parallel loop over cells", "EmbeddedModel::ComputeCondition"), ("protected insertion", "BackgroundGrid::MakeElement")], "element containers, condition segments, timers", "elements, conditions, model info")

prop("C07", "Quadrature of a cut element integrates the material part of the cell",
 "Every cut element carries between one and (p+1)^3 integration points (p per direction), all with positive weight and all located in the cell and in the material. The points reproduce the integrals of all polynomials up to the element's order in each direction over the material part of the cell, up to the requested moment-fitting residual. If the fictitious domain is activated, these points are followed by exactly the Gauss points of the cell outside of the material, with their weights scaled by the given factor. Lengths, areas and weights below the code's absolute tolerances (1e-12 and smaller) are treated as zero, so cells are taken to be no smaller than about 1e-2.",
 ["inputs", "configurations"], "all solids cutting a cell, orders, residual settings, cell placements",
 "Tests check volumes of a few cut elements of a few geometries; higher moments, mixed orders and odd cuts are sampled sparsely.",
 ["queso/quadrature/trimmed_element.hpp", "queso/embedding/octree.cpp", "queso/embedding/trimmed_domain.cpp", "queso/solvers/nnls.cpp"],
 [("moment fitting and point elimination", "QuadratureTrimmedElement"), ("closed boundary of the cut cell", "TrimmedDomain")], "integration points of cut elements", "element integration points")

prop("C08", "Elements and reported totals add up to the embedded volume",
 "A model of a closed solid that lies in the grid's box has an element for every cell that overlaps the solid (apart from cut cells whose material part is below the configured minimum volume ratio) and for no other cell, and the weights of all integration points times the element Jacobians add up to the solid's volume within the tolerance of those exclusions. The reported counts of active, full, cut and inactive elements, points per element, represented volume, percentage and closedness agree with the elements.",
 ["inputs", "configurations"], "all solids, grids, orders, quadrature methods and grid types within bounds",
 "Tests look at totals of a few models; an element dropped or counted twice in another constellation stays unseen.",
 ["queso/embedded_model.cpp", "queso/embedding/element_builders.hpp"], [("volume creation", "EmbeddedModel::ComputeVolume")], "elements and model info", "GetElementViews, GetModelInfo")

prop("C09", "Full-cell Gauss rules are exact for the polynomial order they promise",
 "In a full (uncut) element the Gauss rule has (p+1), p or p-1 points per direction for the full, once reduced and twice reduced method, all strictly inside the cell with positive weights. It integrates every polynomial of degree up to 2n-1 in each direction (n points per direction) exactly over the cell.",
 ["configurations"], "all orders from one to eight per direction, all methods, all cells and parametric boxes",
 "Tests check sums of weights or one integrand for equal orders in all directions.",
 ["queso/quadrature/single_element.hpp", "queso/quadrature/integration_points_1d/"], [("tensor-product Gauss rule", "QuadratureSingleElement")], "integration points", "element integration points")

prop("C10", "Generalized Gauss rules integrate their spline space exactly",
 "For every order p from 2 to 4, every number of elements and each of the three generalized Gauss methods, the one-dimensional rule has positive weights and points inside the interval and integrates exactly every spline of the target space (degree 2p for the optimal, 2p-1 and 2p-2 for the reduced rules, with the matching inter-element smoothness) over any interval it is requested for, using half as many points as the dimension of that space (rounded up).",
 ["configurations"], "all p in 2..4, all numbers of elements, all methods, all intervals",
 "The tests integrate selected spans with tolerance for some element numbers; the tables and their stitching are used for every number of elements.",
 ["queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp"], [("table lookup and assembly", "IntegrationPointFactory1D::GetGGQ")], "rule tables", "GetGGQ")

prop("C11", "Generalized Gauss assembly covers every full element exactly once",
 "For every set of full elements in a B-spline grid, the generalized Gauss rules put points with positive weights only into full elements, each in the box of the element that holds it. Over the union of the full elements they integrate exactly every spline of the target space of the grid (degree 2p, 2p-1 or 2p-2, continuity p-2 across cell faces), in particular every such polynomial, so their weights add up to the parametric volume of the full elements.",
 ["inputs", "configurations"], "all subsets of cells being full, all orders and methods",
 "Tests use two geometries; how elements are grouped into boxes depends on the exact neighbourhood pattern of full elements.",
 ["queso/quadrature/multiple_elements.hpp", "queso/containers/background_grid.hpp"], [("grouping of neighbouring elements", "QuadratureMultipleElements")], "neighbour coefficients and visited flags", "integration points of full elements")

prop("C12", "Condition segments tile the condition surface",
 "For a condition surface inside the grid's box, the segments together have exactly the surface's area (each part of the surface belongs to exactly one segment, also when it lies on cell faces), every segment lies in its cell and keeps the surface's orientation, and a segment is linked to an element exactly when its cell is active, then to that cell's element. The reported surface area and active percentage agree with the segments.",
 ["inputs", "configurations"], "all condition surfaces and volumes, grid placements, including surfaces on cell faces",
 "Tests check total area for a few surfaces; pieces on cell faces, edges and corners can be lost or doubled unnoticed.",
 ["queso/embedded_model.cpp", "queso/embedding/brep_operator.cpp", "queso/embedding/clipper.cpp"], [("unique clipping", "BRepOperator::ClipTriangleMeshUnique"), ("segment creation", "EmbeddedModel::ComputeCondition")], "condition segments", "GetConditions, model info")

prop("C13", "Clipping a triangle with a box yields exactly the part inside the box",
 "Clipping any triangle with any axis-aligned box returns a polygon that lies in the box and in the triangle and has the area of their intersection, or nothing when they do not intersect in an area or the triangle lies in the plane of a box face; its triangulation keeps the triangle's orientation and normal and covers the polygon once. Clipping is unaffected by the cyclic order of the triangle's vertices.",
 ["inputs"], "all triangle/box configurations including vertices and edges on faces, edges and corners of the box",
 "Tests clip a handful of triangles; the many degenerate touch configurations are not enumerated.",
 ["queso/embedding/clipper.cpp", "queso/embedding/polygon.cpp"], [("plane-by-plane clipping", "Clipper"), ("fan triangulation", "Polygon")], "polygon vertices", "clipped polygon / mesh")

prop("C14", "A cut cell's boundary mesh is closed and encloses the material part",
 "The boundary mesh of a cut cell is a closed, outward oriented surface that stays in the cell: its area vectors sum to zero, and the volume it encloses equals the volume of the intersection of the solid with the cell. The reported bounds of the cut part enclose it tightly. Lengths, areas and weights below the code's absolute tolerances (1e-12 and smaller) are treated as zero, so cells are taken to be no smaller than about 1e-2.",
 ["inputs", "configurations"], "all solids cutting a cell, all placements, including solids touching faces, edges and corners",
 "Tests check volume and area for a few solids; every face of the cell has its own triangulation with many constellations of boundary edges.",
 ["queso/embedding/trimmed_domain_on_plane.cpp", "queso/embedding/trimmed_domain.cpp", "queso/embedding/brep_operator.cpp"],
 [("face triangulation", "TrimmedDomainOnPlane"), ("assembly", "TrimmedDomain")], "boundary mesh", "trimmed domain queries")

prop("C15", "Point membership is right for every ray the code may draw",
 "A point is reported inside a closed solid exactly when it is inside, for every sequence of random ray directions the implementation may draw and also when rays hit edges, vertices or run along facets; the membership query of a cut cell agrees with the solid in that cell. Lengths, areas and weights below the code's absolute tolerances (1e-12 and smaller) are treated as zero, so cells are taken to be no smaller than about 1e-2.",
 ["inputs", "schedules"], "all query points, all solids, all answers of the random source",
 "Tests query points with whatever ray the random source picks; ambiguous rays occur rarely.",
 ["queso/embedding/brep_operator.cpp", "queso/embedding/geometry_query.cpp", "queso/embedding/trimmed_domain.cpp"], [("ray casting with retry", "BRepOperator::IsInside")], "random source", "IsInside")

prop("C16", "STL input is read completely and correctly or rejected",
 "A well-formed ASCII or binary STL file is read so that the mesh has exactly the file's triangles, in order, with their vertices and unit normals, whatever the header or solid name. A file that is truncated or damaged so that its triangles cannot be recovered is rejected with an error instead of yielding a mesh that silently differs.",
 ["inputs", "crash_points"], "all small meshes, all headers/solid names/whitespace variants, every truncation point",
 "Tests read a few well-formed files; damaged files are hardly covered.",
 ["queso/io/io_utilities.cpp"], [("STL readers", "IO::ReadMeshFromSTL")], "input file", "resulting mesh or exception")

prop("C17", "Written STL and VTK files describe exactly the model",
 "A mesh or condition written as STL (ASCII or binary) reads back with the same triangles to the format's precision, and VTK output of elements, integration points and meshes is well-formed (its counts agree with its data and cell connectivity is valid) and holds exactly the model's cells, points and weights in both encodings.",
 ["inputs", "configurations"], "all small meshes and models, both encodings",
 "Tests compare file sizes or a few files; counts and byte layout are not decoded for general models.",
 ["queso/io/io_utilities.cpp", "queso/io/io_utilities.tpp", "queso/io/binary_buffer_writer.hpp"], [("writers", "IO::Write*"), ("buffered big/little-endian writer", "BinaryBufferWriter")], "output file", "file contents")

prop("C18", "A failed write is never reported as success",
 "If any write of an output file fails (the device is full, an I/O error occurs, or the file cannot be opened), the writing function reports an error; when it reports success, the file is complete and identical to the one written without faults.",
 ["fault_sequences", "crash_points"], "every write call failing, every short write, every output function and encoding",
 "No test injects write failures.",
 ["queso/io/io_utilities.cpp", "queso/io/io_utilities.tpp", "queso/io/binary_buffer_writer.hpp"], [("output streams", "IO::Write*, BinaryBufferWriter")], "output stream", "return/exception versus file contents")

prop("C19", "Dictionaries return what was last stored, by key and by name alike",
 "For every history of operations on a dictionary, a value can be read exactly when it was set, with the type of its key, and equals the last value stored; access by key and by key name agree, and unknown names, wrong types, missing required values and unset values are refused with an error that leaves the dictionary unchanged. Sub-dictionaries and lists keep their identity and content over insertions and moves.",
 ["histories"], "all operation sequences on all registered settings and info dictionaries",
 "Tests exercise a few sequences on one key set.",
 ["queso/containers/dictionary.hpp", "queso/containers/data_set.hpp", "queso/includes/keys.hpp", "queso/includes/register_keys.hpp"], [("typed storage", "DataSet, Dictionary"), ("string access", "DictionaryStringAccess")], "stored values", "Get/Set/IsSet results")

prop("C20", "Settings survive a write to JSON and read back",
 "Any valid settings, including none or several conditions, written to JSON and read back give settings with the same values set, the same values and the same conditions; a settings file with an unknown key, a wrong type or malformed JSON is rejected.",
 ["inputs", "configurations"], "all combinations of set and unset values over boundary values of each type",
 "Tests read a few files and compare some entries.",
 ["queso/containers/dictionary.hpp", "queso/python/scripts/json_io.py", "queso/io/io_utilities.tpp"], [("JSON printing", "Dictionary::PrintInfo"), ("JSON reading", "JsonIO")], "JSON file", "settings after reading back")

prop("C21", "Exactly the feasible settings are accepted",
 "A model can be created from settings if and only if every required value is set, there is at least one element in every direction (and no more than can be counted), both boxes have a finite positive extent in every direction, every order is between one and eight, generalized Gauss rules are requested only on B-spline grids with orders two to four in every direction, and the twice reduced Gauss rule only with all orders at least two; otherwise creation fails with an error before anything is computed.",
 ["configurations"], "the full cross product of grid types, methods, orders, numbers of elements, bounds and missing values",
 "Tests cover some rejections.",
 ["queso/utilities/check_dictionary_utilities.hpp", "queso/embedded_model.h"], [("settings check", "CheckSettings")], "settings", "model creation succeeds or throws")

prop("C22", "The non-negative least-squares solver returns an optimal solution",
 "For every matrix and right-hand side the solver returns a vector without negative entries that minimises the residual over all non-negative vectors, and the residual it reports is the residual of that vector.",
 ["inputs"], "all small matrices and right-hand sides over a small integer alphabet, all shapes",
 "Tests solve a few systems with known solutions; active-set changes and rank deficiency are hardly covered.",
 ["queso/solvers/nnls.cpp", "external_libraries/nnls/nnls_impl.h"], [("active-set solver", "NNLS::solve")], "solution", "solution and residual")

prop("C23", "Physical and parametric coordinates map consistently both ways",
 "Mapping a point, a volume point or a surface point between an element's physical and parametric space and back returns the original, box corners map to box corners, weights scale with the Jacobian determinant (area scaling and normal direction for surface points) so that integrals agree in both spaces, and the Python helper gives the same mapping.",
 ["inputs", "configurations"], "all cell boxes and parametric boxes, all points of a lattice, all normals",
 "Tests map a few points in a few boxes.",
 ["queso/utilities/mapping_utilities.hpp", "queso/containers/element_base.hpp", "queso/python/scripts/helper.py"], [("affine map and area vector", "mapping::*")], "element bounds", "mapped points, weights, normals")

prop("C24", "The B-spline volume reproduces the background grid exactly",
 "For every order, element count and box the constructed trivariate B-spline has number-of-elements plus order control points per direction, an open knot vector with the grid's cell boundaries as knots of the requested continuity, and maps each parametric point affinely to its physical point.",
 ["configurations"], "all orders, element counts, boxes and knot vector types",
 "Tests compare a few stored results.",
 ["queso/python/scripts/b_spline_volume.py"], [("knot vectors and control points", "BSplineVolume")], "control points and knots", "BSplineVolume queries")

prop("C25", "Mesh operations preserve the surface they work on",
 "Copying, appending, viewing and refining triangle meshes preserves the represented surface: area, enclosed volume, orientation, normals and bounds are unchanged (summed for appends), refinement reaches at least the requested number of triangles, vertex indices stay valid, and area and volume are independent of the number of threads and agree with exact values.",
 ["histories", "inputs"], "all sequences of mesh operations on all small meshes",
 "Tests check single operations on single meshes.",
 ["queso/utilities/mesh_utilities.cpp", "queso/containers/triangle_mesh.hpp", "queso/containers/triangle_mesh_view.hpp", "queso/containers/clipped_triangle_mesh.hpp"], [("mesh operations", "MeshUtilities")], "meshes", "mesh queries")

prop("C26", "The octree partitions the material and respects its depth limits",
 "For every domain and every pair of minimum and maximum depth, and every sequence of refinements, the octree's leaves are disjoint boxes of the regular subdivision that cover the material and leave out empty boxes, leaves above the minimum depth and leaves that only partly overlap the material above the maximum depth are split, and its integration points are exactly the Gauss points of the leaves that lie in the material, with positive weights; so boxes without a cut boundary are integrated exactly.",
 ["inputs", "configurations"], "all domains, depth limits and orders within bounds",
 "Tests use one or two geometries.",
 ["queso/embedding/octree.cpp", "queso/embedding/octree.h"], [("refinement", "Octree::Refine"), ("points", "Octree::GetIntegrationPoints")], "octree nodes", "node count and points")

prop("C27", "Spatial search never misses a candidate",
 "The bounding-volume tree returns for every box query every triangle whose bounding box meets the query box, and for every ray query every triangle the ray hits, each at most once, for every history of insertions, removals and moves. The exact tests agree with geometry: a triangle is reported as crossing a box when it meets the box's interior and not when it is apart, and a ray is reported to hit a triangle exactly when it does, with the right side and position.",
 ["inputs", "histories"], "all sets of small triangles, all query boxes and rays on a lattice",
 "Tests query one mesh.",
 ["queso/embedding/aabb_tree.cpp", "queso/embedding/aabb_primitive.cpp", "queso/embedding/ray_aabb_primitive.cpp", "external_libraries/aabb_tree/AABB_base.cc"], [("tree construction and query", "AABB_tree, AABB_primitive, Ray_AABB_primitive")], "tree", "query results")

prop("C28", "The Python interface shows the same model as the C++ core",
 "A model created through the Python front end from a settings file has the elements, integration points, conditions and model information that the settings and geometry define (with times that add up), and Python objects obtained from it stay valid and unchanged while they are used. A mesh built in Python has exactly the given vertices and triangles; triangles with unknown vertices and quadrature rules that do not exist are refused with an error.",
 ["configurations", "inputs"], "all small solids, grids, methods and numbers of conditions through the Python front end",
 "Tests compare volumes of a few models.",
 ["queso/python/PyQuESo.py", "queso/python/bindings/"], [("bindings and front end", "PyQuESo")], "Python objects", "Python API")

prop("C29", "Flawed geometries and misused models never break the process",
 "Whatever the triangles of the input are (open, overlapping, inverted, degenerate, tiny, huge or none at all) and in whatever order the operations of a model are called, the model either is consistent with itself (unique element ids, finite positive weights inside the cells, right counts) or the operation is refused with an error that leaves the model unchanged; nothing crashes, terminates or reads invalid memory.",
 ["inputs", "histories"], "all small flawed geometries, and all histories of model operations",
 "Tests use flawless geometries and one order of operations.",
 ["queso/embedded_model.cpp", "queso/embedding/", "queso/quadrature/trimmed_element.hpp"], [("model", "EmbeddedModel"), ("point elimination", "PointElimination")], "crash or inconsistency", "C++ API")

prop("C30", "A run with output replaces exactly its output directory",
 "A run with output through the Python front end leaves, in the output directory named in the settings (relative or absolute, existing or not, nested or not), exactly the files of that model (elements, integration points, one file per condition, model information) whatever was there before, and changes nothing outside of it; names that do not name a directory of their own (the working directory, a directory above it, a file) are refused with nothing deleted, and a run without output changes no file.",
 ["inputs", "histories"], "all kinds of directory names, and all histories of runs with and without output",
 "Tests write once, into one directory.",
 ["queso/python/PyQuESo.py", "queso/embedded_model.cpp", "queso/io/"], [("output directory", "PyQuESo.__init__"), ("output files", "EmbeddedModel::WriteModelToFile")], "files", "the file system")

prop("C31", "The interface to Kratos hands over exactly the model",
 "An analysis gets a volume with the grid's bounds, orders and knot spans; one element for every active element with exactly its points of positive weight; for every support each non-negligible triangle of every segment once, in parameter space, with its prescribed value and penalty factor; and for surface and pressure loads point loads in the right places whose sum, and whose products with linear and quadratic functions of position, equal the integrals over the surface (direction normalised, pressure against the normal), and nothing else: what was there before is removed, ids are unique in every history, and a repeated analysis is the same. Bounding-box conditions fix exactly the chosen directions of, or distribute the given force equally over, the nodes strictly inside. Meshes go to a model part and back unchanged, also into a mesh that already has triangles. Unknown kinds, directions of no length, entities that are no triangles and a missing Kratos are refused with a message.",
 ["inputs", "histories"], "all models, conditions, boxes and meshes, and all histories of operations on a model part",
 "Tests of the interface need Kratos, which is not installed; they compare sums for four models.",
 ["kratos_interface/", "queso/python/PyQuESo.py", "queso/python/scripts/helper.py"], [("elements and conditions", "ModelPartUtilities"), ("weak conditions", "weak_bcs"), ("boxes", "bounding_box_bcs"), ("analysis", "CustomAnalysisStage")], "model part", "the model part of the analysis")

def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    import checks
    na = [{"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], "no check built yet")} for p in P if p["id"] not in CHECKS]
    m = {"version": 1, "setup_cmd": "python3 setup.py",
         "hooks": {"guard": "QUESO_VERIF_HOOKS", "enable": "no hooks were needed in /repo; the guard is reserved and never defined", "source_commits": []},
         "checks": [{"property": k, "quick_cmd": "python3 check.py %s --tier quick" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k,
                     "technique": "model checking: " + c["title"], "level": c["level"], "level_note": c.get("note", c["rule"]),
                     "evidence_file": "evidence/%s.json" % k} for k, c in sorted(CHECKS.items())],
         "not_applicable": na, "notes": "See DESIGN.md. Known findings and repairs: known_findings.txt."}
    from design_notes import D
    t = open(os.path.join(here, "DESIGN.head.md")).read()
    for p in P:
        c = CHECKS.get(p["id"])
        if not c: continue
        files = ", ".join("`harness/%s`" % x for x in sorted({q["harness"] + (".py" if q.get("lang") == "py" else ".cpp") for q in c["parts"]}))
        o, w = D[p["id"]]
        t += "### %s %s\n\n%s\n\n* Decided by: %s (%s; parts %s; level %s).\n* Space: %s.\n* Oracle: %s.\n* Reaches what tests cannot: %s.\n" % (
            p["id"], p["title"], p["statement"], c["title"], files, ", ".join(q["name"] for q in c["parts"]), c["level"], c["rule"], o, w)
        if c.get("assumptions"): t += "* Assumptions: %s.\n" % "; ".join(c["assumptions"])
        t += "\n"
    t += open(os.path.join(here, "DESIGN.tail.md")).read()
    sd = os.path.join(here, "seeded")
    for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        j = json.load(open(os.path.join(sd, i, "meta.json")))
        t += "* `%s` (%s): %s Needs: %s\n" % (i, j["property"], j["what_it_breaks"], j["needs"])
    extra = os.path.join(here, "DESIGN.mutants.md")
    if os.path.exists(extra): t += open(extra).read()
    open(os.path.join(here, "DESIGN.md"), "w").write(t)
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
main()
