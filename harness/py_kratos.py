"""C31: what the interface to Kratos hands over. The real Python code and the real models of QuESo run against a stand-in for Kratos that records."""
import contextlib, io, itertools, json, math, os, shutil, struct, sys, tempfile, warnings
from vp_py import Run, Stop
import kratos_stub as K
K.install()
with contextlib.redirect_stdout(io.StringIO()):
    import QuESoPythonModule as Q
    from QuESoPythonModule.PyQuESo import PyQuESo
    from QuESoPythonModule.kratos_interface.model_part_utilities import ModelPartUtilities as MPU
    from QuESoPythonModule.kratos_interface.kratos_analysis import Analysis
    from QuESoPythonModule.kratos_interface import bounding_box_bcs as BB
KM, IGA, SMA = K.KM, K.IGA, K.SMA
S = os.path.realpath(tempfile.mkdtemp(prefix="vp-c31-"))
SEEN = {}


def finding(r, key, msg):
    """a listed finding is reported once, and counted"""
    r.count("finding " + key)
    if key not in SEEN:
        SEEN[key] = 1
        r.record(msg, key)


sub = lambda a, b: tuple(x - y for x, y in zip(a, b))
cross = lambda u, v: (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
norm = lambda u: math.sqrt(sum(x * x for x in u))


def stl(path, tris):
    with open(path, "w") as f:
        f.write("solid s\n" + "".join("facet normal 0 0 0\nouter loop\n" + "".join("vertex %.17g %.17g %.17g\n" % tuple(v) for v in t) + "endloop\nendfacet\n" for t in tris) + "endsolid s\n")


def box(lo, hi):
    x = lambda b: tuple((lo, hi)[b >> d & 1][d] for d in range(3))
    return [tuple(map(x, t)) for q in ((0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)) for t in ((q[0], q[1], q[2]), (q[0], q[2], q[3]))]


def quad(a, b, c, d):
    return [(a, b, c), (a, c, d)]


# all coordinates in the unit cube; the frame scales them
SOLIDS = {"inner": box((0.1, 0.1, 0.1), (0.8, 0.7, 0.9)), "slab": box((0, 0, 0), (1, 1, 0.6))}
SURFACES = {"rect": quad((0.1, 0.1, 0.55), (0.8, 0.1, 0.55), (0.8, 0.8, 0.55), (0.1, 0.8, 0.55)),
            "tilted": quad((0.1, 0.15, 0.05), (0.9, 0.2, 0.2), (0.85, 0.9, 0.95), (0.05, 0.85, 0.8)),
            "closed": box((0.3, 0.25, 0.2), (0.7, 0.6, 0.75)),
            "leaving": quad((0.4, -0.5, 0.3), (1.5, 0.2, 0.3), (1.4, 0.7, 0.6), (0.4, 0.6, 0.6)),
            "outside": quad((2, 2, 2), (3, 2, 2), (3, 3, 2), (2, 3, 2)),
            "single": [((0.15, 0.2, 0.3), (0.4, 0.25, 0.35), (0.2, 0.45, 0.4))],
            "thin": [((0.1, 0.2, 0.3), (0.9, 0.2, 0.3), (0.5, 0.2 + h, 0.3)) for h in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5)],
            "tiny": [((0, 0, 0), (h, 0, 0), (0, h, 0)) for h in (1e-9, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3)] + [((0, 0, 0), (0, h, 0), (0, 0, h)) for h in (1e-8, 1e-5)],
            # edges that lie in planes between cells, and triangles too small to count
            "aligned": quad((0.5, 0, 0), (0.5, 1, 0), (0.5, 1, 1), (0.5, 0, 1)),
            "slivers": [((0.1, 0.2, 0.3), (0.9, 0.8, 0.4), (0.1 + 1e-9, 0.2, 0.3)), ((0.2, 0.2, 0.2), (0.2 + 1e-8, 0.2, 0.2), (0.2, 0.2 + 1e-8, 0.2)), ((0.2, 0.2, 0.7), (0.6, 0.25, 0.7), (0.5, 0.5, 0.75))]}
FRAMES = {"unit": ((0.0, 0.0, 0.0), (1.0, 1.0, 1.0)), "moved": ((-1.0, 2.0, -3.0), (1.0, 5.0, -2.0))}
PARAMS = {"unit": ((0.0, 0.0, 0.0), (1.0, 1.0, 1.0)), "same": None, "far": ((-2.0, 5.0, 0.5), (-1.0, 9.0, 0.75))}
KINDS = [("PenaltySupportCondition", {"value": [0.1, -0.2, 0.3], "penalty_factor": 1e10}), ("PenaltySupportCondition", {"value": [0.0, 0.0, 1.0], "penalty_factor": 250.5}),
         ("LagrangeSupportCondition", {"value": [0.0, 0.25, -3.0]}), ("SurfaceLoadCondition", {"modulus": 5.0, "direction": [1.0, 2.0, 2.0]}),
         ("SurfaceLoadCondition", {"modulus": -2.5, "direction": [0.0, 0.0, 1e-3]}), ("PressureLoadCondition", {"modulus": 2.0}), ("PressureLoadCondition", {"modulus": -30.0})]


def single(x):   # the files hold single precision
    return struct.unpack("f", struct.pack("f", x))[0]


def place(frame, tris):
    lo, hi = FRAMES[frame]
    return [tuple(tuple(single(lo[i] + v[i] * (hi[i] - lo[i])) for i in range(3)) for v in t) for t in tris]


def settings(solid, frame, param, order, number, conds, method="Gauss"):
    sf = "%s/%s-%s.stl" % (S, solid, frame)
    if not os.path.exists(sf):
        stl(sf, place(frame, SOLIDS[solid]))
    cl = []
    for i, (kind, surface) in enumerate(conds):
        cf = "%s/c-%s-%s.stl" % (S, surface, frame)
        if not os.path.exists(cf):
            stl(cf, place(frame, SURFACES[surface]))
        cl.append(dict(KINDS[kind][1], condition_id=i + 1, condition_type=KINDS[kind][0], input_filename=cf))
    u = PARAMS[param] or FRAMES[frame]
    return {"general_settings": {"input_filename": sf, "write_output_to_file": False, "echo_level": 0},
            "background_grid_settings": {"grid_type": "b_spline_grid", "lower_bound_xyz": list(FRAMES[frame][0]), "upper_bound_xyz": list(FRAMES[frame][1]), "lower_bound_uvw": list(u[0]), "upper_bound_uvw": list(u[1]),
                                         "polynomial_order": list(order), "number_of_elements": list(number)},
            "trimmed_quadrature_rule_settings": {"moment_fitting_residual": 1e-6, "min_element_volume_ratio": 0.0, "min_num_boundary_triangles": 10},
            "non_trimmed_quadrature_rule_settings": {"integration_method": method}, "conditions_settings_list": cl}


def front_end(s):
    p = "%s/s.json" % S
    with open(p, "w") as f:
        json.dump(s, f)
    m = PyQuESo(p)
    m.Run()
    return m


class Facts:
    """what the model of QuESo has to offer, in plain numbers"""
    def __init__(self, p, s):
        g = s["background_grid_settings"]
        self.xyz, self.uvw = (g["lower_bound_xyz"], g["upper_bound_xyz"]), (g["lower_bound_uvw"], g["upper_bound_uvw"])
        self.elements = []
        for e in p.GetElements():
            q = sorted((i.x, i.y, i.z, i.weight) for i in e.GetIntegrationPoints() if i.weight > 0)
            if q:
                self.elements.append(q)
        self.elements.sort()
        self.conds = []
        by_id = {c["condition_id"]: c for c in s["conditions_settings_list"]}
        for c in p.GetConditions():
            cs = by_id[c.GetSettings().GetInt("condition_id")]
            self.conds.append((cs, [(tuple(t.p1), tuple(t.p2), tuple(t.p3)) for seg in c.GetSegments() for t in seg.GetTriangleMesh().Triangles()]))

    def to_param(self, x):
        (a, b), (u, v) = self.xyz, self.uvw
        return tuple(u[i] + (x[i] - a[i]) / (b[i] - a[i]) * (v[i] - u[i]) for i in range(3))

    def to_global(self, t):
        (a, b), (u, v) = self.xyz, self.uvw
        return tuple(a[i] + (t[i] - u[i]) / (v[i] - u[i]) * (b[i] - a[i]) for i in range(3))


def loads(cs, tris):
    """exact integrals of the load and of its products with 1, x, y, z, xx, xy, ..."""
    m = {}
    for a, b, c in tris:
        n2 = cross(sub(b, a), sub(c, a))
        area = 0.5 * norm(n2)
        if area == 0:
            continue
        if cs["condition_type"] == "PressureLoadCondition":
            t = tuple(-cs["modulus"] * x / (2 * area) for x in n2)
        else:
            d = cs["direction"]
            t = tuple(cs["modulus"] * x / norm(d) for x in d)
        for w, x in ((area / 3, tuple((p + q) / 2 for p, q in zip(*e))) for e in ((a, b), (b, c), (c, a))):
            add_moments(m, w, x, t)
    return m


def add_moments(m, w, x, t):
    mono = (1, x[0], x[1], x[2], x[0] * x[0], x[0] * x[1], x[0] * x[2], x[1] * x[1], x[1] * x[2], x[2] * x[2])
    for k, v in enumerate(mono):
        for i in range(3):
            m[k, i] = m.get((k, i), 0.0) + w * v * t[i]


def near(a, b, tol=1e-11):
    return all(abs(x - y) <= tol * (1 + abs(x) + abs(y)) for x, y in zip(a, b))


def judge_elements(r, mp, f):
    els = mp.Elements
    r.check(all(e.name == "SmallDisplacementElement3D8N" and e.Properties is mp.GetProperties()[1] and e.geometry.kind == "points" for e in els), "an element of another kind")
    got = sorted(sorted(e.geometry.data) for e in els)
    r.check(got == f.elements, "the %d elements of the model part do not have exactly the points and weights of the %d elements of the model" % (len(got), len(f.elements)))
    r.states += len(got)


def judge_conditions(r, mp, f, conds=None):
    """the supports: each triangle once; the loads: the integrals"""
    conds = f.conds if conds is None else conds
    todo = list(mp.Conditions)
    supports = [(cs, [t for t in tris]) for cs, tris in conds if "Support" in cs["condition_type"]]
    for cs, tris in supports:
        name = {"PenaltySupportCondition": "SupportPenaltyCondition", "LagrangeSupportCondition": "SupportLagrangeCondition"}[cs["condition_type"]]
        for t in tris:
            area = 0.5 * norm(cross(sub(t[1], t[0]), sub(t[2], t[0])))
            edge = max(norm(sub(t[i], t[i - 1])) for i in range(3))
            par = sorted(f.to_param(v) for v in t)
            hit = None
            for c in todo:
                if c.name == name and c.geometry.kind == "triangle" and near(c.GetValue(KM.DISPLACEMENT), cs["value"], 1e-14) and all(near(a, b, 1e-10) for a, b in zip(par, sorted(c.geometry.data))):
                    hit = c
                    if "penalty_factor" not in cs or c.Properties.GetValue(IGA.PENALTY_FACTOR) == cs["penalty_factor"]:
                        break
            if area > 2e-14 and edge * edge < 1e6 * area:
                r.check(hit is not None, "no %s with the value %s on the triangle %s" % (name, cs["value"], t))
                r.count("supported triangles")
            elif area < 1e-15:
                r.check(hit is None, "a negligible triangle %s got a condition" % (t,))
                r.count("negligible triangles")
            if hit is None:
                continue
            todo.remove(hit)
            r.states += 1
            if "penalty_factor" in cs:
                p = hit.Properties.GetValue(IGA.PENALTY_FACTOR)
                if p != cs["penalty_factor"]:
                    if p == [x["penalty_factor"] for x, t in conds if "penalty_factor" in x and t][-1]:   # of the last support
                        finding(r, "penalty-shared", "the conditions of a penalty support with the factor %g have the factor %g of another one" % (cs["penalty_factor"], p))
                    else:
                        r.fail("penalty factor %g instead of %g" % (p, cs["penalty_factor"]))
    want, got, scale = {}, {}, 1.0
    for cs, tris in conds:
        if "Load" in cs["condition_type"]:
            for k, v in loads(cs, tris).items():
                want[k] = want.get(k, 0.0) + v
            scale += abs(cs["modulus"]) * sum(0.5 * norm(cross(sub(t[1], t[0]), sub(t[2], t[0]))) for t in tris)
    for c in todo:
        r.check(c.name == "LoadCondition" and c.geometry.kind == "points" and len(c.geometry.data) == 1, "a condition %s that belongs to no condition of the model" % c.name)
        q = c.geometry.data[0]
        add_moments(got, 1.0, f.to_global(q[:3]), c.GetValue(SMA.POINT_LOAD))
        r.check(q[3] > 0 and math.isfinite(q[3]), "weight %g of a load" % q[3])
        r.states += 1
    far = max([1.0] + [abs(x) for b in f.xyz for x in b]) ** 2
    for k in sorted(set(want) | set(got)):
        r.check(abs(want.get(k, 0.0) - got.get(k, 0.0)) <= 1e-10 * scale * far, lambda: "moment %s of the loads is %.17g instead of %.17g" % (k, got.get(k, 0.0), want.get(k, 0.0)))
    r.count("load conditions", len(todo))


def judge_volume(r, mp, s):
    g, v = s["background_grid_settings"], mp.GetGeometry("NurbsVolume")
    r.check((list(v.lo), list(v.hi), list(v.u0), list(v.u1), list(v.order), list(v.spans)) == (g["lower_bound_xyz"], g["upper_bound_xyz"], g["lower_bound_uvw"], g["upper_bound_uvw"], [float(x) for x in g["polynomial_order"]], [float(x) for x in g["number_of_elements"]]),
            "the volume of the analysis has other bounds, orders or knot spans than the grid")


def judge_analysis(r, p, s, f, solid_tris, given=None, boxes=()):
    """one analysis; returns its contents for comparison"""
    kp = {"problem_data": {"echo_level": 0}, "solver_settings": {"model_part_name": "NurbsMesh"},
          "modelers": [{"modeler_name": "Other", "Parameters": {"a": 1}}, {"modeler_name": "NurbsGeometryModeler", "Parameters": {"model_part_name": "NurbsMesh", "geometry_name": "NurbsVolume"}}]}
    kf = S + "/k.json"
    with open(kf, "w") as g:
        json.dump(kp, g)
    if given is None:
        p.RunKratosAnalysis(kf)
        a = p.GetAnalysis()
    else:
        a = Analysis(p.GetSettings(), kf, p.GetElements(), given)
    mp = a.GetModelPart()
    r.check(mp.Name == "NurbsMesh", "model part ", lambda: mp.Name)
    judge_volume(r, mp, s)
    judge_elements(r, mp, f)
    judge_conditions(r, mp, f)
    lag = any(c["condition_type"] == "LagrangeSupportCondition" for c in s["conditions_settings_list"])
    want = {("DISPLACEMENT_" + x, "REACTION_" + x) for x in "XYZ"} | ({("VECTOR_LAGRANGE_MULTIPLIER_" + x, "VECTOR_LAGRANGE_MULTIPLIER_REACTION_" + x) for x in "XYZ"} if lag else set())
    r.check(set(mp.dofs) == want, "degrees of freedom ", lambda: mp.dofs)
    r.check({b.split("_")[0] for d in mp.dofs for b in d} <= {v.split("_")[0] for v in mp.variables} and {d[:-2] for x in mp.dofs for d in x} <= set(mp.variables), "a degree of freedom without its variable")
    em = a.model.GetModelPart("EmbeddedModelPart")
    judge_shell(r, em, solid_tris)
    r.traces += 1
    return sorted((e.Id, e.name, repr(e.geometry.data)) for e in mp.Elements), sorted((e.Id, e.name, repr(e.geometry.data), repr(e.d)) for e in mp.Conditions)


def judge_shell(r, mp, tris):
    got = sorted(tuple(n.xyz() for n in e.geometry) for e in mp.Elements)
    rot = lambda t: min(t, t[1:] + t[:1], t[2:] + t[:2])
    r.check(sorted(map(rot, got)) == sorted(rot(tuple(t)) for t in tris), "the triangles of the model part are not those of the mesh: ", lambda: (sorted(map(rot, got))[:2], sorted(rot(tuple(t)) for t in tris)[:2]))


def runs(r):
    singles = [[(k, s)] for k in range(len(KINDS)) for s in SURFACES]
    grids = [((1, 1, 1), (1, 1, 1)), ((2, 1, 1), (2, 2, 2)), ((1, 2, 3), (3, 1, 2))]
    cases = [(so, fr, pa, g, c, "Gauss") for so in SOLIDS for fr in FRAMES for pa in PARAMS for g in grids for c in [[]] + singles]
    few = [(k, s) for k in (0, 1, 2, 3, 5) for s in ("rect", "tilted", "single")]
    pairs = [list(c) for c in itertools.product(few, repeat=2)]
    cases += [("inner", fr, "far", grids[1], c, "Gauss") for fr in FRAMES for c in pairs]
    cases += [("slab", "moved", pa, ((2, 2, 2), (4, 3, 5)), [(0, "tilted"), (2, "rect"), (5, "closed")], m) for pa in PARAMS for m in ("Gauss", "Gauss_Reduced1", "Gauss_Reduced2", "GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2")]
    if r.thorough:
        cases += [("slab", "moved", "far", grids[2], list(c), "Gauss") for c in itertools.product([(k, s) for k in range(len(KINDS)) for s in ("tilted", "single")], repeat=3)]
    for so, fr, pa, (order, number), conds, method in cases:
        if not r.take():
            continue

        def body():
            s = settings(so, fr, pa, order, number, conds, method)
            p = front_end(s)
            refused(r, lambda: p.GetAnalysis(), "Kratos analysis has not been created", "the analysis of a front end that has not run one")
            f = Facts(p, s)
            a = judge_analysis(r, p, s, f, place(fr, SOLIDS[so]))
            b = judge_analysis(r, p, s, f, place(fr, SOLIDS[so]))
            r.check(a == b, "a second analysis of the same model differs")
            n = len(f.elements)
            r.count("models with %s elements" % ("no" if n == 0 else "1-9" if n < 10 else "10 or more"))
            r.transitions += n
            r.nontrivial((so, fr, pa, order, number, conds, method))
        r.run("solid %s frame %s parameters %s order %s elements %s %s conditions %s" % (so, fr, pa, order, number, method, [(KINDS[k][0], k, x) for k, x in conds]), body)


def refused(r, f, text, what):
    try:
        f()
    except Exception as e:
        r.check(text in str(e), "%s is refused with another message: %s: %s" % (what, type(e).__name__, e))
        r.count("refusals")
        return
    r.fail(what + " is not refused")


# ---------------------------------------------------------------- boxes
def nodes_of(n):
    return [(float(i), float(j), float(k)) for k in range(n) for j in range(n) for i in range(n)]


def effective(mp):
    """the force of each node: the point loads of the conditions (their own values and those of their nodes), as Kratos adds them"""
    f = {}
    for c in mp.Conditions:
        for n in c.geometry:
            v = [a + b for a, b in zip(c.GetValue(SMA.POINT_LOAD) or [0.0] * 3, n.nodal.GetValue(SMA.POINT_LOAD) or [0.0] * 3)]
            f[n.Id] = [a + b for a, b in zip(f.get(n.Id, [0.0] * 3), v)]
    return f


def boxes(r):
    cuts = (-0.5, 0.0, 0.5, 1.0, 1.5)   # also at and between nodes: the boundary does not belong to a box
    spans = [(a, b) for a in cuts for b in cuts if a <= b]
    boxes_all = [(x, y, z) for x in spans for y in spans for z in spans]
    few = [((-0.5, 1.5),) * 3, ((-0.5, 0.5), (-0.5, 1.5), (-0.5, 1.5)), ((0.5, 1.5), (-0.5, 1.5), (-0.5, 1.5)), ((-0.5, 1.5), (-0.5, 0.5), (0.5, 1.5)), ((0.0, 1.0), (-0.5, 1.5), (-0.5, 1.5)), ((0.5, 1.5), (0.5, 1.5), (0.5, 1.5)), ((-0.5, 0.5), (-0.5, 0.5), (-0.5, 1.5))]
    fixes = list(itertools.product((True, False), repeat=3))
    forces = [(6.0, -3.0, 0.75), (0.0, 0.0, -1.0)]
    one = [("D", b, d) for b in boxes_all for d in fixes] + [("N", b, q) for b in boxes_all for q in forces]
    ops = [("D", b, d) for b in few[:4] for d in ((True, False, True), (False, True, False))] + [("N", b, forces[0]) for b in few] + [("N", few[1], forces[1])]
    hist = [(o,) for o in one] + list(itertools.product(ops, repeat=2)) + list(itertools.product(ops, repeat=3 if not r.thorough else 4))
    ids = [3, 1, 4, 15, 9, 2, 6, 5]
    for h in hist:
        if not r.take():
            continue

        def body():
            mp = KM.ModelPart("NurbsMesh")
            pts = dict(zip(ids, nodes_of(2)))
            for i, x in pts.items():
                mp.CreateNewNode(i, *x)
            pre = len(h) % 2
            for i in range(pre):   # conditions that exist already
                mp.CreateNewCondition("Other", i + 1, [1], mp.GetProperties()[0])
            fixed, force, flawed, n = {i: set() for i in pts}, {}, {}, pre
            nodal = {}
            cnt = {}
            overlap = False
            for i, (kind, b, v) in enumerate(h):
                inside = [k for k, x in pts.items() if all(lo < x[d] < hi for d, (lo, hi) in enumerate(b))]
                lo, hi = [x[0] for x in b], [x[1] for x in b]
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    bc = (BB.DirichletCondition if kind == "D" else BB.NeumannCondition)(lo, hi, v)
                    r.check(bc.is_weak_condition() is False, "a condition of a box is said to be weak")
                    if i % 2:
                        MPU.add_conditions_to_model_part(mp, [bc], None, None)
                    else:
                        bc.apply(mp)
                if kind == "D":
                    for k in inside:
                        fixed[k] |= {"DISPLACEMENT_" + "XYZ"[d] for d in range(3) if v[d]}
                else:
                    r.check(bool(inside) or ws, "no warning for a box without nodes")
                    overlap |= any(k in force for k in inside)
                    for k in inside:
                        q = [x / len(inside) for x in v]
                        force[k] = [a + c for a, c in zip(force.get(k, [0.0] * 3), q)]
                        nodal[k] = q
                        cnt[k] = cnt.get(k, 0) + 1
                    n += len(inside)
                r.states += 1
            r.check({k: mp.GetNode(k).fixed for k in pts} == fixed, "fixed degrees of freedom ", lambda: "%s instead of %s" % ({k: mp.GetNode(k).fixed for k in pts}, fixed))
            for c in list(mp.conditions.values())[:pre]:
                c.name == "Other" and mp.conditions.pop(c.Id)
            got = effective(mp)
            ok = set(got) == set(force) and all(near(got[k], force[k], 1e-13) for k in got)
            if not ok and overlap and set(got) == set(force) and all(near(got[k], [cnt[k] * x for x in nodal[k]], 1e-13) for k in got):
                finding(r, "neumann-overlap", "nodes in two boxes with forces get the last force once for each box")
            else:
                r.check(ok, "forces ", lambda: "%s instead of %s" % (got, force))
                r.count("with overlapping boxes" if overlap else "without overlapping boxes")
            r.check(all(c.name == "PointLoadCondition3D1N" for c in mp.Conditions), "another kind of condition")
            r.transitions += len(h)
            r.nontrivial(repr(h))
        r.run("boxes " + "; ".join("%s %s %s" % x for x in h), body)


# ---------------------------------------------------------------- meshes
def meshes(r):
    V = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.25), (0.0, 1.0, -0.5), (0.25, 0.5, 2.0)]
    verts = [V, V + [V[0]], [V[1], V[1], V[0], V[2]], V[::-1] + [(7.0, 7.0, 7.0)], [],
             [(1.0, 1e-9, 1e-300), (1.0, 0.0, 0.0), (1.0 + 2e-16, 0.0, 1e-12), (1.0, 1e-9, 2e-9)], [(1e7, 0.0, 0.0), (1e7 + 1e-3, 0.0, 0.0), (1e7, 1e-4, 1e3), (-1e-7, 1e-7, 1e12)]]   # close together
    T = lambda n: [t for t in itertools.permutations(range(n), 3) if t[0] == min(t)]
    for vi, vs in enumerate(verts):
        ts = T(len(vs))
        sets = [()] + [(a,) for a in ts] + [(a, b) for a in ts for b in ts] + ([(a, b, c) for a in ts for b in ts for c in ts] if r.thorough else [])
        for tset in sets:
            if not r.take():
                continue

            def body():
                m = Q.TriangleMesh()
                for v in vs:
                    m.AddVertex(v)
                for t in tset:
                    m.AddTriangle(list(t))
                want = [tuple(vs[i] for i in t) for t in tset]
                mp = KM.ModelPart("A")
                MPU.read_model_part_from_triangle_mesh(mp, m)
                judge_shell(r, mp, want)
                r.check({n.xyz() for n in mp.Nodes} >= {v for t in want for v in t} and mp.NumberOfNodes() <= len(vs), "nodes ", lambda: [n.xyz() for n in mp.Nodes])
                back = Q.TriangleMesh()
                old = []
                for step in (1, 2, 3):   # into an empty mesh, then into one that begins with other triangles
                    if step == 2:
                        back, old = Q.TriangleMesh(), [((9.0, 0.0, 0.0), (9.0, 1.0, 0.0), (9.0, 0.0, 1.0))]
                        for v in old[0]:
                            back.AddVertex(v)
                        back.AddTriangle([0, 1, 2])
                    MPU.read_triangle_mesh_grom_model_part(back, mp)
                    old = old + want
                    got = [(tuple(t.p1), tuple(t.p2), tuple(t.p3)) for t in back.Triangles()]
                    r.check(got == old, "mesh read back, pass %d: %s instead of %s" % (step, got, old))
                    r.states += 1
                # conditions, with other ids of the nodes
                mp2 = KM.ModelPart("B")
                num = {i: 100 - 7 * i for i in range(len(vs))}
                for i, v in enumerate(vs):
                    mp2.CreateNewNode(num[i], *v)
                for k, t in enumerate(tset):
                    mp2.CreateNewCondition("SurfaceCondition3D3N", 5 * k + 3, [num[i] for i in t], mp2.GetProperties()[1])
                c = Q.TriangleMesh()
                MPU.read_triangle_mesh_grom_model_part(c, mp2, "Conditions")
                r.check([(tuple(t.p1), tuple(t.p2), tuple(t.p3)) for t in c.Triangles()] == want, "mesh read from conditions")
                e = Q.TriangleMesh()
                MPU.read_triangle_mesh_grom_model_part(e, mp2, "Elements")
                r.check(e.NumOfTriangles() == 0, "triangles of a model part without elements")
                for t in ("elements", "", "Nodes"):
                    refused(r, lambda: MPU.read_triangle_mesh_grom_model_part(Q.TriangleMesh(), mp2, t), "not available", "the kind of entities %r" % t)
                if len(vs) >= 4:
                    for k in (4, 2, 1):
                        mq = KM.ModelPart("C")
                        for i, v in enumerate(vs):
                            mq.CreateNewNode(num[i], *v)
                        mq.CreateNewElement("Other", 1, [num[i] for i in range(k)], mq.GetProperties()[1])
                        refused(r, lambda: MPU.read_triangle_mesh_grom_model_part(Q.TriangleMesh(), mq), "only allows triangles", "an element with %d nodes" % k)
                r.traces += 3
                r.nontrivial((vi, tset))
            r.run("mesh vertices %d triangles %s" % (vi, tset), body)


# ---------------------------------------------------------------- histories of one model part
def histories(r):
    spec = {"A": settings("inner", "unit", "far", (2, 1, 1), (2, 2, 2), [(0, "single"), (3, "rect")]), "B": settings("slab", "unit", "far", (2, 1, 1), (2, 2, 2), [(2, "tilted"), (5, "closed")])}
    model = {k: front_end(s) for k, s in spec.items()}
    fact = {k: Facts(model[k], s) for k, s in spec.items()}
    ops = ["elements A", "elements B", "conditions A", "conditions B", "no elements", "no conditions", "box"]
    for h in itertools.product(ops, repeat=5 if r.thorough else 4):
        if not r.take():
            continue

        def body():
            mp = KM.ModelPart("NurbsMesh")
            g = spec["A"]["background_grid_settings"]
            mp.geometries["NurbsVolume"] = K.NurbsVolume(g["lower_bound_xyz"], g["upper_bound_xyz"], g["lower_bound_uvw"], g["upper_bound_uvw"], (2, 1, 1), (2, 2, 2))
            mp.CreateNewNode(1, 0.5, 0.5, 0.5)
            els, conds, pts = None, [], 0
            for o in h:
                what, _, k = o.partition(" ")
                if what == "elements":
                    if els is not None:
                        continue
                    MPU.add_elements_to_model_part(mp, model[k].GetElements())
                    els = k
                elif what == "conditions":
                    MPU.add_conditions_to_model_part(mp, model[k].GetConditions(), fact[k].xyz, fact[k].uvw)
                    conds = conds + fact[k].conds
                elif o == "no elements":
                    MPU.remove_all_elements(mp)
                    els = None
                elif o == "no conditions":
                    MPU.remove_all_conditions(mp)
                    conds, pts = [], 0
                else:
                    MPU.add_conditions_to_model_part(mp, [BB.NeumannCondition((0, 0, 0), (1, 1, 1), (1, 2, 3))], fact["A"].xyz, fact["A"].uvw)
                    pts += 1
                r.transitions += 1
                f = fact[els or "A"]
                if els is None:
                    r.check(mp.NumberOfElements() == 0, "elements remain")
                else:
                    judge_elements(r, mp, f)
                mine = [c.Id for c in mp.Conditions if c.name == "PointLoadCondition3D1N"]
                r.check(len(mine) == pts, "%d point loads instead of %d" % (len(mine), pts))
                held = {i: mp.conditions.pop(i) for i in mine}
                judge_conditions(r, mp, f, conds)
                mp.conditions.update(held)
            r.nontrivial(h)
        r.run("history " + ", ".join(h), body)


def refusals(r):
    tri = Q.TriangleMesh()
    for v in ((0, 0, 0), (1, 0, 0), (0, 1, 0)):
        tri.AddVertex([float(x) for x in v])
    tri.AddTriangle([0, 1, 2])
    b = ((0, 0, 0), (1, 1, 1))
    for d in itertools.product((0.0, 1e-11, -1e-12, 1e-9, 1.0), repeat=3):
        if not r.take():
            continue

        def body():
            s = settings("inner", "unit", "unit", (1, 1, 1), (1, 1, 1), [(3, "rect")])
            s["conditions_settings_list"][0]["direction"] = list(d)
            p = front_end(s)
            mp = KM.ModelPart("NurbsMesh")
            mp.geometries["NurbsVolume"] = K.NurbsVolume(b[0], b[1], b[0], b[1], (1, 1, 1), (1, 1, 1))
            n = norm(d)
            add = lambda: MPU.add_conditions_to_model_part(mp, p.GetConditions(), b, b)
            if n < 0.9e-10:
                refused(r, add, "direction", "a surface load in the direction %s" % (d,))
                r.check(mp.NumberOfConditions() == 0, "conditions remain after the refusal")
            elif n > 1.1e-10:
                add()
                judge_conditions(r, mp, Facts(p, s))
            r.states += 1
            r.nontrivial(d)
        r.run("direction %s" % (d,), body)
    for t in ("PressureLoad", "pressureloadcondition", "NoSuchCondition", "", "SupportPenaltyCondition"):
        for first in (False, True):
            if not r.take():
                continue

            def body():
                s = settings("inner", "unit", "unit", (1, 1, 1), (1, 1, 1), [(5, "rect"), (5, "rect")])
                s["conditions_settings_list"][0 if first else 1]["condition_type"] = t
                p = front_end(s)
                mp = KM.ModelPart("NurbsMesh")
                mp.geometries["NurbsVolume"] = K.NurbsVolume(b[0], b[1], b[0], b[1], (1, 1, 1), (1, 1, 1))
                refused(r, lambda: MPU.add_conditions_to_model_part(mp, p.GetConditions(), b, b), "is not available", "the condition type %r" % t)
                r.check(mp.NumberOfConditions() == 0, "conditions remain after the refusal")
                r.nontrivial((t, first))
            r.run("condition type %r first %s" % (t, first), body)
    if r.take():
        def body():
            p = front_end(settings("inner", "unit", "unit", (1, 1, 1), (1, 1, 1), []))
            saved = {k: sys.modules[k] for k in K.ALL}
            try:
                for k in K.ALL:
                    sys.modules[k] = None
                refused(r, p.RunKratosAnalysis, "Kratos is not available", "an analysis without Kratos")
            finally:
                sys.modules.update(saved)
            refused(r, p.GetAnalysis, "Kratos analysis has not been created", "the analysis after a failure")
            r.nontrivial("no Kratos")
        r.run("without Kratos", body)
    for h in itertools.product(range(3), repeat=3):   # boxes and conditions of the model in one analysis
        if not r.take():
            continue

        def body():
            s = settings("slab", "unit", "unit", (1, 1, 1), (2, 1, 1), [(2, "rect"), (5, "tilted")])
            p = front_end(s)
            cs = list(p.GetConditions())
            given = []
            for x in h:
                given += [cs[:1], cs[1:], [BB.DirichletCondition((-1, -1, -1), (2, 2, 2), (1, 1, 1))]][x]
            f = Facts(p, s)
            every = f.conds
            f.conds = [every[x] for x in h if x < 2]
            judge_analysis(r, p, s, f, place("unit", SOLIDS["slab"]), given=given)
            r.nontrivial(h)
        r.run("analysis with the conditions %s" % (h,), body)


def main():
    r = Run(sys.argv[1:])
    try:
        for name in ("runs", "boxes", "meshes", "histories", "refusals"):
            if name in r.args:
                globals()[name](r)
    finally:
        shutil.rmtree(S, ignore_errors=True)
    return r.finish()


sys.exit(main())
