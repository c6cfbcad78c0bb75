"""C28: models created by the Python front end compared with exact references, and every history of dropping the objects an object came from."""
import os, sys
if os.environ.get("MALLOC_PERTURB_") != "165":   # freed memory is overwritten, so that stale objects change
    os.environ["MALLOC_PERTURB_"] = "165"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import contextlib, gc, io, itertools, json, math, re
from fractions import Fraction as F
from vp_py import Run, Stop
with contextlib.redirect_stdout(io.StringIO()):
    import QuESoPythonModule as Q
    from QuESoPythonModule.PyQuESo import PyQuESo
import numpy as np

IM, GT = Q.IntegrationMethod, Q.GridType
METHODS = {"Gauss": IM.Gauss, "Gauss_Reduced1": IM.Gauss_Reduced1, "Gauss_Reduced2": IM.Gauss_Reduced2, "GGQ_Optimal": IM.GGQ_Optimal, "GGQ_Reduced1": IM.GGQ_Reduced1, "GGQ_Reduced2": IM.GGQ_Reduced2}
SCR = os.path.join(os.environ.get("VP_SCRATCH", "/tmp"), "c28-%d" % os.getpid())


def voxels(mask):
    return [(b & 1, b >> 1 & 1, b >> 2) for b in range(8) if mask >> b & 1]


def faces(mask):
    """boundary quads of the voxel solid, oriented outwards, in voxel coordinates"""
    V = set(voxels(mask))
    for v in V:
        for d in range(3):
            for s in (0, 1):
                n = list(v); n[d] += 2 * s - 1
                if tuple(n) in V:
                    continue
                e, f = (d + 1) % 3, (d + 2) % 3
                q = []
                for a, b in ((0, 0), (1, 0), (1, 1), (0, 1)):
                    p = list(v); p[d] += s; p[e] += a; p[f] += b
                    q.append(tuple(p))
                yield q if s else q[::-1]


def manifold(mask):
    use = {}
    for q in faces(mask):
        for a, b in zip(q, q[1:] + q[:1]):
            use[frozenset((a, b))] = use.get(frozenset((a, b)), 0) + 1
    if any(n != 2 for n in use.values()):
        return False
    # corners: diagonally opposite voxels only
    V = set(voxels(mask))
    return not any(len([v for v in V]) == 2 and all(x != y for x, y in zip(*V)) for _ in (0,))


def write_stl(path, tris):
    with open(path, "w") as f:
        f.write("solid s\n")
        for t in tris:
            f.write("facet normal 0 0 0\nouter loop\n" + "".join("vertex %.9g %.9g %.9g\n" % tuple(p) for p in t) + "endloop\nendfacet\n")
        f.write("endsolid s\n")


def quads(qs):
    for q in qs:
        yield (q[0], q[1], q[2])
        yield (q[0], q[2], q[3])


O, H = (-0.5, 0.25, 1.0), (1.0, 0.5, 2.0)   # origin and size of a voxel (exact in single precision)


def pos(p):
    return tuple(o + h * x for o, h, x in zip(O, H, p))


GRIDS = {"aligned": (O, tuple(o + 2 * h for o, h in zip(O, H)), (2, 2, 2)), "fine": (O, tuple(o + 2 * h for o, h in zip(O, H)), (4, 4, 4)), "one": ((-1, 0, 0), (2, 2, 6), (1, 1, 1)),
         "shifted": ((-0.75, 0.0, 0.5), (1.75, 1.5, 5.5), (3, 4, 2)), "skew": ((-0.6, 0.2, 0.7), (1.6, 1.4, 5.3), (2, 3, 3)), "rods": ((-0.5, 0.25, 1.0), (1.5, 1.25, 5.0), (4, 1, 2))}
# condition rectangles: (fixed direction, value, [lower, upper] of the other two), in x, y, z
CONDS = [(2, 4.4, ((-0.5, 0.25), (1.5, 1.25))), (0, 0.3, ((0.25, 1.0), (1.25, 5.0))), (1, 0.7, ((-0.5, 1.0), (1.0, 4.0))), (2, 1.3, ((-0.25, 0.4), (0.35, 0.6)))]


def rect(c):
    d, v, (lo, hi) = c
    o = [i for i in range(3) if i != d]
    def p(a, b):
        x = [0, 0, 0]; x[d] = v; x[o[0]] = a; x[o[1]] = b
        return tuple(x)
    return [p(lo[0], lo[1]), p(hi[0], lo[1]), p(hi[0], hi[1]), p(lo[0], hi[1])]


class Model:
    """settings, files and exact reference of one model"""
    def __init__(self, tag, mask, grid, gtype, method, order, conds, output=False):
        self.mask, self.gtype, self.method, self.order, self.conds = mask, gtype, method, order, conds
        self.lo, self.hi, self.n = GRIDS[grid]
        self.ulo, self.uhi = ((0.0, -1.0, 2.0), (3.0, 1.0, 2.5)) if gtype == "b_spline_grid" else ((-1.0, -1.0, -1.0), (1.0, 1.0, 1.0))
        self.dir = os.path.join(SCR, tag)
        os.makedirs(self.dir, exist_ok=True)
        write_stl(self.dir + "/s.stl", quads([pos(p) for p in q] for q in faces(mask)))
        self.settings = {"general_settings": {"input_filename": self.dir + "/s.stl", "write_output_to_file": output, "echo_level": 0},
                         "background_grid_settings": {"grid_type": gtype, "lower_bound_xyz": list(map(float, self.lo)), "upper_bound_xyz": list(map(float, self.hi)), "lower_bound_uvw": list(self.ulo),
                                                      "upper_bound_uvw": list(self.uhi), "polynomial_order": list(order), "number_of_elements": list(self.n)},
                         "trimmed_quadrature_rule_settings": {"moment_fitting_residual": 1e-10, "min_element_volume_ratio": 0.0, "min_num_boundary_triangles": 50},
                         "non_trimmed_quadrature_rule_settings": {"integration_method": method}, "conditions_settings_list": []}
        for k, c in enumerate(conds):
            write_stl(self.dir + "/c%d.stl" % k, quads([rect(CONDS[c])]))
            self.settings["conditions_settings_list"].append(dict({"condition_id": 10 * k + c, "input_filename": self.dir + "/c%d.stl" % k, "condition_type": "type %d" % c},
                                                                  **({"value": [1.0 * k, 0.5, -c], "penalty_factor": 1e10} if k % 2 == 0 else {"modulus": 2.5 * k})))
        self.json = self.dir + "/QuESoSettings.json"
        with open(self.json, "w") as f:
            json.dump(self.settings, f)

    def run(self):
        p = PyQuESo(self.json)
        p.Run()
        return p

    def cell(self, i):
        ix = (i % self.n[0], i // self.n[0] % self.n[1], i // self.n[0] // self.n[1])
        f = lambda lo, hi: [(lo[d] + (hi[d] - lo[d]) * ix[d] / self.n[d], lo[d] + (hi[d] - lo[d]) * (ix[d] + 1) / self.n[d]) for d in range(3)]
        if self.gtype == "b_spline_grid":
            return f(self.lo, self.hi), f(self.ulo, self.uhi)
        return f(self.lo, self.hi), [(self.ulo[d], self.uhi[d]) for d in range(3)]

    def moments(self, b):
        """volume and first moments of the material within the box b"""
        m = [0.0] * 4
        for v in voxels(self.mask):
            lo, hi = pos(v), pos([x + 1 for x in v])
            l = [max(lo[d], b[d][0]) for d in range(3)]
            u = [min(hi[d], b[d][1]) for d in range(3)]
            if any(u[d] <= l[d] for d in range(3)):
                continue
            vol = math.prod(u[d] - l[d] for d in range(3))
            m[0] += vol
            for d in range(3):
                m[d + 1] += vol * (u[d] + l[d]) / 2
        return m


def close(a, b, tol):
    return abs(a - b) <= tol


def printed(q, want):
    """The text of a point names its numbers, to the six digits in which streams print."""
    have = [float(x) for x in re.findall(r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?", repr(q))]
    return len(have) == len(want) and all(close(a, b, 1e-12 + 1e-5 * abs(b)) for a, b in zip(have, want))


def examine(r, m, p):
    s = p.GetSettings()
    # settings
    g = s["background_grid_settings"]
    r.check(g.GetDoubleVector("lower_bound_xyz") == list(m.lo) and g.GetDoubleVector("upper_bound_xyz") == list(m.hi) and g.GetDoubleVector("lower_bound_uvw") == list(m.ulo)
            and g.GetDoubleVector("upper_bound_uvw") == list(m.uhi) and g.GetIntVector("number_of_elements") == list(m.n) and g.GetIntVector("polynomial_order") == list(m.order), "settings of the grid differ")
    r.check(s["general_settings"].GetString("input_filename") == m.dir + "/s.stl" and s["non_trimmed_quadrature_rule_settings"].GetIntegrationMethod("integration_method") == METHODS[m.method], "settings differ")
    # elements
    els = p.GetElements()
    ncell = math.prod(m.n)
    ids = [e.ID() for e in els]
    r.check(len(set(ids)) == len(ids) and all(1 <= i <= ncell for i in ids), "element ids ", ids)
    by = {e.ID(): e for e in els}
    npts = [0, 0]
    total = 0.0
    allpts = []
    ntrim = 0
    fullvol = fullparam = 0.0
    for i in range(ncell):
        x, u = m.cell(i)
        mom = m.moments(x)
        vol = math.prod(b - a for a, b in x)
        frac = mom[0] / vol
        r.check((frac > 1e-9) == (i + 1 in by), "cell %d with %g of its volume in the solid is %s" % (i, frac, "active" if i + 1 in by else "inactive"))
        if i + 1 not in by:
            continue
        e = by[i + 1]
        tx = 1e-13 * max(1, max(abs(c) for q in x for c in q))
        for got, want in ((e.LowerBoundXYZ(), [q[0] for q in x]), (e.UpperBoundXYZ(), [q[1] for q in x]), (e.LowerBoundUVW(), [q[0] for q in u]), (e.UpperBoundUVW(), [q[1] for q in u])):
            r.check(len(got) == 3 and all(close(a, b, tx) for a, b in zip(got, want)), "bounds of element %d: %s instead of %s" % (i + 1, got, want))
        trimmed = e.IsTrimmed()
        ntrim += trimmed
        r.check(trimmed or frac > 1 - 1e-9, "element %d with %g of its volume in the solid is not trimmed" % (i + 1, frac))
        r.check(not trimmed or frac < 1 - 1e-9 or any(abs(x[d][k] - (O[d] + j * H[d])) < 1e-9 for d in range(3) for k in (0, 1) for j in range(3)), "element %d is trimmed although no surface passes" % (i + 1))
        pts = e.GetIntegrationPoints()
        allpts += [(q.x, q.y, q.z, q.weight) for q in pts]
        npts[trimmed] += len(pts)
        detj = vol / math.prod(b - a for a, b in u)
        got = [0.0] * 4
        for k in range(len(pts)):
            q = pts[k]
            r.check(len(q) == 3 and list(q) == [q.x, q.y, q.z] == [q[0], q[1], q[2]] == [q[-3], q[-2], q[-1]], "coordinates of a point")
            r.check(printed(q, [q.x, q.y, q.z, q.weight]), "text of a point ", repr(q))
            r.check(all(u[d][0] - 1e-12 <= q[d] <= u[d][1] + 1e-12 for d in range(3)), "point of element %d outside its cell" % (i + 1))
            w = q.weight * detj
            y = [x[d][0] + (q[d] - u[d][0]) * (x[d][1] - x[d][0]) / (u[d][1] - u[d][0]) for d in range(3)]
            got[0] += w
            for d in range(3):
                got[d + 1] += w * y[d]
        total += got[0]
        if trimmed or m.method.startswith("Gauss"):
            scale = max(1.0, max(abs(c) for q in x for c in q))
            r.check(all(close(a, b, 1e-6 * vol * scale) for a, b in zip(got, mom)), "moments of element %d: %s instead of %s" % (i + 1, got, mom))
        if not trimmed:
            fullvol += vol
            fullparam += got[0]
            if m.method == "Gauss":
                rule = [np.polynomial.legendre.leggauss(o + 1) for o in m.order]
                want = sorted(tuple(u[d][0] + (u[d][1] - u[d][0]) * (rule[d][0][j[d]] + 1) / 2 for d in range(3)) + (math.prod(rule[d][1][j[d]] * (u[d][1] - u[d][0]) / 2 for d in range(3)),)
                              for j in itertools.product(*[range(o + 1) for o in m.order]))
                have = sorted((q.x, q.y, q.z, q.weight) for q in pts)
                r.check(len(have) == len(want) and np.allclose(have, want, rtol=0, atol=1e-11), "Gauss points of element %d" % (i + 1))
        r.states += 1
        r.transitions += len(pts)
    if not m.method.startswith("Gauss") and fullvol:
        r.check(close(fullparam, fullvol, 1e-9 * fullvol), "weights of all full cells give the volume %g instead of %g" % (fullparam, fullvol))
    want = m.moments([(a, b) for a, b in zip(m.lo, m.hi)])[0]
    r.check(close(total, want, 1e-6 * want), "volume %g instead of %g" % (total, want))
    ip = p.GetIntegrationPoints()
    r.check(sorted((q.x, q.y, q.z, q.weight) for q in ip) == sorted(t for t in allpts if t[3] > 0), "the list of all integration points has %d of %d points" % (len(ip), len(allpts)))
    # information
    mi = p.GetModelInfo()
    b, q, v = mi["background_grid_info"], mi["quadrature_info"], mi["embedded_geometry_info"]
    solid = len(voxels(m.mask)) * math.prod(H)
    info = (b.GetInt("num_active_elements"), b.GetInt("num_trimmed_elements"), b.GetInt("num_full_elements"), b.GetInt("num_inactive_elements"), q.GetInt("tot_num_points"))
    r.check(info == (len(els), ntrim, len(els) - ntrim, ncell - len(els), sum(npts)), "model information: counts ", info)
    r.check(close(q.GetDouble("represented_volume"), total, 1e-9 * total) and close(v.GetDouble("volume"), solid, 1e-6 * solid) and v.GetBool("is_closed")
            and close(q.GetDouble("percentage_of_geometry_volume"), 100 * total / solid, 1e-4), "model information: volumes")
    for k, (name, cnt) in enumerate((("num_of_points_per_full_element", len(els) - ntrim), ("num_of_points_per_trimmed_element", ntrim))):
        r.check(close(q.GetDouble(name), npts[k] / cnt if cnt else 0, 1e-9), "model information: ", name)
    # times
    ti = mi["elapsed_time_info"]
    vt, ct, wt = (ti[k] for k in ("volume_time_info", "conditions_time_info", "write_files_time_info"))
    parts = [vt.GetDouble(k) for k in ("classification_of_elements", "computation_of_intersections", "solution_of_moment_fitting_eqs", "construction_of_ggq_rules")]
    tot = [t.GetDouble("total") if t.IsSet("total") else 0.0 for t in (vt, ct, wt)]
    r.check(all(math.isfinite(t) and t >= 0 for t in parts + tot) and sum(parts) <= tot[0] + 1e-3 and close(ti.GetDouble("total"), sum(tot), 1e-9) and (tot[1] == 0 or len(m.conds) > 0), "times of the model: ", parts, " ", tot, " ", ti.GetDouble("total"))
    # conditions
    cs = p.GetConditions()
    il = mi.GetList("conditions_infos_list")
    sl = s.GetList("conditions_settings_list")
    r.check(len(cs) == len(il) == len(sl) == len(m.conds), "%d conditions, %d informations, %d settings instead of %d" % (len(cs), len(il), len(sl), len(m.conds)))
    for k, c in enumerate(cs):
        d, val, (lo, hi) = CONDS[m.conds[k]]
        o = [i for i in range(3) if i != d]
        want = m.settings["conditions_settings_list"][k]
        for t in (c.GetSettings(), sl[k]):
            r.check(t.GetInt("condition_id") == want["condition_id"] and t.GetString("condition_type") == want["condition_type"] and t.GetString("input_filename") == want["input_filename"]
                    and t.IsSet("value") == ("value" in want) and t.IsSet("modulus") == ("modulus" in want) and not t.IsSet("direction"), "settings of condition %d" % k)
            r.check(t.GetDoubleVector("value") == want["value"] if "value" in want else t.GetDouble("modulus") == want["modulus"], "values of condition %d" % k)
        area = (hi[0] - lo[0]) * (hi[1] - lo[1])
        expect = {}
        for i in range(ncell):
            x, u = m.cell(i)
            if not x[d][0] < val < x[d][1]:
                continue
            a = math.prod(max(0.0, min(hi[j], x[o[j]][1]) - max(lo[j], x[o[j]][0])) for j in (0, 1))
            if a > 1e-9:
                expect[i] = a
        segs = c.GetSegments()
        r.check(c.NumberOfSegments() == len(segs) == len(list(segs)), "number of segments")
        found = {}
        for sg in segs:
            mesh = sg.GetTriangleMesh()
            tr = list(mesh.Triangles())
            vs = list(mesh.Vertices())
            r.check(len(tr) == mesh.NumOfTriangles() > 0 and len(vs) == mesh.NumOfVertices(), "counts of a segment mesh")
            tot = 0.0
            cell = None
            for t in tr:
                ps = np.array([t.p1, t.p2, t.p3])
                n = np.cross(ps[1] - ps[0], ps[2] - ps[0])
                a = np.linalg.norm(n) / 2
                r.check(close(t.Area(), a, 1e-12) and np.allclose(t.Center(), ps.mean(axis=0), atol=1e-12), "area or centre of a triangle")
                if a > 1e-6:
                    want_n = [0.0, 0.0, 0.0]; want_n[d] = -1.0 if d == 1 else 1.0   # the rectangles are oriented along (other, other) in the order x, y, z
                    r.check(np.allclose(t.normal, want_n, atol=1e-6) and np.allclose(n / (2 * a), want_n, atol=1e-6), "normal of a triangle ", t.normal, n / (2 * a))
                    ctr = t.Center()
                    ix = [min(m.n[j] - 1, int((ctr[j] - m.lo[j]) / (m.hi[j] - m.lo[j]) * m.n[j])) for j in range(3)]
                    ci = ix[0] + m.n[0] * (ix[1] + m.n[1] * ix[2])
                    r.check(cell is None or cell == ci, "triangles of a segment in several cells")
                    cell = ci
                for meth in range(4):
                    bp = t.GetIPsGlobal(meth)
                    r.check(len(bp) > 0 and close(sum(z.weight for z in bp), a, 1e-12 + 1e-9 * a) and (a < 1e-9 or all(np.allclose(z.normal, t.normal, atol=1e-9) for z in bp)), "surface points of a triangle ", meth, " ", len(bp), " ", sum(z.weight for z in bp), " ", a, " ", [z.normal for z in bp], t.normal, ps)
                    for z in bp:
                        r.check(len(z) == 3 and list(z) == [z.x, z.y, z.z] == [z[0], z[1], z[2]] == [z[-3], z[-2], z[-1]] and printed(z, [z.x, z.y, z.z, z.weight, *z.normal]), "coordinates or text of a surface point ", repr(z))
                    r.check(all(close(sum(z.weight * z[j] for z in bp), a * ps.mean(axis=0)[j], 1e-9) for j in range(3)), "first moments of the surface points")
                    if meth:
                        r.check(np.allclose(sum(z.weight * np.outer(list(z), list(z)) for z in bp), a / 12 * (ps.T @ ps + 9 * np.outer(ps.mean(axis=0), ps.mean(axis=0))), rtol=0, atol=1e-9), "second moments of the surface points of method ", meth)
                tot += a
                r.transitions += 1
            r.check(all(any(tuple(q) == v for v in vs) for t in tr for q in (t.p1, t.p2, t.p3)), "triangle corners that are no vertices")
            r.check(close(Q.MeshUtil.Area(mesh), tot, 1e-9), "area of the mesh")
            if cell is not None:
                r.check(cell not in found, "two segments in one cell")
                found[cell] = tot
        r.check(set(found) == set(expect) and all(close(found[i], expect[i], 1e-6 * area) for i in expect), "segments of condition %d: %s instead of %s" % (k, found, expect))
        inf = il[k]
        act = sum(a for i, a in expect.items() if i + 1 in by)
        r.check(inf.GetInt("condition_id") == want["condition_id"] and close(inf.GetDouble("surf_area"), area, 1e-6 * area)
                and close(inf.GetDouble("perc_surf_area_in_active_domain"), 100 * act / area, 1e-4), "information of condition %d" % k)
        r.states += 1
    # the same again: asking changes nothing
    r.check([e.ID() for e in p.GetElements()] == ids and len(p.GetConditions()) == len(cs), "a second list of elements differs")
    v = p.GetBSplineVolume("open_knot_vector")
    r.check(v.NumberControlPointsInU() == m.n[0] + m.order[0] and v.NumberControlPointsInW() == m.n[2] + m.order[2], "B-spline volume")


def models(r):
    masks = [k for k in range(1, 256) if manifold(k)]
    cfgs = [(g, t, me, o, c) for g in GRIDS for t in ("b_spline_grid", "hexahedral_fe_grid") for me in METHODS for o in ((1, 1, 1), (2, 2, 2), (2, 1, 3), (3, 2, 2)) for c in ((), (0,), (1, 2), (3, 0, 1), (2, 2))
            if (t == "b_spline_grid" and min(o) > 1 or me.startswith("Gauss")) and (me != "Gauss_Reduced2" or min(o) > 1) and (min(o) > 1 or me != "Gauss_Reduced1" or True)]
    few = [0xff, 0x7f, 0x01, 0x33, 0x17]
    todo = [(k, c) for c in range(len(cfgs)) for k in (few if r.thorough else few[:2])] + [(k, (7 * i + j * 31) % len(cfgs)) for i, k in enumerate(masks) for j in range(12 if r.thorough else 3)]
    for k, ci in todo:
        if not r.take():
            continue
        g, t, me, o, c = cfgs[ci]

        def body():
            m = Model("m", k, g, t, me, o, c)
            examine(r, m, m.run())
            r.nontrivial((k, ci))
        r.run("voxels %d grid %s %s %s order %s conditions %s" % (k, g, t, me, o, c), body)


# ---- lifetimes: how an object is obtained, as a chain of steps from the front end
def pick_tri(x):
    return next(iter(x))


CHAINS = {
    "element": ["GetElements()", "[-1]"],
    "points of an element": ["GetElements()", "[-1]", "GetIntegrationPoints()"],
    "point": ["GetElements()", "[-1]", "GetIntegrationPoints()", "[-1]"],
    "iterator over points": ["GetElements()", "[0]", "GetIntegrationPoints()", "iter"],
    "point from an iterator": ["GetElements()", "[0]", "GetIntegrationPoints()", "iter", "next"],
    "coordinates of a point": ["GetElements()", "[0]", "GetIntegrationPoints()", "[0]", "iter"],
    "all points": ["GetIntegrationPoints()"],
    "point of all": ["GetIntegrationPoints()", "[-1]"],
    "conditions": ["GetConditions()"],
    "condition": ["GetConditions()", "[1]"],
    "settings of a condition": ["GetConditions()", "[0]", "GetSettings()"],
    "segments": ["GetConditions()", "[0]", "GetSegments()"],
    "segment": ["GetConditions()", "[0]", "GetSegments()", "[0]"],
    "iterator over segments": ["GetConditions()", "[0]", "GetSegments()", "iter"],
    "segment from an iterator": ["GetConditions()", "[0]", "GetSegments()", "iter", "next"],
    "mesh of a segment": ["GetConditions()", "[0]", "GetSegments()", "[0]", "GetTriangleMesh()"],
    "iterator over triangles": ["GetConditions()", "[0]", "GetSegments()", "[0]", "GetTriangleMesh()", "Triangles()"],
    "triangle": ["GetConditions()", "[0]", "GetSegments()", "[0]", "GetTriangleMesh()", "Triangles()", "next"],
    "iterator over vertices": ["GetConditions()", "[0]", "GetSegments()", "[0]", "GetTriangleMesh()", "Vertices()"],
    "surface points": ["GetConditions()", "[0]", "GetSegments()", "[0]", "GetTriangleMesh()", "Triangles()", "next", "GetIPsGlobal(1)"],
    "surface point": ["GetConditions()", "[0]", "GetSegments()", "[0]", "GetTriangleMesh()", "Triangles()", "next", "GetIPsGlobal(1)", "[0]"],
    "settings": ["GetSettings()"],
    "part of the settings": ["GetSettings()", "['background_grid_settings']"],
    "list of condition settings": ["GetSettings()", "GetList('conditions_settings_list')"],
    "condition settings": ["GetSettings()", "GetList('conditions_settings_list')", "[1]"],
    "iterator over condition settings": ["GetSettings()", "GetList('conditions_settings_list')", "iter"],
    "condition settings from an iterator": ["GetSettings()", "GetList('conditions_settings_list')", "iter", "next"],
    "information": ["GetModelInfo()"],
    "part of the information": ["GetModelInfo()", "['background_grid_info']"],
    "nested part of the information": ["GetModelInfo()", "['elapsed_time_info']", "['volume_time_info']"],
    "list of condition information": ["GetModelInfo()", "GetList('conditions_infos_list')"],
    "condition information": ["GetModelInfo()", "GetList('conditions_infos_list')", "[0]"],
    "B-spline volume": ["GetBSplineVolume('open_knot_vector')"],
}


def step(x, s):
    if s == "iter":
        return iter(x)
    if s == "next":
        return next(x)
    if s.startswith("["):
        return eval("x" + s)
    return eval("x." + s)


def tri_value(t):
    return (t.p1, t.p2, t.p3, t.normal, t.Area(), t.Center(), len(t.GetIPsGlobal(1)))


def value(x):
    """everything an object shows; iterators are only read at the end"""
    n = type(x).__name__
    if isinstance(x, (list, tuple)):
        return [value(y) for y in x]
    if n == "Element":
        return (x.ID(), x.IsTrimmed(), x.LowerBoundXYZ(), x.UpperBoundXYZ(), x.LowerBoundUVW(), x.UpperBoundUVW(), value(x.GetIntegrationPoints()))
    if n in ("IntegrationPointVector", "BoundaryIPVector"):
        return [value(y) for y in x]
    if n == "IntegrationPoint":
        return (x.x, x.y, x.z, x.weight)
    if n == "BoundaryIntegrationPoint":
        return (x.x, x.y, x.z, x.weight, x.normal)
    if n == "Condition":
        return (x.NumberOfSegments(), value(x.GetSettings()), value(x.GetSegments()))
    if n == "ConditionSegmentVector":
        return [value(x[i]) for i in range(len(x))]
    if n == "ConditionSegment":
        return value(x.GetTriangleMesh())
    if n == "TriangleMesh":
        return (x.NumOfTriangles(), list(x.Vertices()), [tri_value(t) for t in x.Triangles()])
    if n == "Triangle":
        return tri_value(x)
    if n in ("Dictionary", "DictionaryHolder"):
        return str(x if n == "Dictionary" else x.GetObject())
    if n == "DictionaryList":
        return [str(x[i]) for i in range(len(x))]
    if n == "BSplineVolume":
        return (x.KnotsU(), x.KnotsV(), x.KnotsW(), x.ControlPoints())
    if n == "PyQuESo":
        return [e.ID() for e in x.GetElements()]
    return None


def rest(x):
    return [value(y) if type(y).__name__ not in ("float", "tuple") else y for y in x]


JUNK = []


def churn():
    """reuse the memory that was freed"""
    gc.collect()
    JUNK.append([bytes(n) for n in (24, 40, 64, 120, 200, 400, 1000, 4000) for _ in range(20)])
    a = np.full(4000, 7.5)
    h = Q.Dictionary.Create("Settings")
    t = Q.TriangleMesh()
    for k in range(8):
        t.AddVertex([k, 2.0 * k, 3.0])
    t.AddTriangle([0, 1, 2])
    if len(JUNK) > 4:
        JUNK.pop(0)
    return a, h, t


def lifetimes(r):
    for name, chain in CHAINS.items():
        n = len(chain)
        # positions of the objects on the way: 0 = front end, 1.. = results of the steps (the last one is kept)
        if n <= 4:
            orders = list(itertools.permutations(range(n)))
        else:   # all orders of three groups and both directions, and every single object dropped first
            orders = [tuple(range(n)), tuple(reversed(range(n)))] + [(k,) + tuple(j for j in range(n) if j != k) for k in range(n)] + [tuple(j for j in range(n) if j != k) + (k,) for k in range(n)]
            if r.thorough and n <= 6:
                orders = list(itertools.permutations(range(n)))
        orders = list(dict.fromkeys(orders))
        for blk in range(0, len(orders), 6):
            if not r.take():
                continue

            def body():
                for od in orders[blk:blk + 6]:
                    m = Model("l", 0x7f, "shifted", "b_spline_grid", "Gauss", (1, 1, 1), (0, 1))
                    objs = [m.run()]
                    for s in chain:
                        objs.append(step(objs[-1], s))
                    twin = m.run()   # an equal model: what an iterator has still to give
                    t = twin
                    for s in chain:
                        t = step(t, s)
                    it = hasattr(t, "__next__")
                    expect = [value(o) for o in objs[1:]]
                    final = rest(t) if it else None
                    # twin and original hold the same data except for the times
                    del twin, t
                    for j in od:
                        objs[j] = None
                        junk = churn()
                        for i in range(1, len(objs)):
                            o = objs[i]
                            if o is None or hasattr(o, "__next__"):
                                continue
                            r.check(value(o) == expect[i - 1], name, ": after dropping ", [["front end"] + chain][0][j], " in the order ", od, " the object from '", chain[i - 1], "' changed")
                            r.transitions += 1
                        r.states += 1
                    if it:
                        r.check(rest(objs[-1]) == final, name, ": the iterator gives other objects after everything else was dropped in the order ", od)
                    del junk
                r.nontrivial((name, blk))
            r.run("%s, orders from %d" % (name, blk), body)

    # settings and their parts obtained before the model takes them over
    for keep in ("settings", "part", "list", "condition", "holder"):
        for early in (False, True):
            if not r.take():
                continue

            def body():
                m = Model("l", 0x7f, "shifted", "b_spline_grid", "Gauss", (1, 1, 1), (0, 1))
                p = PyQuESo(m.json)
                s = p.GetSettings()
                o = {"settings": s, "part": s["trimmed_quadrature_rule_settings"], "list": s.GetList("conditions_settings_list"), "condition": s.GetList("conditions_settings_list")[1], "holder": None}[keep]
                v = value(o)
                del s
                churn()
                if early:
                    p.Run()
                r.check(value(o) == v, keep, " changed by Run")
                del p
                churn()
                r.check(value(o) == v, keep, " changed after the front end was dropped")
                r.states += 1
                r.nontrivial((keep, early))
            r.run("%s kept, %s" % (keep, "with Run" if early else "without Run"), body)
    # dictionaries given to a list
    if r.take():
        def body():
            h = Q.Dictionary.Create("Settings")
            ch = Q.Dictionary.Create("ConditionSettings")
            c = ch.GetObject()
            c.SetValue("condition_id", 7)
            lst = h.GetObject().GetList("conditions_settings_list")
            lst.append(ch)
            v = value(c)
            r.check(value(lst[0]) == v, "entry of the list")
            try:
                lst.append(ch)
                r.fail("the same dictionary was given to the list twice")
            except Stop:
                raise
            except Exception:
                pass
            r.check(len(lst) == 1, "the refused dictionary is in the list")
            del ch
            churn()
            r.check(value(c) == v, "dictionary changed after its holder was dropped")
            del lst, h
            churn()
            r.check(value(c) == v, "dictionary changed after the settings were dropped")
            r.states += 3
        r.run("dictionary given to a list", body)
    # no index outside a list reads anything
    for what in ("DictionaryList", "ConditionSegmentVector", "IntegrationPointVector", "elements", "conditions"):
        for d in (0, 1, 5, 10**6, 2**62):
            if not r.take():
                continue

            def body():
                m = Model("l", 0x7f, "shifted", "b_spline_grid", "Gauss", (1, 1, 1), (0, 1))
                p = m.run()
                o = {"DictionaryList": lambda: p.GetSettings().GetList("conditions_settings_list"), "ConditionSegmentVector": lambda: p.GetConditions()[0].GetSegments(),
                     "IntegrationPointVector": lambda: p.GetElements()[0].GetIntegrationPoints(), "elements": p.GetElements, "conditions": p.GetConditions}[what]()
                try:
                    x = o[len(o) + d]
                except (IndexError, OverflowError):
                    r.states += 1
                    r.nontrivial((what, d))
                    return
                r.fail("index %d of a %s with %d entries gives %s" % (len(o) + d, what, len(o), type(x)))
            r.run("%s: index %d behind the end" % (what, d), body)
    # a grid of its own
    if r.take():
        def body():
            m = Model("l", 0x7f, "shifted", "b_spline_grid", "Gauss", (1, 1, 1), ())
            s = PyQuESo(m.json).GetSettings()
            try:
                g = Q.BackgroundGrid(s)
            except RuntimeError:   # required values have not been checked
                m2 = m.run()
                g = Q.BackgroundGrid(m2.GetSettings())
            r.check(list(g.GetElements()) == [] and g.NumberOfActiveElements() == 0 and g.NumberOfConditions() == 0 and list(g.GetConditions()) == [], "an empty grid has elements")
            r.states += 1
        r.run("background grid", body)


PTS = [(0, 0, 0), (4, 0, 0), (0, 3, 0), (0, 0, 12), (1, 2, 2), (5, 5, 1), (2, 7, 3), (-3, 1, 4), (6, -2, 8), (1.5, 0.25, -1)]


def tri_ref(p):
    a, b = [[p[k][i] - p[0][i] for i in range(3)] for k in (1, 2)]
    n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    l = math.sqrt(sum(x * x for x in n))
    return tuple(x / l if l else 0.0 for x in n), l / 2, tuple(sum(q[i] for q in p) / 3 for i in range(3))


def same_tri(t, p):
    n, a, c = tri_ref(p)
    return (t.p1, t.p2, t.p3) == tuple(tuple(map(float, q)) for q in p) and all(abs(x - y) < 1e-13 for x, y in zip(t.normal, n)) and abs(t.Area() - a) < 1e-12 * (1 + a) \
        and all(abs(x - y) < 1e-12 for x, y in zip(t.Center(), c)) and abs(sum(x.weight for x in t.GetIPsGlobal(1)) - a) < 1e-12 * (1 + a)


def meshes(r):
    """every history of building a mesh from Python; triangles taken from it earlier and running iterators are kept"""
    OPS = ("vertex", "first", "last", "reversed", "unknown", "huge", "degenerate", "hold", "reserve", "step")
    depth = 6 if r.thorough else 5
    for pre in range(4):
        for first in itertools.product(OPS, repeat=2):
            if not r.take():
                continue

            def body():
                for ops in itertools.product(OPS, repeat=depth - 2):
                    m = Q.TriangleMesh()
                    nv, tris, held, it, seen = 0, [], [], None, 0
                    def vertex():
                        nonlocal nv
                        k = m.AddVertex(PTS[nv % len(PTS)])
                        r.check(k == nv, "index of a new vertex is ", k, " instead of ", nv)
                        nv += 1
                    if pre == 1:
                        m.Reserve(3)
                    for _ in range((0, 0, 3, 4)[pre]):
                        vertex()
                    if pre == 3:
                        m.AddTriangle([0, 1, 2]); m.AddTriangle([1, 3, 2]); tris += [(0, 1, 2), (1, 3, 2)]
                        it = m.Triangles()
                    hist = first + ops
                    for k, op in enumerate(hist):
                        t = {"first": (0, 1, 2), "last": (nv - 3, nv - 2, nv - 1), "reversed": (2, 1, 0), "unknown": (0, 1, nv), "huge": (2**60, 0, 1), "degenerate": (0, 0, nv - 1)}.get(op)
                        if op == "vertex":
                            vertex()
                        elif op == "reserve":
                            m.Reserve(2 * nv + 7)
                        elif op == "hold":
                            held += list(zip(m.Triangles(), tris))
                        elif op == "step":
                            if it is None:
                                it = m.Triangles()
                            x = next(it, None)
                            r.check((x is None) == (seen >= len(tris)), "a running iterator ends at ", seen, " of ", len(tris), " after ", hist[:k + 1])
                            if x is None:
                                it, seen = None, 0
                            else:
                                held.append((x, tris[seen])); seen += 1
                        elif min(t) >= 0:
                            ok = True
                            try:
                                m.AddTriangle(list(t))
                            except Exception:
                                ok = False
                            r.check(ok == (max(t) < nv), "triangle ", t, " with ", nv, " vertices is ", "accepted" if ok else "refused", " after ", hist[:k])
                            if ok:
                                tris.append(t)
                        r.transitions += 1
                        if k < len(first) and ops != (OPS[0],) * len(ops) or op in ("hold",):
                            continue
                        r.check(m.NumOfVertices() == nv and m.NumOfTriangles() == len(tris), "counts after ", hist[:k + 1])
                        r.check(list(m.Vertices()) == [tuple(map(float, PTS[i % len(PTS)])) for i in range(nv)], "vertices after ", hist[:k + 1])
                        now = list(m.Triangles())
                        r.check(len(now) == len(tris), "number of triangles listed after ", hist[:k + 1])
                        for x, y in list(zip(now, tris)) + held:
                            r.check(same_tri(x, [PTS[i % len(PTS)] for i in y]), "a triangle changed or is wrong after ", hist[:k + 1], lambda: ": %s %s %s %s" % (x.p1, x.p2, x.p3, x.normal))
                        r.states += 1
                    if any(x[0] for x in held) and len(tris) > 1:
                        r.count("histories with triangles held")
                r.nontrivial((pre, first))
            r.run("mesh %d: histories that begin with %s" % (pre, first), body)
    # generalized Gauss rules: those that exist and no others
    for p in list(range(0, 8)) + [63, 2**31, 2**63]:
        for meth in list(METHODS):
            if not r.take():
                continue

            def body():
                for e in (0, 1, 2, 3, 5, 17, 40):
                    exists = meth.startswith("GGQ") and 2 <= p <= 4 and e > 0
                    try:
                        x = Q.IntegrationPointFactory1D.GetGGQ(p, e, METHODS[meth])
                    except RuntimeError:
                        x = None
                    except MemoryError:
                        r.fail("order ", p, " elements ", e, ": out of memory")
                    r.check((x is not None) == exists, meth, " of order ", p, " for ", e, " elements is ", "refused" if exists else "accepted")
                    if exists:
                        r.check(abs(sum(w for _, w in x) - 1) < 1e-12 and all(0 < q < 1 and w > 0 for q, w in x), "weights or points")
                    r.states += 1
                r.nontrivial((p, meth))
            r.run("rules %s of order %d" % (meth, p), body)


def main():
    r = Run(sys.argv[1:])
    try:
        if "models" in r.args:
            models(r)
        if "lifetimes" in r.args:
            lifetimes(r)
        if "meshes" in r.args:
            meshes(r)
    finally:
        import shutil
        shutil.rmtree(SCR, ignore_errors=True)
    return r.finish()


sys.exit(main())
