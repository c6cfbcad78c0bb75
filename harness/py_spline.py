"""C24: every B-spline volume compared with the exact knots, Greville abscissae and affine map of the background grid."""
import contextlib, io, os, sys
from fractions import Fraction as F
from vp_py import Run
with contextlib.redirect_stdout(io.StringIO()):
    import QuESoPythonModule as Q
    from QuESoPythonModule.scripts.b_spline_volume import BSplineVolume
import numpy as np

TYPES = ("open_knot_vector", "non_open_knot_vector")
# (lower_x, upper_x, lower_u, upper_u)
AXES = [(0, 1, 0, 1), (-1, 3, -1, 3), (0, 1, -1, 1), (0.3, 0.37, 2, 9), (-250, -117, -0.5, 0.1), (1e-3, 3e-3, 0, 1), (100, 1100, 10, 11.5),
        (-0.7, 0.1, -7, -6.9), (0, 0.1, 0, 0.3), (0, 1e3, 0, 1e-3), (-3, -2.5, 1000, 1007), (0.1, 0.7, 0.1, 0.7), (-1.1, 1.3, -1e-4, 7e4)]
EPS = 2.3e-16


def settings(order, ne, ax):
    h = Q.Dictionary.Create("Settings")
    g = h.GetObject()["background_grid_settings"]
    g.SetValue("grid_type", Q.GridType.b_spline_grid)
    g.SetValue("polynomial_order", list(order))
    g.SetValue("number_of_elements", list(ne))
    for k, i in (("lower_bound_xyz", 0), ("upper_bound_xyz", 1), ("lower_bound_uvw", 2), ("upper_bound_uvw", 3)):
        g.SetValue(k, [float(a[i]) for a in ax])
    return h


_cache = {}


def expected(p, n, ax, typ):
    """exact knots and control points: an affine map is reproduced by its values at the Greville abscissae"""
    key = (p, n, ax, typ)
    if key not in _cache:
        xl, xu, ul, uu = (F(v) for v in ax)
        d = (uu - ul) / n
        if typ == TYPES[0]:
            t = [ul] * p + [ul + k * d for k in range(n + 1)] + [uu] * p
        else:
            t = [ul + (k - p) * d for k in range(n + 2 * p + 1)]
        s = (xu - xl) / (uu - ul)
        c = [xl + s * (sum(t[j + 1:j + p + 1]) / p - ul) for j in range(n + p)]
        if len(_cache) > 200:
            _cache.clear()
        _cache[key] = ([float(v) for v in t], [float(v) for v in c])
    return _cache[key]


def body(r, order, ne, ax, typ, dense):
    h = settings(order, ne, ax)
    vol = BSplineVolume(h.GetObject(), typ)
    knots = (vol.KnotsU(), vol.KnotsV(), vol.KnotsW())
    num = (vol.NumberControlPointsInU(), vol.NumberControlPointsInV(), vol.NumberControlPointsInW())
    r.check(list(vol.PolynomialOrder()) == list(order), "PolynomialOrder ", vol.PolynomialOrder())
    exp = [expected(order[d], ne[d], ax[d], typ) for d in range(3)]
    tol = []
    for d in range(3):
        et, ec = exp[d]
        xl, xu, ul, uu = ax[d]
        n, p = ne[d], order[d]
        tu = 16 * EPS * (n + 2 * p) * (abs(ul) + abs(uu) + (uu - ul))
        tx = 64 * EPS * (n + 2 * p) * (abs(xl) + abs(xu) + (xu - xl)) + tu * (xu - xl) / (uu - ul)
        tol.append(tx)
        r.check(num[d] == n + p, "direction %d: %d control points instead of %d" % (d, num[d], n + p))
        r.check(len(knots[d]) == n + 2 * p + 1, "direction %d: %d knots instead of %d" % (d, len(knots[d]), n + 2 * p + 1))
        r.check(max(abs(a - b) for a, b in zip(knots[d], et)) <= tu, "direction %d: knots %s instead of %s" % (d, knots[d][:9], et[:9]))
        r.check(all(a <= b for a, b in zip(knots[d], knots[d][1:])), "direction %d: knots not sorted" % d)
        if typ == TYPES[0]:
            r.check(len(set(knots[d])) == n + 1, "direction %d: %d different knots in an open knot vector instead of %d" % (d, len(set(knots[d])), n + 1))
        spl = vol.GetSpline(d)
        c = spl.c
        r.check(spl.k == p, "direction %d: degree %d" % (d, spl.k))
        r.check(len(c) == n + p and max(abs(a - b) for a, b in zip(c, ec)) <= tx, "direction %d: control points %s instead of %s" % (d, list(c)[:9], ec[:9]))
        m = 4 if dense else 2
        us = np.array([ul + (uu - ul) * (k / float(n * m)) for k in range(1, n * m)])
        v = spl(us)
        w = np.array([xl + (xu - xl) * (k / float(n * m)) for k in range(1, n * m)])
        r.check(not len(us) or np.max(np.abs(v - w)) <= 4 * tx, "direction %d: the map is not affine: %s" % (d, lambda: np.max(np.abs(v - w))))
        r.transitions += len(us)
    if num[0] * num[1] * num[2] <= 3000:
        cps = vol.ControlPoints()
        mat = vol.ControlPointsMatrix()
        r.check(len(cps) == num[0] * num[1] * num[2], "number of control points in the list")
        r.check(tuple(mat.shape) == (num[0], num[1], num[2], 3), "shape of the matrix ", mat.shape)
        a = np.array(cps, dtype=float).reshape(num[2], num[1], num[0], 3)
        for got, name, shape in ((a, "list", (2, 1, 0)), (mat, "matrix", (0, 1, 2))):
            for d in range(3):
                e = np.array(exp[d][1])
                sh = [1, 1, 1]
                sh[shape.index(d)] = -1
                r.check(np.max(np.abs(got[..., d] - e.reshape(sh))) <= tol[d], "coordinate %d of the %s of control points" % (d, name))
        r.states += len(cps)
    r.states += sum(num)
    if len(set(order)) > 1 and len(set(ne)) > 1:
        r.nontrivial((order, ne, ax, typ))


def bad_type(r):
    h = settings((2, 2, 2), (2, 2, 2), (AXES[0],) * 3)
    for t in ("", "open", "open_knot_vector ", "Open_knot_vector", "non_open"):
        try:
            BSplineVolume(h.GetObject(), t)
        except Exception:
            continue
        r.check(False, "knot vector type '%s' accepted" % t)
    v = BSplineVolume(h.GetObject(), TYPES[0])
    for i in (3, -1):
        try:
            v.GetSpline(i)
        except Exception:
            continue
        r.check(False, "GetSpline(%d) accepted" % i)


def main():
    r = Run(sys.argv[1:])
    na = len(AXES)
    if r.take():
        r.run("unknown knot vector types and directions", lambda: bad_type(r))
    # every order, element count and axis, each in every direction
    top = 130 if r.thorough else 40
    for typ in TYPES:
        for n in list(range(1, top + 1)) + ([200, 257, 500] if r.thorough else [64, 97]):
            for i in range(na):
                for p in range(1, 9):
                    if not r.take():
                        continue
                    # rotate: direction d uses order p+d, count n+d and axis i+d, so that every (p, n, axis) occurs in every direction
                    order = tuple((p + d - 1) % 8 + 1 for d in range(3))
                    ne = tuple(n + d for d in range(3))
                    ax = tuple(AXES[(i + d) % na] for d in range(3))
                    r.run("%s order %s elements %s axes %s" % (typ, order, ne, ax), lambda: body(r, order, ne, ax, typ, n <= 12))
    # all triples of small orders and counts
    top = 5 if r.thorough else 3
    for typ in TYPES:
        for o in range(top ** 3):
            for e in range(top ** 3):
                if not r.take():
                    continue
                order = (o % top + 1, o // top % top + 1, o // top // top + 1)
                ne = (e % top + 1, e // top % top + 1, e // top // top + 1)
                ax = tuple(AXES[(o + 3 * e + 5 * d) % na] for d in range(3))
                r.run("%s order %s elements %s axes %s" % (typ, order, ne, ax), lambda: body(r, order, ne, ax, typ, True))
    return r.finish()


sys.exit(main())
