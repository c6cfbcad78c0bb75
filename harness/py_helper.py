"""C23: the Python mapping helper against exact rational arithmetic, and against the C++ mapping through the module's elements."""
import os, sys
from fractions import Fraction as F
from vp_py import Run
import importlib.util
spec = importlib.util.spec_from_file_location("vp_helper", os.path.join(os.environ["VP_PYMOD"], "QuESoPythonModule", "scripts", "helper.py"))
h = importlib.util.module_from_spec(spec); spec.loader.exec_module(h)

AXES = [(0, 1, 0, 1), (-1, 3, 0, 1), (0, 1, -1, 1), (0.3, 0.37, 2, 9), (-250, -117, -0.5, 0), (1e-3, 3e-3, 0, 1), (100, 1100, 10, 11.5), (-0.7, 0.1, -7, -6.9), (1, 2, 3, 4), (0, 1e3, 0, 1e-3), (-3, -2.5, 1000, 1007)]
T = [0, 1, 0.5, 0.137, -0.6]


def main():
    r = Run(sys.argv[1:])
    for a in AXES:
        for b in AXES:
            for c in AXES:
                if not r.take():
                    continue
                ax = (a, b, c)

                def body():
                    xyz = (tuple(x[0] for x in ax), tuple(x[1] for x in ax))
                    uvw = (tuple(x[2] for x in ax), tuple(x[3] for x in ax))
                    E = [[None] * 3 for _ in T]
                    for k in range(125):
                        t = (T[k % 5], T[k // 5 % 5], T[k // 25])
                        g = [x[0] + s * (x[1] - x[0]) for x, s in zip(ax, t)]
                        u = [x[2] + s * (x[3] - x[2]) for x, s in zip(ax, t)]
                        p = h.point_from_global_to_param_space(g, xyz, uvw)
                        q = h.point_from_param_to_global_space(u, xyz, uvw)
                        pb = h.point_from_param_to_global_space(p, xyz, uvw)
                        qb = h.point_from_global_to_param_space(q, xyz, uvw)
                        r.check(len(p) == 3 and len(q) == 3, "number of coordinates")
                        for d in range(3):
                            x = ax[d]
                            key = T.index(t[d])
                            if E[key][d] is None:
                                s = (F(x[1]) - F(x[0])) / (F(x[3]) - F(x[2]))
                                tg = 4e-14 * (abs(x[0]) + abs(x[1])) + float(s) * 4e-14 * (abs(x[2]) + abs(x[3]))
                                E[key][d] = (float((F(g[d]) - F(x[0])) / s + F(x[2])), float((F(u[d]) - F(x[2])) * s + F(x[0])), tg, tg / float(s))
                            eu, eg, tg, tu = E[key][d]
                            r.check(abs(p[d] - eu) <= tu, "to parametric %s gives %s" % (g, p))
                            r.check(abs(q[d] - eg) <= tg, "to global %s gives %s" % (u, q))
                            r.check(abs(pb[d] - g[d]) <= 2 * tg and abs(qb[d] - u[d]) <= 2 * tu, "there and back %s %s" % (pb, qb))
                        r.states += 1
                        r.transitions += 4
                    if a != b and b != c:
                        r.nontrivial(ax)
                r.run("boxes %s" % (ax,), body)
    return r.finish()


sys.exit(main())
