"""C30: what runs of the Python front end leave in the file system. All histories of runs and all kinds of names of the output directory, in a scratch
directory, as an unprivileged user, and with guards in place of the destructive calls."""
import contextlib, io, itertools, json, math, os, re, shutil, struct, sys, tempfile
from vp_py import Run, Stop
with contextlib.redirect_stdout(io.StringIO()):
    import QuESoPythonModule as Q
    from QuESoPythonModule.PyQuESo import PyQuESo

S = os.path.realpath(tempfile.mkdtemp(prefix="vp-c30-"))   # everything happens below this directory
HOME = os.getcwd()
NOBODY = 65534
HITS = []


def inside(path):
    p = os.path.realpath(path)
    return p != S and os.path.commonpath([p, S]) == S


def guard(mod, name):
    real = getattr(mod, name)

    def stand_in(path, *a, **k):
        if k.get("dir_fd") is None and isinstance(path, (str, bytes, os.PathLike)) and not inside(os.fspath(path)):
            HITS.append("%s(%r)" % (name, path))
            raise PermissionError("guarded: %s(%r)" % (name, path))
        return real(path, *a, **k)
    for x in ("avoids_symlink_attacks",):
        if hasattr(real, x):
            setattr(stand_in, x, getattr(real, x))
    setattr(mod, name, stand_in)


class Confined:
    """guards installed and rights of an ordinary user, in the directory S/work"""
    def __enter__(self):
        self.saved = {(m, n): getattr(m, n) for m, n in ((shutil, "rmtree"), (os, "rmdir"), (os, "unlink"), (os, "remove"), (os, "mkdir"), (os, "makedirs"), (os, "rename"), (os, "replace"))}
        HITS.clear()
        os.chdir(S + "/work")
        for m, n in self.saved:
            guard(m, n)
        self.dropped = False
        if os.geteuid() == 0 and os.stat(S).st_uid == NOBODY:
            with contextlib.suppress(OSError):
                os.setegid(NOBODY); os.seteuid(NOBODY)
                self.dropped = True

    def __exit__(self, *a):
        if self.dropped:
            os.seteuid(0); os.setegid(0)
        for (m, n), f in self.saved.items():
            setattr(m, n, f)
        os.chdir(HOME)


def put(path, text="text of the user\n"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def box_stl(path, lo, hi):
    x = lambda b: tuple((lo, hi)[b >> d & 1][d] for d in range(3))
    quads = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    put(path, "solid s\n" + "".join("facet normal 0 0 0\nouter loop\n" + "".join("vertex %g %g %g\n" % x(i) for i in t) + "endloop\nendfacet\n" for q in quads for t in ((q[0], q[1], q[2]), (q[0], q[2], q[3]))) + "endsolid s\n")


def rect_stl(path, z, a, b):
    p = [(a, a, z), (b, a, z), (b, b, z), (a, b, z)]
    put(path, "solid s\n" + "".join("facet normal 0 0 1\nouter loop\n" + "".join("vertex %g %g %g\n" % q for q in t) + "endloop\nendfacet\n" for t in ((p[0], p[1], p[2]), (p[0], p[2], p[3]))) + "endsolid s\n")


# models: (solid, condition rectangles with their numbers)
MODELS = {"A": (((0.1, 0.1, 0.1), (0.8, 0.7, 0.9)), []), "B": (((0, 0, 0), (1, 1, 0.6)), [(3, (0.55, 0.1, 0.8)), (12, (0.3, 0.2, 0.4))]),
          "C": (((0.3, 0.3, 0.3), (0.4, 0.4, 0.4)), [(3, (0.35, 0.1, 0.2))]), "D": (((3, 3, 3), (4, 4, 4)), [(7, (3.5, 3.2, 3.8))])}


def world():
    """the directory before a history: the user's own files, inputs, a link"""
    for d in os.listdir(S):
        p = os.path.join(S, d)
        (shutil.rmtree if os.path.isdir(p) and not os.path.islink(p) else os.unlink)(p)
    for n in ("work/mine.txt", "work/data/keep.txt", "work/data/sub/keep.txt", "work/file", "other/keep.txt", "other/deep/keep.txt", "keep.txt"):
        put(os.path.join(S, n), "text of the user in %s\n" % n)
    os.symlink("../other", S + "/work/link")
    for m, (b, cs) in MODELS.items():
        box_stl(S + "/in/%s.stl" % m, *b)
        for i, (z, a, c) in cs:
            rect_stl(S + "/in/%s%d.stl" % (m, i), z, a, c)
    for root, dirs, files in os.walk(S):
        for x in [root] + [os.path.join(root, f) for f in files + dirs]:
            with contextlib.suppress(OSError):
                os.chown(x, NOBODY, NOBODY, follow_symlinks=False)


def settings(model, name, output, conds=True):
    (lo, hi), cs = MODELS[model]
    general = {"input_filename": S + "/in/%s.stl" % model, "write_output_to_file": output, "echo_level": 0}
    if name is not None:
        general["output_directory_name"] = name
    return {"general_settings": general,
            "background_grid_settings": {"grid_type": "b_spline_grid", "lower_bound_xyz": [0.0, 0.0, 0.0], "upper_bound_xyz": [1.0, 1.0, 1.0], "lower_bound_uvw": [0.0, 0.0, 0.0], "upper_bound_uvw": [1.0, 1.0, 1.0],
                                         "polynomial_order": [1, 1, 1], "number_of_elements": [2, 2, 2]},
            "trimmed_quadrature_rule_settings": {"moment_fitting_residual": 1e-6, "min_element_volume_ratio": 0.0, "min_num_boundary_triangles": 10},
            "non_trimmed_quadrature_rule_settings": {"integration_method": "Gauss"},
            "conditions_settings_list": [{"condition_id": i, "input_filename": S + "/in/%s%d.stl" % (model, i)} for i, _ in cs]}


def tree():
    t = {}
    for root, dirs, files in os.walk(S):
        for d in dirs:
            p = os.path.join(root, d)
            t[os.path.relpath(p, S)] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir", "")
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as g:
                t[os.path.relpath(p, S)] = ("file", g.read())
    return t


def diff(a, b):
    return ", ".join(["%s is gone" % k for k in sorted(set(a) - set(b))][:4] + ["%s is new" % k for k in sorted(set(b) - set(a))][:4] + ["%s changed" % k for k in sorted(set(a) & set(b)) if a[k] != b[k]][:4])


def facts(p):
    """what the files must say, from the model itself"""
    els = p.GetElements()
    pts = [q for e in els for q in e.GetIntegrationPoints()]
    return {"elements": len(els), "points": len(pts), "conds": {c.GetSettings().GetInt("condition_id"): sum(s.GetTriangleMesh().NumOfTriangles() for s in c.GetSegments()) for c in p.GetConditions()},
            "volume": p.GetModelInfo()["quadrature_info"].GetDouble("represented_volume"), "active": p.GetModelInfo()["background_grid_info"].GetInt("num_active_elements")}


def judge_output(r, t, out, f):
    """the entries of the tree t below the directory `out` are exactly the files of a model with the facts f"""
    pre = out + "/"
    got = {k[len(pre):]: v for k, v in t.items() if k.startswith(pre)}
    want = {"elements.vtk", "integration_points.vtk", "model_info.json"} | {"condition_id_%d.stl" % i for i in f["conds"]}
    r.check(t.get(out) == ("dir", "") and set(got) == want and all(v[0] == "file" for v in got.values()), "the output directory %s has the entries %s instead of %s" % (out, sorted(got), sorted(want)))
    m = re.search(rb"POINTS (\d+) double\n", got["elements.vtk"][1], re.M); c = re.search(rb"CELLS (\d+) (\d+)\n", got["elements.vtk"][1], re.M)
    r.check(m and c and int(m[1]) == 8 * f["elements"] and int(c[1]) == f["elements"], "elements.vtk does not have %d elements" % f["elements"])
    m = re.search(rb"POINTS (\d+) double\n", got["integration_points.vtk"][1], re.M); c = re.search(rb"POINT_DATA (\d+)\n", got["integration_points.vtk"][1], re.M)
    r.check(m and c and int(m[1]) == int(c[1]) == f["points"], "integration_points.vtk does not have %d points" % f["points"])
    for i, n in f["conds"].items():
        b = got["condition_id_%d.stl" % i][1]
        r.check(len(b) == 84 + 50 * n and struct.unpack_from("<I", b, 80)[0] == n, "condition_id_%d.stl does not have %d triangles" % (i, n))
    info = json.loads(got["model_info.json"][1])
    r.check(info["background_grid_info"]["num_active_elements"] == f["active"] == f["elements"] and math.isclose(info["quadrature_info"]["represented_volume"], f["volume"], rel_tol=1e-5, abs_tol=1e-12)
            and len(info["conditions_infos_list"]) == len(f["conds"]), "model_info.json belongs to another model")
    return {k: v[1] for k, v in got.items() if k != "model_info.json"}


REF = {}   # the contents of the files of every model, the same in every run


def step(r, model, name, output, run=True, kind="plain"):
    """one run; the tree is compared before and after"""
    if os.geteuid() == 0 and os.stat(S).st_uid != NOBODY and not inside(os.path.join(S, "work", name or ".")):
        r.count("left out for want of an unprivileged user")
        return "left out"
    with open(S + "/in/settings.json", "w") as f:
        json.dump(settings(model, name, output), f)
    before = tree()
    err = None
    with Confined():
        try:
            p = PyQuESo(S + "/in/settings.json")
            fct = None
            if run:
                p.Run()
                fct = facts(p)
        except Stop:
            raise
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, str(e)[:200])
    after = tree()
    r.states += 1
    r.check(not HITS, "attempt to change something outside: ", HITS)
    if not output:
        r.check(err is None, "a run without output fails: ", err)
        r.check(before == after, "a run without output changes files: ", lambda: diff(before, after))
        return "no output"
    if kind == "refuse":
        r.check(before == after, "the name %r does not name a directory for output, but: %s" % (name, diff(before, after)))
        r.check(err is not None, "the name %r is accepted" % name)
        return "refused"
    out = os.path.relpath(os.path.realpath(os.path.join(S, "work", name if name is not None else "queso_output")), S)
    if kind == "either" and err is not None:
        r.check(before == after, "a refused run changes files: ", lambda: diff(before, after))
        return "refused"
    r.check(err is None, "the run fails: ", err)
    keep = lambda t: {k: v for k, v in t.items() if k != out and not k.startswith(out + "/")}
    want = keep(before)
    d = os.path.dirname(out)
    while d:   # directories above the output directory that had to be made
        want.setdefault(d, ("dir", "")); d = os.path.dirname(d)
    r.check(keep(after) == want, "something outside of the output directory changes: ", lambda: diff(want, keep(after)))
    if run:
        c = judge_output(r, after, out, fct)
        r.transitions += len(c)
        if REF.setdefault(model, c) != c:
            r.fail("the files of model %s differ from those of an earlier run: %s" % (model, [k for k in c if REF[model].get(k) != c[k]]))
    else:
        r.check(not [k for k in after if k.startswith(out + "/")] and after.get(out) == ("dir", ""), "the output directory is not empty before the run")
    return "output"


def names(r):
    plain = [None, "out", "out/", "./out", "out//", "a b", "a/b/c", "data", "data/", "data/sub", "data/new", "\u00fcml\u00e4ut", ".hidden", "...", "..x", "x.d", S + "/abs", S + "/abs/deep", S + "/other", S + "/work/out", "../sibling", "../other", "../other/deep", "link/sub", "link/deep", "data/../out", "work", "0"]
    refuse = ["", ".", "./", "./.", "..", "../", "../..", "../work", "data/..", "../../" + os.path.basename(S), S, S + "/", S + "/work", S + "/work/", "/", "file", "file/", "file/sub", S + "/keep.txt"]
    either = ["link", "link/"]
    for kind, ns in (("plain", plain), ("refuse", refuse), ("either", either)):
        for n in ns:
            for m in MODELS:
                for o in (True, False):
                    if not r.take():
                        continue

                    def body():
                        world()
                        a = step(r, m, n, o, kind=kind)
                        r.count(a)
                        if a == "output":   # and once more over the old files, then by another model
                            step(r, m, n, o, kind=kind)
                            step(r, "B" if m == "A" else "A", n, o, kind=kind)
                        r.nontrivial((kind, n, m, o))
                    r.run("directory %r model %s output %s" % (n.replace(S, "SCRATCH") if n is not None else None, m, o), body)


def histories(r):
    ops = [("run", m, n, True) for m in "AB" for n in ("out", "data/x")] + [("run", m, "out", False) for m in "B"] + [("run", "D", "out", True), ("make", "A", "out", True), ("make", "A", "data/x", False), ("put", None, "out", None), ("drop", None, "out", None)]
    depth = 4 if r.thorough else 3
    for h in itertools.product(range(len(ops)), repeat=depth):
        if not r.take():
            continue

        def body():
            world()
            for k in h:
                what, m, n, o = ops[k]
                if what == "put":
                    p = S + "/work/out/foreign/f.txt"
                    put(p)
                    for x in (os.path.dirname(os.path.dirname(p)), os.path.dirname(p), p):
                        with contextlib.suppress(OSError):
                            os.chown(x, NOBODY, NOBODY)
                elif what == "drop":
                    shutil.rmtree(S + "/work/out", ignore_errors=True)
                else:
                    r.count(step(r, m, n, o, run=what == "run"))
            r.nontrivial(h)
        r.run("history " + ", ".join("%s %s in %s%s" % (ops[k][0], ops[k][1], ops[k][2], "" if ops[k][3] else " without output") for k in h), body)


def main():
    r = Run(sys.argv[1:])
    os.chmod(S, 0o755)
    try:
        os.chown(S, NOBODY, NOBODY)
    except OSError:
        pass
    try:
        world()   # everything that is loaded late is loaded now, with the rights of the caller
        with open(S + "/in/settings.json", "w") as f:
            json.dump(settings("B", "out", False), f)
        PyQuESo(S + "/in/settings.json").Run()
        if "names" in r.args:
            names(r)
        if "histories" in r.args:
            histories(r)
    finally:
        os.chdir(HOME)
        shutil.rmtree(S, ignore_errors=True)
    return r.finish()


sys.exit(main())
