"""C20: every set/unset combination of settings over boundary values is written and read back; every damaged file is rejected."""
import contextlib, copy, io, json, math, os, sys
from vp_py import Run
with contextlib.redirect_stdout(io.StringIO()):
    import QuESoPythonModule as Q
    from QuESoPythonModule.scripts.json_io import JsonIO

IM, GT = Q.IntegrationMethod, Q.GridType
METHODS = [IM.Gauss, IM.Gauss_Reduced1, IM.Gauss_Reduced2, IM.GGQ_Optimal, IM.GGQ_Reduced1, IM.GGQ_Reduced2]
NAMES = ["Gauss", "Gauss_Reduced1", "Gauss_Reduced2", "GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2"]
GRIDS = [GT.b_spline_grid, GT.hexahedral_fe_grid]
GNAMES = ["b_spline_grid", "hexahedral_fe_grid"]
STR = ["a", "", "dir/sub/file.stl", "C:\\new\\table.stl", "say \"hi\"", "a\nb\tc\r", "\x01\x1f\x7f", "umlaut äöü é 漢字", " leading and trailing ", "x" * 3000,
       "Not Set", "not set.", "null", "true", "123", "[1, 2, 3]", "{\"a\" : 1}", "\\", "\\\"", "\"", "\\u0041", "/", "a,b", "//", "\U0001f600"]
BOOL = [True, False]
INT = [0, 1, 2, 7, 100, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, 10**10, 10**10 + 1, 12345678901]
DBL = [0.0, 1.0, -1.0, -5.0, 0.1, 1 / 3., -1e-3, 1e-10, 12345678901.0, 123456.123456789, 1e10, 1e15, 1e16, 123456789012345678.0, -1e16, 1e17, 1e19, 2.0**64, 1e20, 1e22,
       1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -12345678901234.5, 1e-14, 3.141592653589793, 1.0000000000000002, 100.0, -2.0**63, 0.30000000000000004]
VEC = [[0.0, 0.0, 0.0], [1.0, 2.0, 3.0], [-1.0, 0.0, 2.0], [-1.0, -2.0, -3.0], [0.1, 1.0, -0.1], [1e20, 1.0, 2.0], [1e300, -1e-300, 5e-324], [1 / 3., 2 / 3., 1.0000000000000002],
       [1e16, 1e17, 1e18], [2.0**64, 0.0, 1.0], [-0.5, 1e10, 12345678901.25], [1e19, 1e19, 1e19], [0.0, 0.0, -1.0]]
IVEC = [[0, 0, 0], [1, 2, 3], [2**32, 2**53 + 1, 2**63], [2**64 - 1, 0, 1], [100, 1000, 10000], [8, 1, 8]]

# section -> key -> (getter, values)
S, B, I, D, V, N, M, G = "GetString", "GetBool", "GetInt", "GetDouble", "GetDoubleVector", "GetIntVector", "GetIntegrationMethod", "GetGridType"
VALUES = {S: STR, B: BOOL, I: INT, D: DBL, V: VEC, N: IVEC, M: METHODS, G: GRIDS}
SEC = {
    "general_settings": {"input_filename": S, "output_directory_name": S, "echo_level": I, "write_output_to_file": B},
    "background_grid_settings": {"grid_type": G, "lower_bound_xyz": V, "upper_bound_xyz": V, "lower_bound_uvw": V, "upper_bound_uvw": V, "polynomial_order": N, "number_of_elements": N},
    "trimmed_quadrature_rule_settings": {"moment_fitting_residual": D, "min_element_volume_ratio": D, "min_num_boundary_triangles": I, "neglect_elements_if_stl_is_flawed": B,
                                         "activate_fictitious_domain_with_alpha": D},
    "non_trimmed_quadrature_rule_settings": {"integration_method": M}}
COND = {"condition_id": I, "condition_type": S, "input_filename": S, "modulus": D, "direction": V, "value": V, "penalty_factor": D}
KEYS = [(s, k) for s in SEC for k in SEC[s]]
CKEYS = list(COND)
LIST = "conditions_settings_list"


def put(d, key, getter, v):
    d.SetValue(key, v)


def dump(d, keys):
    return {k: getattr(d, g)(k) if d.IsSet(k) else None for k, g in keys.items()}


def dump_all(s):
    return {sec: dump(s[sec], SEC[sec]) for sec in SEC}, [dump(c, COND) for c in s.GetList(LIST)]


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


class Ctx:
    def __init__(self, r):
        self.r = r
        self.f = os.path.join(os.environ.get("VP_SCRATCH", "/tmp"), "c20-%d-%s.json" % (os.getpid(), r.shard))


def build(mask, values, conds):
    """settings with the values of the bits in mask, and conditions given as (mask, values)"""
    h = Q.Dictionary.Create("Settings")
    s = h.GetObject()
    want = dump_all(s)[0]
    for b, (sec, k) in enumerate(KEYS):
        if mask >> b & 1:
            v = values(b, VALUES[SEC[sec][k]])
            put(s[sec], k, SEC[sec][k], v)
            want[sec][k] = v
    cw = []
    for m, cv in conds:
        ch = Q.Dictionary.Create("ConditionSettings")
        c = ch.GetObject()
        w = dict.fromkeys(COND)
        for b, k in enumerate(CKEYS):
            if m >> b & 1:
                v = cv(b, VALUES[COND[k]])
                put(c, k, COND[k], v)
                w[k] = v
        s.GetList(LIST).append(ch)
        cw.append(w)
    return h, (want, cw)


def round_trip(x, h, want):
    r = x.r
    s = h.GetObject()
    before = dump_all(s)
    r.check(same(list(before), list(want)), "settings in memory differ from the values set: ", before, " ", want)
    JsonIO.write_settings(s, x.f)
    with open(x.f, encoding="utf-8") as f:
        text = f.read()
    try:
        j = json.loads(text)
    except ValueError as e:
        r.fail("the file written is not valid JSON: %s: %s" % (e, text[:2000]))
    r.check(set(j) == set(SEC) | {LIST} and all(set(j[s]) == set(SEC[s]) for s in SEC) and all(set(c) == set(COND) for c in j[LIST]), "keys in the file: ", j)
    try:
        got = dump_all(JsonIO.read_settings(x.f).GetObject())
    except Exception as e:
        r.fail("settings written by the program cannot be read back: %s: %s\n%s" % (type(e).__name__, e, text[:2000]))
    for sec in SEC:
        for k in SEC[sec]:
            r.check(same(got[0][sec][k], want[0][sec][k]), "%s.%s: %r read back instead of %r" % (sec, k, got[0][sec][k], want[0][sec][k]))
    r.check(len(got[1]) == len(want[1]), "%d conditions instead of %d" % (len(got[1]), len(want[1])))
    for i, (a, b) in enumerate(zip(got[1], want[1])):
        for k in COND:
            r.check(same(a[k], b[k]), "condition %d %s: %r read back instead of %r" % (i, k, a[k], b[k]))
    r.check(same(list(dump_all(s)), list(before)), "writing changed the settings")
    r.states += 1
    r.transitions += 2


def pick(n):
    return lambda b, vals: copy.copy(vals[(n * (b + 3) + 7 * b + n // 5) % len(vals)]) if isinstance(vals[0], list) else vals[(n * (b + 3) + 7 * b + n // 5) % len(vals)]


def values_part(x):
    r = x.r
    # one key at a time with every value
    for b, (sec, k) in enumerate(KEYS):
        for i in range(len(VALUES[SEC[sec][k]])):
            if r.take():
                def body():
                    h, w = build(1 << b, lambda _, vals: vals[i], [])
                    round_trip(x, h, w)
                    r.nontrivial(("v", b, i))
                r.run("only %s.%s = %r" % (sec, k, VALUES[SEC[sec][k]][i]), body)
    for b, k in enumerate(CKEYS):
        for i in range(len(VALUES[COND[k]])):
            for n in (1, 2):
                if r.take():
                    def body():
                        h, w = build(0, None, [(1 << b, lambda _, vals: vals[i])] * n)
                        round_trip(x, h, w)
                        r.nontrivial(("c", b, i, n))
                    r.run("%d condition(s) with only %s = %r" % (n, k, VALUES[COND[k]][i]), body)
    # the text that marks unset values
    for b, (sec, k) in enumerate(KEYS):
        if SEC[sec][k] == S and r.take():
            def body():
                h, w = build(1 << b, lambda _, vals: "Not Set.", [(2, lambda _, vals: "Not Set.")])
                JsonIO.write_settings(h.GetObject(), x.f)
                got = dump_all(JsonIO.read_settings(x.f).GetObject())
                r.states += 1
                if got[0][sec][k] != "Not Set." or got[1][0]["condition_type"] != "Not Set.":
                    r.fail("the string 'Not Set.' set as %s.%s is read back as %r" % (sec, k, got[0][sec][k]), "not-set-string")
            r.run("%s.%s = 'Not Set.'" % (sec, k), body)
    # all set/unset masks of the values of the settings, in blocks
    step = 1 if r.thorough else 3
    for blk in range(256):
        if r.take():
            def body():
                for low in range(blk % step, 512, step):
                    mask = blk << 9 | low
                    r.desc = "mask %d" % mask
                    h, w = build(mask, pick(mask), [])
                    round_trip(x, h, w)
                    if mask and mask != 2**17 - 1:
                        r.nontrivial(("m", mask))
            r.run("masks %d.." % (blk << 9), body)
    # all masks of one condition, all pairs of a few masks, lists of up to 12 conditions
    for m in range(128):
        if r.take():
            def body():
                for n in range(8 if r.thorough else 3):
                    h, w = build(pickmask(m + n), pick(n), [(m, pick(n + 3 * m))])
                    round_trip(x, h, w)
                    r.nontrivial(("cm", m, n))
            r.run("one condition, mask %d" % m, body)
    few = [0, 1, 2, 64, 127, 0b1010101, 0b0101010, 126]
    for a in few:
        for b in few:
            for c in few + [None]:
                if r.take():
                    def body():
                        h, w = build(2**17 - 1, pick(a + b), [(m, pick(i + m)) for i, m in enumerate((a, b, c)) if m is not None])
                        round_trip(x, h, w)
                        r.nontrivial(("cc", a, b, c))
                    r.run("conditions with masks %s %s %s" % (a, b, c), body)
    for n in range(4, 13):
        if r.take():
            def body():
                h, w = build(2**17 - 1, pick(n), [(127 - i, pick(i + n)) for i in range(n)])
                round_trip(x, h, w)
                r.nontrivial(("cn", n))
            r.run("%d conditions" % n, body)


def pickmask(n):
    return (n * 2654435761) >> 7 & (2**17 - 1)


FULL = {"general_settings": {"input_filename": "a.stl", "output_directory_name": "out", "echo_level": 1, "write_output_to_file": False},
        "background_grid_settings": {"grid_type": "b_spline_grid", "lower_bound_xyz": [0.0, -1, 2], "upper_bound_xyz": [1, 2, 3], "lower_bound_uvw": [0, 0, 0], "upper_bound_uvw": [1.5, 1, 1],
                                     "polynomial_order": [2, 2, 3], "number_of_elements": [4, 5, 6]},
        "trimmed_quadrature_rule_settings": {"moment_fitting_residual": 1e-5, "min_element_volume_ratio": 0, "min_num_boundary_triangles": 50, "neglect_elements_if_stl_is_flawed": True,
                                             "activate_fictitious_domain_with_alpha": 1e-3},
        "non_trimmed_quadrature_rule_settings": {"integration_method": "GGQ_Optimal"},
        "conditions_settings_list": [{"condition_id": 1, "condition_type": "PenaltySupportCondition", "input_filename": "b.stl", "modulus": 5, "direction": [0, 0, -1], "value": [0.0, 0, 0],
                                      "penalty_factor": 1e10}, {"condition_id": 2, "input_filename": "c.stl"}]}
# values of the wrong type for each type (booleans within lists of numbers are accepted as 0 and 1 and left out)
VAL = {"str": "abc", "empty string": "", "int": 3, "negative": -3, "real": 2.5, "negative real": -2.5, "whole real": 4.0, "true": True, "false": False, "null": None, "list": [], "list1": [1],
       "list2": [1, 2], "list4": [1, 2, 3, 4], "ints": [1, 2, 3], "reals": [0.5, 1.5, 2.5], "negatives": [-1, 2, 3], "strings": ["a", "b", "c"], "three letters": "123",
       "nested": [[1, 2, 3]], "mixed": [1, "b", 3], "nulls": [None, None, None], "object": {}, "object1": {"a": 1}, "objects": [{}], "large": 2**64, "large negative": -2**70, "big list": [2**64, 1, 1],
       "part real": [1, 2.5, 3], "enum": "Gauss", "grid": "b_spline_grid", "lower case": "gauss", "number string": "1"}
OK = {S: {"str", "empty string", "three letters", "enum", "grid", "lower case", "number string"}, B: {"true", "false"}, I: {"int"},
      D: {"int", "negative", "real", "negative real", "whole real", "large", "large negative"}, V: {"ints", "reals", "negatives", "part real", "big list"}, N: {"ints"}, M: {"enum"}, G: {"grid"}}


def attempt(x, text):
    with open(x.f, "w", encoding="utf-8") as f:
        f.write(text)
    try:
        return JsonIO.read_settings(x.f), ""
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, e)


def expected(j):
    """values a settings file defines (None: unset), over the defaults"""
    d = dump_all(Q.Dictionary.Create("Settings").GetObject())[0]
    conv = {S: lambda v: v, B: lambda v: v, I: lambda v: v, D: float, V: lambda v: [float(c) for c in v], N: lambda v: v,
            M: lambda v: METHODS[NAMES.index(v)], G: lambda v: GRIDS[GNAMES.index(v)]}
    for sec in SEC:
        for k, v in j.get(sec, {}).items():
            d[sec][k] = conv[SEC[sec][k]](v)
    return [d, [{k: conv[COND[k]](c[k]) if k in c else None for k in COND} for c in j.get(LIST, [])]]


def files_part(x):
    r = x.r

    def accept(j, what, text=None):
        h, err = attempt(x, text or json.dumps(j))
        r.check(h is not None, what, " rejected: ", err)
        r.check(same(list(dump_all(h.GetObject())), expected(j)), what, lambda: " gives other values: %s instead of %s" % (dump_all(h.GetObject()), expected(j)))
        r.transitions += 1

    def reject(text, what):
        h, err = attempt(x, text)
        r.check(h is None, what, " accepted: ", text[:1500])
        r.transitions += 1

    # every key with every kind of value
    places = [((sec,), k, g) for sec in SEC for k, g in SEC[sec].items()] + [((LIST, i), k, g) for i in (0, 1) for k, g in COND.items()]
    for path, k, g in places:
        for name, v in VAL.items():
            if not r.take():
                continue

            def body():
                j = copy.deepcopy(FULL)
                d = j
                for p in path:
                    d = d[p]
                d[k] = v
                if name in OK[g]:
                    accept(j, "%s %s = %r" % (path, k, v))
                else:
                    reject(json.dumps(j), "%s %s = %r" % (path, k, v))
                r.states += 1
                r.nontrivial((path, k, name))
            r.run("%s %s = %s" % (path, k, name), body)
    # unknown keys and keys of another section at every level, with every kind of value
    levels = [()] + [(s,) for s in SEC] + [(LIST, 0), (LIST, 1)]
    allkeys = sorted({k for s in SEC for k in SEC[s]} | set(COND) | set(SEC) | {LIST, "unknown", "", "Echo_level", "echo_level ", "main"})
    good = {S: "str", B: "true", I: "int", D: "real", V: "reals", N: "ints", M: "enum", G: "grid"}
    for lv in levels:
        known = set(SEC) | {LIST} if not lv else set(SEC[lv[0]]) if len(lv) == 1 else set(COND)
        for k in allkeys:
            if k in known or not r.take():
                continue

            def body():
                for name, v in list(VAL.items()) + [("Not Set.", "Not Set."), ("section", FULL["general_settings"]), ("conditions", FULL[LIST])]:
                    j = copy.deepcopy(FULL)
                    d = j
                    for p in lv:
                        d = d[p]
                    d[k] = v
                    reject(json.dumps(j), "unknown key %s%r = %r" % (lv, k, v))
                    r.states += 1
                r.nontrivial((lv, k))
            r.run("key %r in %s" % (k, lv), body)
    # sections and lists of the wrong type
    for k in list(SEC) + [LIST]:
        for name, v in list(VAL.items()) + [("Not Set.", "Not Set."), ("objects with a number", [{}, 5]), ("number first", [5, {}]), ("unknown key", [{"a": 1}]), ("list of lists", [[{}]]), ("null first", [None])]:
            if not r.take():
                continue

            def body():
                j = copy.deepcopy(FULL)
                j[k] = v
                if k == LIST and name in ("list", "objects") or k != LIST and name == "object":
                    accept(j, "%s = %r" % (k, v))
                else:
                    reject(json.dumps(j), "%s = %r" % (k, v))
                r.states += 1
                r.nontrivial((k, name))
            r.run("%s = %s" % (k, name), body)
    # every subset of sections, every order, keys left out
    for m in range(32):
        for rev in (0, 1):
            if not r.take():
                continue

            def body():
                ks = [k for b, k in enumerate(FULL) if m >> b & 1]
                accept({k: FULL[k] for k in (ks[::-1] if rev else ks)}, "sections %s" % ks)
                for k in ks:
                    for left in (list(FULL[k]) if isinstance(FULL[k], dict) else range(len(FULL[k]))):
                        j = copy.deepcopy({q: FULL[q] for q in ks})
                        del j[k][left]
                        accept(j, "without %s.%s" % (k, left))
                r.states += 1
                r.nontrivial(("sections", m, rev))
            r.run("sections %d %d" % (m, rev), body)
    # no settings at all
    for t in ("", " ", "\n", "null", "[]", "5", "\"a\"", "[{}]", "true", "{}{}", "{", "}", "{\"general_settings\" : {}", "not a file", "[" + json.dumps(FULL) + "]"):
        if r.take():
            r.run("file %r" % t[:30], lambda: reject(t, "file %r" % t[:30]))
    if r.take():
        def body():
            os.path.exists(x.f) and os.remove(x.f)
            try:
                JsonIO.read_settings(x.f)
            except Exception:
                return
            r.fail("a missing file was read")
        r.run("missing file", body)
    # the file cut at every byte and with every structural character left out
    h = Q.Dictionary.Create("Settings")
    JsonIO.write_settings(h.GetObject(), x.f)
    texts = [json.dumps(FULL), json.dumps(FULL, indent=4), open(x.f).read()]
    for ti, t in enumerate(texts):
        for blk in range(0, len(t), 50):
            if not r.take():
                continue

            def body():
                for n in range(blk, min(blk + 50, len(t))):
                    if t[n:].strip():
                        reject(t[:n], "file cut after %d bytes" % n)
                    if t[n] in "{}[]:,":
                        try:
                            json.loads(t[:n] + t[n + 1:])
                        except ValueError:
                            reject(t[:n] + t[n + 1:], "file without the '%s' at %d" % (t[n], n))
                    r.states += 1
                r.nontrivial(("cut", ti, blk))
            r.run("file %d cut from %d" % (ti, blk), body)


def main():
    r = Run(sys.argv[1:])
    x = Ctx(r)
    if "values" in r.args:
        values_part(x)
    if "files" in r.args:
        files_part(x)
    os.path.exists(x.f) and os.remove(x.f)
    return r.finish()


sys.exit(main())
