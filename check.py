#!/usr/bin/env python3
"""Driver: builds what a check needs from /repo's working tree, runs the exhaustive harness in shards, confirms every
counterexample by replaying it alone, and writes evidence/<id>.json."""
import fcntl, glob, json, os, re, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))

BASE = ["-std=c++20", "-pthread", "-fopenmp", "-DQUESO_BUILD_TESTING=0", "-w",
        "-I" + REPO, "-I" + REPO + "/queso", "-I" + REPO + "/external_libraries", "-I" + VERIF + "/harness"]
PROFILES = {
    # uninitialised locals hold a fixed (negative, huge) pattern; random draws are answered by the harness
    "plain": {"cxx": "g++", "flags": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-include", VERIF + "/harness/vp_random.hpp"], "ld": []},
    "asan": {"cxx": "g++", "flags": ["-include", VERIF + "/harness/vp_random.hpp", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                     "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
             "ld": ["-fsanitize=address,undefined"]},
    # checked iterators and ranges of the standard containers
    "debug": {"cxx": "g++", "flags": ["-include", VERIF + "/harness/vp_debug.hpp", "-O2", "-g1", "-D_GLIBCXX_DEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
              "ld": ["-fsanitize=address,undefined"]},
    # instrumented memory accesses, but linked against harness/sched.cpp instead of libtsan and libgomp
    "sched": {"cxx": "g++", "flags": ["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"], "ld": ["@sched"]},
    "pymod": {"cxx": "g++", "flags": ["-O1", "-fPIC", "-fvisibility=hidden"], "ld": []},
}


def lib_sources():
    src = []
    for root, dirs, files in os.walk(os.path.join(REPO, "queso")):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "python"))
        src += [os.path.join(root, f) for f in sorted(files) if f.endswith((".cpp", ".cc"))]
    for root, dirs, files in os.walk(os.path.join(REPO, "external_libraries")):
        dirs[:] = sorted(d for d in dirs if d != "pybind11")
        src += [os.path.join(root, f) for f in sorted(files) if f.endswith((".cpp", ".cc"))]
    return src


def ninja_text(profile, harnesses):
    p = PROFILES[profile]
    flags = " ".join(BASE + p["flags"])
    t = ["builddir = .", "rule cxx", "  command = %s -MMD -MF $out.d %s $extra -c $in -o $out" % (p["cxx"], flags),
         "  deps = gcc", "  depfile = $out.d",
         "rule ar", "  command = rm -f $out && ar crs $out $in",
         "rule link", "  command = %s -o $out $in $libs" % p["cxx"], ""]
    objs = []
    for s in lib_sources():
        o = "lib/" + os.path.relpath(s, REPO).replace("/", "__") + ".o"
        objs.append(o)
        t.append("build %s: cxx %s" % (o, s))
    t.append("build libq.a: ar " + " ".join(objs))
    for h in harnesses:
        ld = [x for x in p["ld"] if x != "@sched"]
        extra = []
        if "@sched" in p["ld"]:
            t += ["build sched_rt.o: cxx %s/harness/sched_rt.cpp" % VERIF, "  extra = -fno-sanitize=thread"] \
                if not any("build sched_rt.o" in x for x in t) else []
            extra = ["sched_rt.o"]
            ld += ["-rdynamic", "-ldl", "-lpthread"] + ["-Wl,--wrap=" + w for w in
                   ("memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release", "pthread_mutex_lock", "pthread_mutex_unlock")]
        else:
            ld += ["-fopenmp", "-pthread", "-ldl"]
        t.append("build %s.o: cxx %s/harness/%s.cpp" % (h, VERIF, h))
        if profile == "pymod":
            continue
        t += ["build %s: link %s.o %s libq.a" % (h, h, " ".join(extra)), "  libs = " + " ".join(ld)]
    if profile == "pymod":
        t = [x for x in t if not x.startswith("build libq")]
        inc = subprocess.check_output(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], text=True).strip()
        pobjs = []
        for s in sorted(glob.glob(REPO + "/queso/python/bindings/*.cpp")):
            o = "py/" + os.path.basename(s) + ".o"
            pobjs.append(o)
            t += ["build %s: cxx %s" % (o, s), "  extra = -I%s" % inc]
        sfx = subprocess.check_output(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).strip()
        t += ["build QuESoPythonModule/_QuESoPythonModule%s: link %s %s" % (sfx, " ".join(pobjs), " ".join(objs)),
              "  libs = -shared -fopenmp"]
    return "\n".join(t) + "\n"


def build(profile, harness):
    d = os.path.join(BUILD, profile if REPO == "/repo" else profile)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        nf = os.path.join(d, "build-%s.ninja" % (harness or "mod"))
        with open(nf, "w") as f:
            f.write(ninja_text(profile, [harness] if harness else []))
        r = subprocess.run(["ninja", "-f", nf, "-C", d, "-k", "0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("BUILD-ERROR profile=%s harness=%s" % (profile, harness))
            sys.exit(2)
    if profile == "pymod":
        md = os.path.join(d, "QuESoPythonModule")
        for n in glob.glob(REPO + "/queso/python/*.py"):
            subprocess.run(["cp", n, md], check=True)
        init = os.path.join(md, "__init__.py")
        main = os.path.join(md, "QuESoPythonModule.py")
        if os.path.exists(main):
            os.replace(main, init)
        for n in ("queso/python/scripts", "kratos_interface"):
            subprocess.run(["rm", "-rf", os.path.join(md, os.path.basename(n))])
            subprocess.run(["cp", "-r", os.path.join(REPO, n), md], check=True)
        return d
    return os.path.join(d, harness)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def run_proc(cmd, env, timeout):
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return -999, o


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    t0 = time.time()
    parts = cfg["parts"]
    outd = os.path.join(BUILD, "out", "%s-%s" % (prop, tier))
    subprocess.run(["rm", "-rf", outd])
    os.makedirs(outd)
    ncpu = os.cpu_count() or 4
    env = dict(os.environ, OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0", ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0:abort_on_error=1:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0:abort_on_error=1", VERIF_SEED=str(seed), VP_REPO=REPO, VP_VERIF=VERIF, VERIF_TIER=tier,
               PYTHONDONTWRITEBYTECODE="1", VP_SCRATCH=outd)
    replay_only = None
    if "--replay" in sys.argv:
        replay_only = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        parts = [p for p in parts if p["name"] == replay_only["part"]]
        tier = replay_only["tier"]
    agg = {"cases": 0, "states": 0, "transitions": 0, "traces": 0, "capped": False, "counters": {}, "samples": []}
    sigs = set()
    viol = []
    cmds = {}
    for part in parts:
        name = part["name"]
        if part.get("lang") == "py":
            d = build("pymod", None)
            env["PYTHONPATH"] = d + ":" + os.path.join(VERIF, "harness")
            env["VP_PYMOD"] = d
            base = ["/usr/bin/python3", os.path.join(VERIF, "harness", part["harness"] + ".py")]
        else:
            base = [build(part.get("profile", "plain"), part["harness"])]
        base += ["--prop", part.get("sub", prop), "--tier", tier] + part.get("args", [])
        cmds[name] = base
        if replay_only:
            r = subprocess.run(base + ["--only", str(replay_only["index"]), "--nshards", "1"], env=env)
            print("replay exit status", r.returncode)
            sys.exit(0)
        n = min(part.get("shards", ncpu), ncpu) if not part.get("fixed_shards") else part["fixed_shards"]
        limit = 780 if tier == "quick" else 4 * 3600
        procs = []
        for i in range(n):
            out = os.path.join(outd, "%s-%d.json" % (name, i))
            log = open(out + ".log", "w")
            procs.append((i, out, subprocess.Popen(base + ["--shard", str(i), "--nshards", str(n), "--out", out], env=env,
                                                   stdout=log, stderr=subprocess.STDOUT, start_new_session=True), log))
        deadline = time.time() + limit
        for i, out, p, log in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                for _, _, q, _ in procs:
                    try:
                        os.killpg(q.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                print("TIMEOUT %s part %s shard %d: no verdict" % (prop, name, i))
                sys.exit(3)
            log.close()
            if p.returncode != 0 and os.path.exists(out + ".current"):
                os.replace(out + ".current", out + ".crash")
            if os.path.exists(out + ".crash"):
                idx, sg = open(out + ".crash").read().split()
                tail = open(out + ".log", errors="replace").read()[-1500:]
                viol.append({"part": name, "index": int(idx), "desc": "", "key": "crash",
                             "msg": ("no end within the CPU limit" if int(sg) == 27 else "process died with signal %s" % sg) + ": " + tail,
                             "shard": i, "n": n, "crash": True})
                continue
            if p.returncode != 0 or not os.path.exists(out):
                print(open(out + ".log", errors="replace").read()[-4000:])
                print("HARNESS-ERROR %s part %s shard %d rc=%s" % (prop, name, i, p.returncode))
                sys.exit(2)
            d = json.load(open(out))
            for k in ("cases", "states", "transitions", "traces"):
                agg[k] += d[k]
            agg["capped"] |= d["capped"]
            for k, v in d["counters"].items():
                k2 = k if len(parts) == 1 else name + "." + k
                if k.startswith("max_"):
                    agg["counters"][k2] = max(agg["counters"].get(k2, 0), v)
                else:
                    agg["counters"][k2] = agg["counters"].get(k2, 0) + v
            if i == 0:
                agg["samples"] += ["[%s] %s" % (name, s) for s in d["samples"]]
            with open(out + ".sig", "rb") as f:
                b = f.read()
            import array
            a = array.array("Q"); a.frombytes(b)
            sigs.update((name, x) for x in a) if len(parts) > 1 else sigs.update(a)
            for v in d["violations"]:
                v.update(part=name, shard=i, n=n)
                viol.append(v)
        if viol and not known_findings(prop):
            break
    kf = known_findings(prop)
    reported = 0
    seen_kf = set()
    unknown = []
    for v in viol:
        m = [k for k, _ in kf if k == v.get("key")]
        if m:
            seen_kf.add(m[0])
        else:
            unknown.append(v)
    for k, text in kf:
        if k in seen_kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    confirmed = None
    for v in unknown[:12]:
        base = cmds[v["part"]]
        ro = os.path.join(outd, "replay.json")
        for f in (ro, ro + ".crash", ro + ".current"):
            if os.path.exists(f):
                os.remove(f)
        ok = False
        for attempt, argv in enumerate((["--only", str(v["index"]), "--nshards", "1"], ["--shard", str(v["shard"]), "--nshards", str(v["n"])])):
            rc, o = run_proc(base + argv + ["--out", ro], env, 700)
            if os.path.exists(ro + ".crash") or (rc != 0 and os.path.exists(ro + ".current")):
                ok = True
            elif rc == 0 and os.path.exists(ro):
                dd = json.load(open(ro))
                ok = any(x["index"] == v["index"] for x in dd["violations"]) or (attempt == 1 and bool(dd["violations"]))
                for x in dd["violations"]:
                    if x["index"] == v["index"]:
                        v["desc"] = x["desc"]
            if ok:
                v["log"] = o[-3000:]
                mm = re.search(r"CASE \d+: (.*)", o)
                if mm and not v["desc"]:
                    v["desc"] = mm.group(1)
                v["how"] = "single case" if attempt == 0 else "whole shard"
                break
        if ok:
            confirmed = v
            break
        print("NOT-REPRODUCED property=%s case=%s %s" % (prop, v["index"], v["msg"][:300]))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "wall_s": round(wall, 2),
          "violations": 1 if confirmed else 0, "assumptions": cfg.get("assumptions", [])}
    cov = {"samples": agg["samples"][:6], "rule": cfg["rule"], "exhaustive": not agg["capped"],
           "evaluations": agg["cases"], "distinct_nontrivial": len(sigs), "outcomes": agg["counters"]}
    if cfg["level"] == "model_checking":
        cov.update(states=agg["states"], transitions=agg["transitions"], traces_validated_against_impl=agg["traces"])
    ev["coverage"] = cov
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s tier=%s cases=%d distinct=%d states=%d transitions=%d traces=%d wall=%.1fs" %
          (prop, tier, agg["cases"], len(sigs), agg["states"], agg["transitions"], agg["traces"], wall))
    for k in sorted(agg["counters"]):
        print("   %s = %s" % (k, agg["counters"][k]))
    if confirmed:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s.json" % prop)
        json.dump({"property": prop, "part": confirmed["part"], "tier": tier, "index": confirmed["index"], "case": confirmed["desc"],
                   "failure": confirmed["msg"], "reproduced_by": confirmed["how"], "log": confirmed.get("log", ""),
                   "rerun": "python3 /verif/check.py %s --replay %s" % (prop, rp)}, open(rp, "w"), indent=1)
        print("case: " + confirmed["desc"][:1000])
        print("failure: " + confirmed["msg"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if agg["cases"] == 0:
        print("HARNESS-ERROR %s ran no case" % prop)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
