"""Runtime of the Python harnesses: same command line and result format as vp.hpp."""
import array, hashlib, json, os, struct, sys, traceback


class Stop(Exception):
    pass


class Run:
    def __init__(self, argv):
        self.prop = self.out = ""
        self.tier = "quick"
        self.shard, self.nshards, self.only, self.idx = 0, 1, -1, -1
        self.cases = self.states = self.transitions = self.traces = 0
        self.capped = False
        self.counters, self.samples, self.violations, self.distinct = {}, [], [], set()
        self.args = []
        it = iter(argv)
        for a in it:
            if a == "--prop": self.prop = next(it)
            elif a == "--tier": self.tier = next(it)
            elif a == "--shard": self.shard = int(next(it))
            elif a == "--nshards": self.nshards = int(next(it))
            elif a == "--only": self.only = int(next(it))
            elif a == "--out": self.out = next(it)
            else: self.args.append(a)
        self.desc = ""

    @property
    def thorough(self):
        return self.tier == "thorough"

    def take(self):
        self.idx += 1
        if self.only >= 0:
            return self.idx == self.only
        return len(self.violations) < 40 and self.idx % self.nshards == self.shard

    def run(self, desc, body):
        self.desc = desc
        if self.only >= 0:
            print("CASE %d: %s" % (self.idx, desc), file=sys.stderr, flush=True)
        if self.out:   # a crash leaves the number of the case behind (renamed by finish)
            with open(self.out + ".current", "w") as f:
                f.write("%d 11\n" % self.idx)
        self.cases += 1
        try:
            body()
        except Stop:
            pass
        except Exception as e:
            self.record("unexpected exception: %s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-500:]), "exception")

    def record(self, msg, key=""):
        self.violations.append({"index": self.idx, "desc": self.desc, "msg": msg, "key": key})
        if self.only >= 0:
            print("FAIL " + msg, file=sys.stderr, flush=True)

    def fail(self, msg, key=""):
        self.record(msg, key)
        raise Stop()

    def check(self, cond, *msg):
        if not cond:
            self.fail("".join(str(m() if callable(m) else m) for m in msg))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def nontrivial(self, sig):
        self.distinct.add(struct.unpack("<Q", hashlib.md5(repr(sig).encode()).digest()[:8])[0])

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def finish(self):
        d = {"cases": self.cases, "enumerated": self.idx + 1, "states": self.states, "transitions": self.transitions, "traces": self.traces,
             "capped": self.capped, "counters": self.counters, "samples": self.samples, "violations": self.violations}
        if self.out:
            with open(self.out, "w") as f:
                json.dump(d, f)
            with open(self.out + ".sig", "wb") as f:
                array.array("Q", sorted(self.distinct)).tofile(f)
            if os.path.exists(self.out + ".current"):
                os.remove(self.out + ".current")
        else:
            print(json.dumps(d))
        return 0
