"""Check harness: obligations, violations, known findings, evidence."""
import hashlib, importlib, json, os, pickle, sys, time, traceback
from . import build, prog

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Missing(Exception):
    """An anchor the rule is written against is not in the program."""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obls = 0
        self.viol = []
        self.keys = set()
        self.counts = {}
        self.samples = []
        self._crates = {}
        self.fns = set()
        d, self.info = build.ensure_dump()
        self.dir = d
        self.rules = []

    def crate(self, name):
        if name not in self._crates:
            self._crates[name] = prog.Crate(
                os.path.join(self.dir, name + ".jsonl"))
        return self._crates[name]

    @property
    def lib(self):
        return self.crate("rav1e.lib")

    @property
    def bin(self):
        return self.crate("rav1e.bin")

    def saw(self, *fns):
        for f in fns:
            self.fns.add(getattr(f, "nname", f))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, text):
        self.rules.append(text)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:300])

    def violate(self, key, msg, where=""):
        if key in self.keys:
            return
        self.keys.add(key)
        self.viol.append((key, msg, where))

    def ob(self, cond, key, msg, where=""):
        """One proof obligation."""
        self.obls += 1
        if not cond:
            self.violate(key, msg, where)
        return bool(cond)

    def floor(self, what, n, least):
        self.counts[what] = n
        self.ob(n >= least, "floor:" + what,
                "only %d %s found, at least %d were confirmed by hand: the "
                "rule no longer sees the code it is about" % (n, what, least))

    def parallel(self, tasks):
        """Run independent parts of a rule, each task(self), in forked
        processes and take over what they found, in order."""
        jobs = int(os.environ.get("VERIF_JOBS", "6") or 1)
        if jobs < 2:
            for t in tasks:
                t(self)
            return
        sys.stdout.flush()
        todo, live, done = list(enumerate(tasks)), {}, {}
        while todo or live:
            while todo and len(live) < jobs:
                i, t = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if not pid:
                    os.close(r)
                    self._child(t, w)
                os.close(w)
                live[pid] = (i, os.fdopen(r, "rb"))
            # a child's report fits no pipe in general: drain oldest first
            pid = next(iter(live))
            i, fd = live.pop(pid)
            done[i] = fd.read()
            fd.close()
            os.waitpid(pid, 0)
        for i in sorted(done):
            if not done[i]:
                raise RuntimeError("a part of the analysis ended early")
            d = pickle.loads(done[i])
            self.obls += d["obls"]
            self.fns |= d["fns"]
            for k, n in d["counts"].items():
                self.count(k, n)
            for s in d["samples"]:
                self.sample(s)
            for v in d["viol"]:
                self.violate(*v)
            if d["exc"]:
                if d["exc"][0] == "Missing":
                    raise Missing(d["exc"][1])
                raise RuntimeError("%s: %s" % d["exc"])

    def _child(self, t, w):
        code = 1
        try:
            self.obls, self.viol, self.keys = 0, [], set()
            self.counts, self.samples, self.fns = {}, [], set()
            exc = None
            try:
                t(self)
            except Exception as e:
                exc = (type(e).__name__, str(e)[:300])
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps({
                    "obls": self.obls, "viol": self.viol, "fns": self.fns,
                    "counts": self.counts, "samples": self.samples,
                    "exc": exc}))
            code = 0
        finally:
            os._exit(code)

    def fn(self, suffix, crate=None):
        c = crate or self.lib
        r = c.find(suffix)
        if len(r) != 1:
            raise Missing("%d functions named %s" % (len(r), suffix))
        self.saw(r[0])
        return r[0]


def known(pid):
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                p = dict(x.split("=", 1) for x in
                         line[8:].split(" :: ")[0].split() if "=" in x)
                if p.get("property") == pid:
                    r[p["key"]] = line.split(" :: ", 1)[1]
    return r


def run(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    ctx = None
    try:
        ctx = Ctx(pid)
        mod.run(ctx)
    except build.BuildError as e:
        return finish(pid, tier, seed, t0, ctx, mod, [
            ("build", "the tree does not type-check: " + str(e)[-600:], "")])
    except Missing as e:
        ctx.violate("anchor-missing:" + str(e), "anchor missing: " + str(e))
    except Exception as e:
        traceback.print_exc(limit=-3, file=sys.stdout)
        ctx.violate("analysis-incomplete:" + type(e).__name__,
                    "the analysis could not establish the property (%s: %s)" %
                    (type(e).__name__, str(e)[:300]))
    return finish(pid, tier, seed, t0, ctx, mod, ctx.viol)


def finish(pid, tier, seed, t0, ctx, mod, viol):
    kn = known(pid)
    new = [v for v in viol if v[0] not in kn]
    old = [v for v in viol if v[0] in kn]
    for k, m, w in old:
        print("KNOWN-FINDING: property=%s key=%s %s" % (pid, k, kn[k]))
    rp = os.path.join(EVID, pid + ".report.txt")
    with open(rp, "w") as f:
        for k, m, w in new:
            f.write("%s\n  at %s\n  %s\n\n" % (k, w or "-", m))
    for k, m, w in new[:40]:
        print("VIOLATION property=%s replay=%s key=%s at=%s :: %s" % (
            pid, rp, k.replace(" ", "_"), (w or "-").replace(" ", "_"),
            m.replace("\n", " ")[:500]))
    cov = {"explanation": getattr(mod, "RULE", "").strip()}
    if ctx is not None:
        cov.update({
            "obligations": ctx.obls, "discharged": ctx.obls - len(viol),
            "functions_analysed": len(ctx.fns),
            "counts": ctx.counts, "samples": ctx.samples or ["-"],
            "functions": sorted(ctx.fns)[:60],
            "dump": ctx.info,
        })
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": getattr(mod, "ASSUME", []),
          "violations": len(new)}
    if viol:
        cov["violation_details"] = [{"key": k, "what": m, "where": w}
                                    for k, m, w in viol][:100]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d functions, %d new violations, %d known, "
          "%.1f s" % (pid, cov.get("obligations", 0),
                      cov.get("functions_analysed", 0), len(new), len(old),
                      time.time() - t0))
    return 1 if new else 0
