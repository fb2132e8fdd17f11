"""Runner: loads the program, runs one property's rules, writes evidence,
applies the known-findings list and prints the verdict."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.environ.get("CAL_OUT", ROOT)
sys.path.insert(0, HERE)
import ir
from ir import AnalysisBroken


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol = []
        self.obligations = 0
        self.discharged = 0
        self.fns = set()
        self.rules = {}
        self.samples = []
        self.paths = 0
        self.steps = 0
        self.worlds = 0
        self.notes = []
        self._prog = None
        self.load = ir.load
        self.assumptions = []
        self.shard = (0, 1)
        self.case = 0
        self.whole = False
        self.floors = []

    # -- distribution over worker processes: every worker walks the same case
    # enumeration and analyses the cases that are its own
    def mine(self):
        if self.whole:
            return True
        self.case += 1
        return self.case % self.shard[1] == self.shard[0]

    def part(self, f, *a, **kw):
        """one indivisible piece of work"""
        if not self.mine():
            return
        old, self.whole = self.whole, True
        try:
            f(self, *a, **kw)
        finally:
            self.whole = old

    def state(self):
        return dict(viol=self.viol, obligations=self.obligations, discharged=self.discharged, fns=self.fns, rules=self.rules,
                    samples=self.samples, paths=self.paths, steps=self.steps, worlds=self.worlds, notes=self.notes,
                    assumptions=self.assumptions, floors=self.floors, case=self.case)

    def merge(self, s):
        for v in s["viol"]:
            if not any(x["sig"] == v["sig"] and x["msg"] == v["msg"] for x in self.viol):
                self.viol.append(v)
        for k in ("obligations", "discharged", "paths", "steps", "worlds"):
            setattr(self, k, getattr(self, k) + s[k])
        self.fns |= s["fns"]
        for k, (a, b) in s["rules"].items():
            r = self.rules.setdefault(k, [0, 0])
            r[0] += a
            r[1] += b
        for x in s["samples"]:
            self.sample(x)
        for k in ("notes", "assumptions", "floors"):
            for x in s[k]:
                if x not in getattr(self, k):
                    getattr(self, k).append(x)

    def many(self, n):
        """how many histories of a family are analysed"""
        return n if self.thorough else 3 * n

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def prog(self):
        if self._prog is None:
            self._prog = self.load()
        return self._prog

    def violation(self, rule, fn, msg, loc="", trace=(), detail=""):
        """sig = rule:function[:detail] identifies the construct independent of line numbers"""
        sig = "%s:%s%s" % (rule, fn, (":" + detail) if detail else "")
        if any(v["sig"] == sig and v["msg"] == msg for v in self.viol):
            return
        self.viol.append(dict(sig=sig, rule=rule, fn=fn, msg=msg, loc=loc, trace=list(trace)))

    def ob(self, rule, ok=True, n=1):
        self.obligations += n
        if ok:
            self.discharged += n
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += n
        r[1] += n if ok else 0

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def need(self, rule, minimum):
        """instance floor: a rule that matches fewer sites than confirmed by hand is broken"""
        self.floors.append((rule, minimum))

    def checkfloors(self):
        for rule, minimum in self.floors:
            got = self.worlds if rule == "*" else sum(a for k, (a, b) in self.rules.items() if k.split(":")[0] == rule)
            if got < minimum:
                raise AnalysisBroken("rule %s matched only %d instances (expected at least %d)" % (rule, got, minimum))

    def absorb(self, ai, rule):
        self.fns |= ai.fnseen
        self.paths += ai.paths
        self.steps += ai.steps


def spread(ctx, fn):
    """run fn over all cases in worker processes; deterministic merge in shard order"""
    import pickle
    n = int(os.environ.get("CAL_JOBS", "0")) or min(8, os.cpu_count() or 1)
    ctx.prog
    if n == 1:
        fn(ctx)
        return
    kids = []
    sys.stdout.flush()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                ctx.shard = (k, n)
                try:
                    fn(ctx)
                    out = ("ok", ctx.state())
                except AnalysisBroken as e:
                    out = ("broken", ctx.state(), str(e), traceback.format_exc())
                except BaseException as e:
                    out = ("broken", ctx.state(), "%s: %s" % (type(e).__name__, e), traceback.format_exc())
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    broken = None
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            broken = broken or "a worker of the analysis ended without an answer"
            continue
        o = pickle.loads(data)
        ctx.merge(o[1])
        if o[0] == "broken":
            broken = broken or (o[2] + "\n" + o[3])
    if broken and not ctx.viol:
        raise AnalysisBroken(broken)
    if broken:
        ctx.notes.append("incomplete: " + broken.splitlines()[0])


def known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(pid, fn, technique, load=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    ctx.load = load or ir.load
    sys.setrecursionlimit(20000)
    try:
        spread(ctx, fn)
        if ctx.obligations == 0:
            raise AnalysisBroken("no rule instance was analysed")
        if not ctx.viol:
            ctx.checkfloors()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        traceback.print_exc()
        return 2
    kn = [k for k in known() if k["property"] == pid and k["status"] == "known"]
    used = {}
    real = []
    for v in ctx.viol:
        hit = None
        for k in kn:
            if v["sig"] == k["sig"] and (not k.get("msg") or k["msg"] in v["msg"]):
                hit = k
        if hit:
            used.setdefault(hit["id"], v)
        else:
            real.append(v)
    for k in kn:
        if k["id"] in used:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "out"), exist_ok=True)
    replay = None
    if real:
        replay = os.path.join(OUT, "out", pid + ".violations.txt")
        with open(replay, "w") as f:
            for v in real:
                f.write("rule      %s\nconstruct %s\nsource    %s\nfinding   %s\n" % (v["rule"], v["sig"], v["loc"], v["msg"]))
                for t in v["trace"]:
                    f.write("    path: %s\n" % t)
                f.write("\n")
    ev = dict(property=pid, tier=tier, seed=seed, level="other",
              coverage=dict(
                  explanation=technique + " Obligations are rule instances (one construct or one abstract case of one function); "
                              "each is discharged or reported with function, source line and abstract path.",
                  obligations=ctx.obligations, discharged=ctx.discharged,
                  rules={k: dict(instances=a, discharged=b) for k, (a, b) in sorted(ctx.rules.items())},
                  functions_analysed=len(ctx.fns), functions=sorted(ctx.fns)[:400],
                  abstract_paths=ctx.paths, abstract_steps=ctx.steps, abstract_cases=ctx.worlds,
                  units=sorted(ctx._prog.mods) if ctx._prog else [],
                  program_functions=len(ctx._prog.fns) if ctx._prog else 0,
                  samples=ctx.samples, notes=ctx.notes,
                  known_findings=[k["id"] for k in kn if k["id"] in used]),
              assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=len(real))
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in real:
        print("  [%s] %s: %s" % (v["sig"], v["loc"], v["msg"]))
    if real:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("OK property=%s obligations=%d functions=%d paths=%d wall=%.1fs" % (
        pid, ctx.obligations, len(ctx.fns), ctx.paths, time.time() - t0))
    return 0
