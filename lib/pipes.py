"""Pipelines on whole managers."""
from collect import *
from history import Dice
from mgr import View, compare, reachable, quiet, neg, Order, Val, Ref, Move, Bad, atom, i32
from reorder import SIFT, WINDOW, BF, DF

AND, OR, XOR = 0, 1, 2
READY, CREATE, UPDATE = None, None, None


def ev(op, a, b):
    return (a & b, a | b, a ^ b)[op]


class Pipe:
    """one pipeline from its initialisation to its end"""

    def __init__(self, ctx, m, op, d):
        self.ctx, self.m, self.op, self.d = ctx, m, op, d
        self.v = View(m)
        self.full = (1 << (1 << self.v.n)) - 1
        self.prov = []

    def operands(self):
        m = self.m
        l = []
        for x, (u, _) in m.users.items():
            l.append((u, self.tt(u), 0))
        o = m.mf("userOneBdd")
        l.append((o, self.full, 0))
        l.append((("p", o[1], o[2] ^ 1), 0, 0))
        return l

    def tt(self, u):
        return self.v.href(self.m.internal(u), "an operand")

    def init(self):
        if i32(self.m.call("Cal_PipelineInit", self.m.bm, self.op)) != 1:
            raise Bad("a pipeline cannot be started")

    def create(self, a, b):
        m = self.m
        sa, sb = self.d.roll(3) == 0, self.d.roll(3) == 0
        (u, t, k), (w, s, l) = a, b
        if sa:
            u, t = ("p", u[1], u[2] ^ 1), t ^ self.full
        if sb:
            w, s = ("p", w[1], w[2] ^ 1), s ^ self.full
        r = m.call("Cal_PipelineCreateProvisionalBdd", m.bm, u, w)
        if not (isinstance(r, tuple) and r[0] == "p"):
            raise Bad("no provisional diagram is made")
        if i32(m.call("Cal_BddIsProvisional", m.bm, r)) == 0:
            raise Bad("a provisional diagram is not recognised as such")
        self.prov.append((r, ev(self.op, t, s), max(k, l) + 1))
        return self.prov[-1]

    def execute(self):
        if i32(self.m.call("Cal_PipelineExecute", self.m.bm)) != 1:
            raise Bad("a pipeline is not executed")

    def update(self, which):
        m = self.m
        got = []
        for i in which:
            r, t, k = self.prov[i]
            u = m.call("Cal_PipelineUpdateProvisionalBdd", m.bm, r)
            got.append((u, t, i))
        return got

    def finish(self, got, close=True):
        m = self.m
        m.call("Cal_PipelineQuit", m.bm)
        b = self.v2 = View(m)
        for u, t, i in got:
            if not (isinstance(u, tuple) and u[0] == "p"):
                raise Bad("no diagram is returned for request %d" % i)
            if b.href(m.internal(u), "the result of request %d" % i) != t:
                raise Val("the result of request %d of the pipeline is another function" % i)
            m.users["p%d" % len(m.users)] = (u, None)
        settled(b)
        return b


FUNS = [A & B | C & D, A ^ B ^ C ^ D, (A | B) & no(C), C ^ D, B & no(D), no(A) | C & D]


def pipeline(ctx, F, n=40, seed0=1, rule="pipeline", middle=(), inner=(), rounds=2, meths=(BF, DF), realpages=True, maxreq=9, close=True):
    """random pipelines; middle: what happens between creation and execution; inner: what the threshold test does between the levels"""
    for k in range(ctx.many(n)):
        if not ctx.mine():
            continue

        def f(m):
            d = Dice(seed0 + k)
            users = [d.pick(FUNS) for _ in range(1 + d.roll(3))]
            populate(m, Spec(users=users))
            quiet_thresholds(m)
            for r in range(rounds):
                one(ctx, F, m, d, maxreq, middle, inner, meths)
                ctx.ob(rule)
                for x in [x for x in m.users if x[0] == "p"]:
                    if d.roll(2):
                        m.call("Cal_BddFree", m.bm, m.users.pop(x)[0])
            View(m)
            reachable(m)
            if close:
                quiet(m)
        story(ctx, F, rule, "pipeline %d" % (seed0 + k), f, addr=k & 1, realpages=realpages)


def one(ctx, F, m, d, maxreq, middle, inner, meths):
    op = d.roll(3)
    m.call("Cal_PipelineSetDepth", m.bm, d.pick((0, 1, 2, 3, 4, 6)))
    p = Pipe(ctx, m, op, d)
    p.init()
    pool = p.operands()
    chain = d.roll(2)
    for i in range(d.roll(maxreq + 1)):
        a = p.prov[-1] if chain and p.prov and d.roll(4) else d.pick(pool + p.prov)
        b = d.pick(pool + p.prov)
        if d.roll(2):
            a, b = b, a
        p.create(a, b)
        if middle and d.roll(4) == 0:
            pool = act(m, d, d.pick(middle), meths, p, pool)
    if middle:
        act(m, d, d.pick(middle), meths, p, pool)
    what = d.pick(inner)
    if what:
        arm(m, d, what, meths)
    if what == "overflow":
        m.warnok = True
        r = i32(m.call("Cal_PipelineExecute", m.bm))
        m.warnok = False
        over = i32(m.mf("overflow"))
        m.setm("nodeLimit", 0)
        m.setm("overflow", 0)
        if (r == 0) != (over == 1):
            raise Bad("a pipeline reports %s although the node limit was %s" % ("success" if r else "failure", "exceeded" if over else "kept"))
        disarm(m)
        if over:
            p.finish([])
            return
    else:
        p.execute()
    if what:
        disarm(m)
    l = [i for i in range(len(p.prov)) if d.roll(3)]
    got = p.update(l)
    p.finish(got)


def act(m, d, what, meths, p, pool):
    if what == "var":
        if p.v.n < 6:
            n = p.v.n
            m.newvar(d.pick(("First", "Last")), name="v%d" % (n + 1))
            p.v = View(m)
            w = lambda t: t | t << (1 << n)
            p.full = w(p.full)
            p.prov = [(r, w(t), k) for r, t, k in p.prov]
            return [(u, w(t), k) for u, t, k in pool] + [(m.users["v%d" % (n + 1)][0], atom(n, n + 1), 0)]
    elif what == "gc":
        m.call("Cal_BddManagerGC", m.bm)
    elif what == "repack":
        lower(m)
        m.call("CalBddPostProcessing", m.bm)
        quiet_thresholds(m)
    elif what == "reorder":
        m.call("Cal_BddDynamicReordering", m.bm, d.pick((SIFT, WINDOW)), d.pick(meths))
        m.call("Cal_BddReorder", m.bm)
        m.setm("reorderTechnique", 0)
    return pool


def arm(m, d, what, meths):
    if what == "gc":
        m.setm("gcCheck", 0)
        m.setm("uniqueTableGCLimit", 0)
    elif what == "repack":
        lower(m)
    elif what == "overflow":
        m.setm("gcCheck", d.roll(8))
        m.setm("uniqueTableGCLimit", 1)
        m.setm("nodeLimit", 1)
    elif what == "reorder":
        m.call("Cal_BddDynamicReordering", m.bm, d.pick((SIFT, WINDOW)), d.pick(meths))
        m.setm("gcCheck", 0)
        m.setm("uniqueTableGCLimit", 0)
        m.setm("reorderingThreshold", 0)


def disarm(m):
    m.setm("reorderTechnique", 0)
    quiet_thresholds(m)


def states(ctx, F, rule="pipeline states"):
    """calls out of turn are refused and change nothing"""
    if not ctx.mine():
        return

    def f(m):
        populate(m, Spec(users=[A & B | C & D, C ^ D]))
        quiet_thresholds(m)
        f0, f1 = m.users["f0"][0], m.users["f1"][0]
        null = m.call("Cal_BddNull", m.bm)
        m.warnok = True

        def refused(what, name, *args):
            b = mark(m)
            r = m.call(name, m.bm, *args)
            if r != null and not (isinstance(r, int) and i32(r) == 0):
                raise Bad("%s %s is not refused" % (name, what))
            if mark(m) != b:
                raise Bad("%s %s changes the pipeline although it is refused" % (name, what))
            ctx.ob(rule)

        for turn in range(2):
            refused("without a pipeline", "Cal_PipelineExecute")
            refused("without a pipeline", "Cal_PipelineCreateProvisionalBdd", f0, f1)
            refused("without a pipeline", "Cal_PipelineUpdateProvisionalBdd", f0)
            for bad in (3, 7, 0xFFFFFFFF):
                refused("with an unknown operation", "Cal_PipelineInit", bad)
            p = Pipe(ctx, m, XOR, Dice(1))
            p.init()
            a = m.call("Cal_PipelineCreateProvisionalBdd", m.bm, f0, f1)
            b = m.call("Cal_PipelineCreateProvisionalBdd", m.bm, a, f0)
            x, y = p.tt(f0), p.tt(f1)
            p.prov = [(a, x ^ y, 1), (b, y, 2)]
            refused("while requests are collected", "Cal_PipelineInit", AND)
            refused("before the execution", "Cal_PipelineUpdateProvisionalBdd", a)
            if turn == 0:
                p.execute()
                refused("after the execution", "Cal_PipelineInit", AND)
                refused("after the execution", "Cal_PipelineExecute")
                refused("after the execution", "Cal_PipelineCreateProvisionalBdd", f0, f1)
                p.finish(p.update((0, 1, 0)))
            else:
                # ended without execution
                p.finish([])
        m.warnok = False
        for x in list(m.users):
            if i32(m.call("Cal_BddIsProvisional", m.bm, m.users[x][0])):
                raise Bad("an ordinary diagram is taken for a provisional one")
            ctx.ob(rule)
        one(ctx, F, m, Dice(3), 5, (), (), ())
        reachable(m)
        quiet(m)
    story(ctx, F, rule, "pipeline states", f)


def mark(m):
    B = "Cal_BddManagerStruct"
    l = [m.mf(x) for x in ("pipelineState", "pipelineDepth", "pipelineFn", "userProvisionalNodeList")]
    a = m.mf("requestNodeListArray")
    if a[1] in m.s.d["gone"]:
        raise Bad("the list of requests is released")
    return l + [m.arr(a, i, 8) for i in range(8)]


def deep(ctx, F, rule="deep pipelines"):
    """chains as long as the pipeline has stages, and longer"""
    for k, depth in enumerate((0, 1, 4, 6) if ctx.thorough else (0, 6)):
        if not ctx.mine():
            continue

        def f(m):
            populate(m, Spec(users=[A & B | C & D]))
            quiet_thresholds(m)
            m.call("Cal_PipelineSetDepth", m.bm, depth)
            p = Pipe(ctx, m, (XOR, OR, AND, XOR)[k], Dice(k + 1))
            p.init()
            null = m.call("Cal_BddNull", m.bm)
            u = m.users["f0"][0]
            t = p.tt(u)
            m.warnok = True
            at = {}
            full = False
            for i in range(300):
                v = "v%d" % (1 + i % 4)
                r = m.call("Cal_PipelineCreateProvisionalBdd", m.bm, u, m.users[v][0])
                if r == null:
                    full = True
                    break
                u, t = r, ev(p.op, t, p.v.atoms[1 + i % 4])
                p.prov.append((u, t, i + 1))
                if i > 250 or i % 50 == 0:
                    at[i] = t
            inf = m.s.objs[m.mf("requestNodeListArray")[1]]
            cap = inf[2] // 8
            if not full and len(p.prov) > cap:
                raise Bad("more stages than the list of requests has room for")
            p.execute()
            m.warnok = False
            p.finish(p.update(sorted(at)))
            ctx.ob(rule)
            reachable(m)
            quiet(m)
        story(ctx, F, rule, "a chain of requests (depth %d)" % depth, f)
