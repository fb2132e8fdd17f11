"""Whole public operations on canonical worlds (composition, substitution, variable
exchange, quantification, generalised cofactors, implication tests, cubes)."""
import itertools
from ir import AnalysisBroken
from world import Malformed
from canon import CW
from kernels import loc
from apiops import run, guard
from api import Over, Own, Leak

ALLTAGS = {"den", "canon", "ref", "list", "cache", "stale", "own", "leak", "over", "null"}
# functions over leaves a..d and variables 1..3; nested (variable, then, else) give the structure
FUN = ["v1", "!v2", "a", (1, "a", "b"), (2, "a", "!b"), (1, "!a", (2, "b", "c")), (1, (2, "a", "b"), (2, "c", "a")),
       (1, (2, "a", "b"), (2, "!a", "b")), (2, (3, "a", "b"), "c"), (1, (3, "a", "1"), (2, "0", (3, "b", "a"))),
       (3, "a", "!a"), (1, "1", (2, "b", "0")), "1", "0",
       (1, (2, (3, "a", "b"), "c"), (2, "c", (3, "b", "a"))), (1, (2, (3, "1", "0"), (3, "0", "1")), (2, (3, "0", "1"), (3, "1", "0")))]
ORD = [dict(zip((1, 2, 3), p)) for p in itertools.permutations(range(3))]


def world(ctx, leaves="abc", order=None, **kw):
    W = CW(ctx.prog, leaves, order or ORD[0], **kw)
    W.over = getattr(ctx, "over", "never")
    return W


def check_one(W, s, fn, ok, allownull=False):
    """single-diagram result of a whole operation; ok(t) decides the value"""
    p = s.retval

    def value():
        if s.d.get("over"):
            return
        if p == 0:
            if allownull:
                return
            raise Malformed("the null diagram is returned although nothing failed")
        if not ok(W.uden(s, p)):
            raise Malformed("the result is not the documented function of the operands")

    def own():
        W.check_own(s, [p] if p != 0 else [])

    def over():
        if not s.d.get("over"):
            return
        if p != 0:
            raise Over("a diagram is returned although the node limit was exceeded")
        if "gc" not in s.d["points"]:
            raise Over("no garbage collection follows the node-limit overflow")
        for live in s.d.get("gclive", ())[-1:]:
            if live:
                raise Over("garbage is collected while the abandoned result is still referenced")
    return [value, own, over, lambda: W.check_epoch(s), lambda: W.check_queues(s), lambda: W.checkcache(s),
            lambda: W.check_count(s), lambda: W.check_mem(s)]


def go(ctx, F, W, ai, fn, ops, ok, where, rule, allownull=False, extra=()):
    args = W.pack(fn, [("p", W.M, 0)] + ops)
    run(ctx, F, W, ai, fn, args, lambda s: guard(F, W, s, check_one(W, s, fn, ok, allownull) + [lambda: e(s) for e in extra]),
        where, rule)


def modes(thorough):
    yield dict(present="absent", itemode="req", cache="opaque", addr=0)
    yield dict(present="present", itemode="node", cache="opaque", addr=1)
    if thorough:
        yield dict(present="fork", itemode="req", cache="opaque", addr=0)
        yield dict(present="absent", itemode="node", cache="hit", addr=1)


def compose(ctx, F, orders=ORD, funs=FUN):
    fn = ctx.prog.fn("Cal_BddCompose")
    for od in orders:
        for mo in modes(ctx.thorough):
            for f in funs:
                for g in ("v1", "v2", "v3"):
                    for h in ("c", (1, "b", "!c"), (3, "!b", "a"), "1"):
                        if not ctx.mine():
                            continue
                        W = world(ctx, order=od, **mo)
                        tf, tg, th = W.F(f), W.F(g), W.F(h)
                        exp = W.compose(tf, int(g[1]), th)
                        ai = W.full_ai()
                        go(ctx, F, W, ai, fn, [W.U(tf), W.U(tg), W.U(th)], lambda t: t == exp,
                           "order %s, f=%s, variable %s, h=%s, %s" % (od, f, g, h, mo), "compose")


def assocs(W, vars_only=False, quant=False):
    pass


def unary(fun):
    def sem(f, g, W=None):
        return fun(f) if g == sem.one else None
    return sem


def setop(W, op, fun):
    """a cached one-operand operation: the second operand of the entry is the constant one"""
    W.opsem[op & 0xffff] = lambda f, g: fun(f) if g == W.full else (fun(g) if f == W.full else None)


def substitute(ctx, F, orders=ORD, funs=FUN, name="Cal_BddSubstitute", maps=None):
    fn = ctx.prog.fn(name)
    var = name == "Cal_BddVarSubstitute"
    opc = ctx.prog.const("CAL_OP_VAR_SUBSTITUTE")
    if maps is None:
        maps = [{1: "v2"}, {1: "v2", 2: "v1"}, {3: "v1"}, {1: "v2", 2: "v3", 3: "v1"}, {2: "v1"}, {2: "v3", 3: "v2"}, {1: "v3"}] if var else \
            [{1: "c"}, {2: (1, "b", "!c")}, {3: (1, "!b", "1")}, {1: "v2", 2: "v1"}, {1: (3, "a", "b"), 2: "!v3", 3: "!c"},
             {1: "1", 3: "0"}, {2: "v3", 3: "v2"}]
    for od in orders:
        for mo in modes(ctx.thorough):
            for f in funs:
                for id in (2, -1):
                    for m in maps:
                        if not ctx.mine():
                            continue
                        W = world(ctx, order=od, **mo)
                        tf = W.F(f)
                        if W.topvar(tf) == W.LEAF:
                            continue
                        mm = {k: W.F(x) for k, x in m.items()}
                        W.association("s", id, mm)
                        setop(W, opc + id if id >= 0 else W.tempop, lambda t: W.subst(t, mm))
                        exp = W.subst(tf, mm)
                        ai = W.full_ai()
                        go(ctx, F, W, ai, fn, [W.U(tf)], lambda t: t == exp,
                           "order %s, f=%s, association %s (id %d), %s" % (od, f, m, id, mo), "substitute")


def varsubstitute(ctx, F, **kw):
    substitute(ctx, F, name="Cal_BddVarSubstitute", **kw)


def swapvars(ctx, F, orders=ORD, funs=FUN):
    fn = ctx.prog.fn("Cal_BddSwapVars")
    for od in orders:
        for mo in modes(ctx.thorough):
            for f in funs:
                for g, h in ((1, 2), (3, 1), (2, 3), (2, 2)):
                    if not ctx.mine():
                        continue
                    W = world(ctx, order=od, **mo)
                    tf = W.F(f)
                    exp = W.subst(tf, {g: W.vt[h], h: W.vt[g]})
                    ai = W.full_ai()
                    go(ctx, F, W, ai, fn, [W.U(tf), W.U(W.vt[g]), W.U(W.vt[h])], lambda t: t == exp,
                       "order %s, f=%s, variables %d and %d, %s" % (od, f, g, h, mo), "swap")


QS = [(1,), (2,), (3,), (1, 2), (2, 3), (1, 3), (1, 2, 3), ()]


def quant(ctx, F, orders=ORD, funs=FUN, names=("Cal_BddExists", "Cal_BddForAll"), big=(0, 1), qs=QS):
    c = ctx.prog.const("CAL_OP_QUANT", "CAL_OP_REL_PROD", "CAL_LARGE_BDD")
    for name in names:
        fn = ctx.prog.fn(name)
        for od in orders:
            for mo in modes(ctx.thorough):
                for f in funs:
                    for b in big:
                        for q in qs:
                            id = -1 if (len(q) + b) % 2 else 2
                            if not ctx.mine():
                                continue
                            W = world(ctx, order=od, **mo)
                            large(W, b, c[2])
                            tf = W.F(f)
                            ex = qfun(W, q)
                            W.association("q", id, {i: W.full for i in q})
                            setop(W, c[0] + id if id >= 0 else W.tempop, ex)
                            exp = ex(tf) if name == "Cal_BddExists" else W.neg(ex(W.neg(tf)))
                            ai = W.full_ai()
                            go(ctx, F, W, ai, fn, [W.U(tf)], lambda t: t == exp,
                               "order %s, f=%s, quantified %s (id %d), %s, %s" % (od, f, q, id, ("small", "large")[b], mo), "quant")


def large(W, b, lim):
    W.nn0 = lim + 1000 if b else 1000
    W.mfield("numNodes", W.nn0)


def qfun(W, q):
    def ex(t):
        for i in q:
            t = W.exists(t, i)
        return t
    return ex


RPAIRS = [("a", "b"), (FUN[3], FUN[4]), (FUN[5], FUN[6]), ("v1", (1, "a", "b")), ((2, "a", "b"), "!v2"), (FUN[7], FUN[7]),
          ((1, "a", "b"), "1"), ("1", (2, "a", "!b")), ((1, (2, "a", "b"), "c"), (2, "b", (3, "c", "a"))), ("0", "v1"),
          ((3, "a", "b"), (3, "!b", "c")), ("v3", (1, (3, "a", "b"), "c")), ((1, "a", "b"), (1, "!a", "!b")), ("a", (2, "b", "c"))]


def relprod(ctx, F, orders=ORD, pairs=RPAIRS, big=(0, 1), qs=QS):
    c = ctx.prog.const("CAL_OP_QUANT", "CAL_OP_REL_PROD", "CAL_LARGE_BDD")
    fn = ctx.prog.fn("Cal_BddRelProd")
    for od in orders:
        for mo in modes(ctx.thorough):
            for f, g in pairs:
                for b in big:
                    for q in qs:
                        id = -1 if (len(q) + b) % 2 else 2
                        if not ctx.mine():
                            continue
                        W = world(ctx, order=od, **mo)
                        large(W, b, c[2])
                        tf, tg = W.F(f), W.F(g)
                        ex = qfun(W, q)
                        W.association("q", id, {i: W.full for i in q})
                        setop(W, c[0] + id if id >= 0 else W.tempop - 1, ex)
                        W.opsem[c[1] + id if id >= 0 else W.tempop] = lambda x, y: ex(x & y)
                        exp = ex(tf & tg)
                        ai = W.full_ai()
                        go(ctx, F, W, ai, fn, [W.U(tf), W.U(tg)], lambda t: t == exp,
                           "order %s, f=%s, g=%s, quantified %s (id %d), %s, %s" % (od, f, g, q, id, ("small", "large")[b], mo), "relprod")


class fx:
    """a named function of a world"""
    def __init__(self, s):
        self.s = s

    def __call__(self, W):
        return eval(self.s, {n: W.atom(n) for n in W.leaves}, {"N": W.neg}) & W.full

    def __repr__(self):
        return self.s


CPAIRS = [((1, "a", "b"), (1, "c", "b")), ((1, "a", "!b"), (1, "0", "c")), ((1, "a", "b"), (2, "c", "a")), ((2, "a", "b"), (1, "b", "c")),
          ((1, (2, "a", "b"), (2, "c", "a")), (1, (2, "0", "b"), (2, "a", "0"))), ("v1", (1, "a", "b")), ((2, "a", "!a"), (2, "!b", "1")),
          ((3, "a", "b"), (1, (2, "a", "0"), (2, "0", "b"))), ((1, (2, "a", "b"), (2, "b", "a")), (2, "1", "0")), ("1", (1, "a", "b")),
          ((1, "a", "b"), "1"), ((1, "a", "b"), "c"), ("a", (1, "b", "c")), ("a", "b"), ((1, "a", "b"), (1, "a", "b")),
          ((1, "a", "b"), (1, "!a", "!b")), (FUN[14], FUN[15]), ((2, (3, "a", "b"), (3, "!b", "c")), (1, (3, "a", "0"), (3, "b", "1"))),
          ("a", (1, "b", "0")), ("v2", (1, (2, "1", "a"), (2, "0", "b"))), ((1, "a", "b"), "0"), ("0", "v1"), ("0", "1"), ("1", "0")]


def cofactor(ctx, F, orders=ORD, names=("Cal_BddCofactor", "Cal_BddReduce"), pairs=CPAIRS):
    for name in names:
        fn = ctx.prog.fn(name)
        for od in orders:
            for mo in modes(ctx.thorough):
                for f, c in pairs:
                    for sg in range(4):
                        if not ctx.mine():
                            continue
                        W = world(ctx, "abcz", order=od, **mo)
                        W.optop = True
                        W.leafreq = W.agree
                        W.warn_ok = True
                        tf, tc = W.F(f), W.F(c)
                        tf, tc = W.neg(tf) if sg & 1 else tf, W.neg(tc) if sg & 2 else tc
                        ai = W.full_ai()
                        go(ctx, F, W, ai, fn, [W.U(tf), W.U(tc)], lambda t: (t ^ tf) & tc == 0,
                           "order %s, f=%s%s, care set %s%s" % (od, "!"[:sg & 1], f, "!"[:sg >> 1], c), "cofactor")


def between(ctx, F, orders=ORD, pairs=CPAIRS):
    fn = ctx.prog.fn("Cal_BddBetween")
    for od in orders:
        for mo in modes(ctx.thorough):
            for f, c in pairs:
                for sg in range(4):
                    if not ctx.mine():
                        continue
                    W = world(ctx, "abcz", order=od, **mo)
                    W.optop = True
                    W.leafreq = W.agree
                    tf, tc = W.F(f), W.F(c)
                    tf, tc = W.neg(tf) if sg & 1 else tf, W.neg(tc) if sg & 2 else tc
                    lo, hi = tf & tc, tf | tc
                    ai = W.full_ai()
                    go(ctx, F, W, ai, fn, [W.U(lo), W.U(hi)], lambda t: lo & ~t == 0 and t & ~hi == 0,
                       "order %s, interval [f&g, f|g] with f=%s%s, g=%s%s" % (od, "!"[:sg & 1], f, "!"[:sg >> 1], c), "between")


AB, AnB, BC = fx("a & b"), fx("a & N(b)"), fx("b & c")
IPAIRS = [((1, "a", "b"), (1, "c", "b")), ((1, AB, "b"), (1, AnB, "c")), ((1, AB, "b"), (1, AnB, fx("N(b) & c"))), ((1, AB, BC), (2, AnB, "0")),
          ((1, "a", "0"), (2, "a", "b")), ("v1", "!v1"), ("v1", "!v2"), ("1", "v2"), ("0", "v3"), ((2, AB, "1"), (2, AnB, "0")),
          ((1, (2, AB, "a"), (2, "0", "b")), (1, (2, AnB, AnB), (2, "a", "!b"))), ((1, (2, AB, "a"), (2, "0", "b")), (1, (2, AnB, "!a"), (2, "a", "!b"))),
          ((3, "a", "b"), (1, (3, "!a", "c"), "0")), ((2, "a", "b"), (1, "b", "c")), ((2, (3, AB, "0"), "0"), (1, (3, AnB, "c"), "a"))]


def intersects(ctx, F, orders=ORD, names=("Cal_BddIntersects", "Cal_BddImplies"), pairs=IPAIRS):
    for name in names:
        fn = ctx.prog.fn(name)
        for od in orders:
            for mo in modes(ctx.thorough):
                for f, g in pairs:
                    for sw in (0, 1):
                        for sg in (0, 1):
                            if not ctx.mine():
                                continue
                            W = world(ctx, "abcz", order=od, **mo)
                            W.leafrec = lambda x, y: x & y & W.atom("z")
                            tf, tg = W.F(f), W.F(g)
                            if sw:
                                tf, tg = tg, tf
                            if sg:
                                tf = W.neg(tf)
                            if name == "Cal_BddImplies":
                                tg = W.neg(tg)
                            both = tf & (tg if name == "Cal_BddIntersects" else W.neg(tg))
                            ai = W.full_ai()
                            go(ctx, F, W, ai, fn, [W.U(tf), W.U(tg)], lambda t: t & ~both == 0 and (t == 0) == (both == 0),
                               "order %s, f=%s, g=%s, variant %d%d" % (od, f, g, sw, sg), "witness")


# functions of three variables without opaque parts: truth tables over (v1, v2, v3)
def fun3(W, k):
    t = 0
    for m in range(8):
        if k >> m & 1:
            c = W.full
            for i in (1, 2, 3):
                c &= W.vt[i] if m >> (i - 1) & 1 else W.neg(W.vt[i])
            t |= c
    return t


KS = [0x80, 0x01, 0x7f, 0xfe, 0x96, 0x69, 0xe8, 0x17, 0xca, 0xac, 0xd8, 0x88, 0x44, 0x11, 0xaa, 0x55, 0xcc, 0xf0, 0x0f, 0x33, 0xc0, 0x3f, 0x06,
      0x90, 0x66, 0x99, 0xa5, 0x3c, 0x08, 0x40, 0x5a, 0xf8, 0x1b, 0xe4, 0x9f, 0x60, 0xff, 0x21]


def ks(ctx, more=()):
    return range(256) if ctx.thorough else list(KS) + list(more)


def iscube(W, t):
    """product of literals; returns the variables or None"""
    vs = []
    if t == 0:
        return None
    for i in W.vars:
        b = W.vbit[i]
        lo, hi = W.restrict(t, b, 0), W.restrict(t, b, 1)
        if lo == hi:
            continue
        if lo and hi:
            return None
        vs.append(i)
    r = W.full
    for i in vs:
        r &= W.vt[i] if W.restrict(t, W.vbit[i], 1) else W.neg(W.vt[i])
    return vs if r == t else None


def satisfy(ctx, F, orders=ORD):
    fn = ctx.prog.fn("Cal_BddSatisfy")
    fs = ctx.prog.fn("Cal_BddSatisfySupport")
    for od in orders:
        for mo in modes(ctx.thorough):
            for f in FUN:
                if not ctx.mine():
                    continue
                W = world(ctx, "abcz", order=od, **mo)
                W.leafrec = lambda x: x & W.atom("z")
                W.warn_ok = True
                tf = W.F(f)
                if W.topvar(tf) == W.LEAF:
                    continue
                ai = W.full_ai()
                go(ctx, F, W, ai, fn, [W.U(tf)], lambda t: t & ~tf == 0 and (t == 0) == (tf == 0), "order %s, f=%s" % (od, f), "witness")
            for k in ks(ctx):
                if not ctx.mine():
                    continue
                W = world(ctx, "a", order=od, **mo)
                W.warn_ok = True
                tf = fun3(W, k)
                ai = W.full_ai()
                go(ctx, F, W, ai, fn, [W.U(tf)], lambda t: (t == tf == 0) or (t & ~tf == 0 and iscube(W, t) is not None),
                   "order %s, truth table %#x" % (od, k), "witness")
                for q in QS:
                    W = world(ctx, "a", order=od, **mo)
                    W.warn_ok = True
                    tf = fun3(W, k)
                    W.association("q", 2 if len(q) % 2 else -1, {i: W.full for i in q})
                    ai = W.full_ai({"qsort": m_qsort})
                    go(ctx, F, W, ai, fs, [W.U(tf)],
                       lambda t: (t == tf == 0) or (t & ~tf == 0 and iscube(W, t) is not None and set(q) <= set(iscube(W, t))),
                       "order %s, truth table %#x, variables %s" % (od, k, q), "witness")


def m_qsort(ai, st, args):
    """sorting with the program's own comparison: insertion sort driven by abstract calls"""
    base, n, size, cmp = args
    if not (isinstance(n, int) and isinstance(size, int) and base[0] == "p" and isinstance(base[2], int)):
        raise AnalysisBroken("sorting of an array of unknown length")
    vals = [ai.read(st, base[1], base[2] + i * size, size) for i in range(n)]
    if not all(isinstance(v, int) for v in vals):
        raise AnalysisBroken("sorting of unknown values")
    import functools

    def less(i, j):
        r = ai.sub(st, cmp, [("p", base[1], base[2] + i * size), ("p", base[1], base[2] + j * size)]) & 0xffffffff
        return -1 if r >> 31 else (1 if r else 0)
    order = sorted(range(n), key=functools.cmp_to_key(less))
    for i, v in enumerate([vals[j] for j in order]):
        ai.write(st, base[1], base[2] + i * size, v, size)
    return None
