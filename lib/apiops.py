"""Case tables for the public operations and their analysis on API worlds."""
from ir import AnalysisBroken
from world import Malformed, unpack, storeh
from bddw import notp, show
from kernels import Finder, Driver, loc, DORD, itemodel
from api import API, Own, Leak, Over, Null, Stale, SEM

# name, number of diagram arguments, meaning of the result
SIMPLE = [
    ("Cal_BddAnd", 2, lambda W, f, g: f & g),
    ("Cal_BddNand", 2, lambda W, f, g: W.neg(f & g)),
    ("Cal_BddOr", 2, lambda W, f, g: f | g),
    ("Cal_BddNor", 2, lambda W, f, g: W.neg(f | g)),
    ("Cal_BddXor", 2, lambda W, f, g: f ^ g),
    ("Cal_BddXnor", 2, lambda W, f, g: W.neg(f ^ g)),
    ("Cal_BddITE", 3, lambda W, f, g, h: W.ite(f, g, h)),
]
PAIR = {"Cal_BddPairwiseAnd": SEM["CalOpAnd"], "Cal_BddPairwiseOr": SEM["CalOpOr"], "Cal_BddPairwiseXor": SEM["CalOpXor"]}
MULTI = {"Cal_BddMultiwayAnd": SEM["CalOpAnd"], "Cal_BddMultiwayOr": SEM["CalOpOr"], "Cal_BddMultiwayXor": SEM["CalOpXor"]}


def base(ctx, atoms="abc", order=None, ids=(1, 2, 3), maxdepth=6):
    W = API(ctx.prog, list(atoms) + ["v1", "v2", "v3"], order or {1: 1, 2: 0, 3: 2}, depth=1, maxdepth=maxdepth)
    for a, i in zip(atoms, ids):
        W.leaf(a, i)
    return W


def tableops(F, tags):
    return bool(F.tags & set(tags))


def operand_lists(n, thorough):
    if n == 1:
        return [("a",), ("!a",), ("1",), ("0",)]
    if n == 2:
        o = [("a", "b"), ("!a", "b"), ("a", "!b"), ("!a", "!b"), ("b", "a"), ("a", "a"), ("a", "!a"), ("1", "a"), ("a", "0"),
             ("0", "1"), ("!a", "1")]
        return o
    o = [("a", "b", "c"), ("!a", "b", "!c"), ("b", "c", "a"), ("c", "!b", "a"), ("a", "a", "b"), ("a", "!a", "b"),
         ("1", "a", "b"), ("a", "0", "b"), ("a", "b", "1"), ("0", "a", "!b"), ("!a", "!b", "c")]
    return o


def run(ctx, F, W, ai, fn, args, check, where, rule):
    F.begin()
    try:
        fin = ai.run(fn, args, W.st)
    except Malformed as e:
        F.add(getattr(e, "tag", "den"), fn.name, "%s: %s" % (where, e), loc(fn))
        fin = []
    ctx.absorb(ai, rule)
    F.engine(ai, fn)
    if not fin and not ai.violations and not F.bad:
        raise AnalysisBroken("no path through " + fn.name)
    for s in fin:
        try:
            if s.status == "abort":
                raise Malformed("the operation aborts the program")
            check(s)
        except Malformed as e:
            F.add(getattr(e, "tag", "den"), fn.name, "%s: %s" % (where, e), loc(fn), s.tracelist())
    F.end("%s:%s" % (rule, fn.name))


def guard(F, W, s, parts):
    """run each check part; only tags of interest are recorded, and one failing part does not hide another"""
    err = None
    for p in parts:
        try:
            p()
        except Malformed as e:
            if getattr(e, "tag", "den") in F.tags:
                raise
            err = e
    if err:
        raise err


def check_result(W, F, s, fn, expect, arity_over=True):
    """single-diagram result: value, ownership, overflow protocol, memory"""
    p = s.retval

    def value():
        if s.d.get("over"):
            return
        if p == 0:
            raise Malformed("the null diagram is returned although nothing failed")
        t = W.uden(s, p)
        if callable(expect):
            expect(s, t)
        elif t != expect:
            raise Malformed("the result is not the documented function of the operands")

    def own():
        W.check_own(s, [p] if p != 0 else [])

    def over():
        if not s.d.get("over"):
            return
        if p != 0:
            raise Over("a diagram is returned although the node limit was exceeded")
        if "gc" not in s.d["points"]:
            raise Over("no garbage collection follows the node-limit overflow")
        for live in s.d.get("gclive", ())[-1:]:
            if live:
                raise Over("garbage is collected while the abandoned result is still referenced")

    def mem():
        W.check_mem(s)
    guard(F, W, s, [value, own, over, mem])


def simple(ctx, F, over="never"):
    for name, n, sem in SIMPLE:
        fn = ctx.prog.fn(name)
        for ops in operand_lists(n, ctx.thorough):
            if not ctx.mine():
                continue
            W = base(ctx)
            W.over = over
            ai = W.api()
            args = W.pack(fn, [("p", W.M, 0)] + [W.user(o) for o in ops])
            exp = sem(W, *[W.uden(W.st, W.user(o)) for o in ops])
            run(ctx, F, W, ai, fn, args, lambda s: check_result(W, F, s, fn, exp), "operands %s" % (ops,), "api")


def pairwise(ctx, F, over="never", orders=DORD):
    for name, sem in PAIR.items():
        fn = ctx.prog.fn(name)
        for od in orders:
            for ids in ((1, 2, 3), (2, 3, 1), (3, 1, 2)):
                for lst in (["a", "b"], ["a", "a", "b", "b", "c", "c"], ["a", "b", "c", "!b"], ["1", "a", "b", "c"],
                            ["a", "b", "0", "1"], ["a", "!b", "!c", "b", "a", "c"]):
                    if not ctx.mine():
                        continue
                    W = base(ctx, order=od, ids=ids)
                    W.over = over
                    arg = W.uarray(lst)
                    opn = {"Cal_BddPairwiseAnd": "CalOpAnd", "Cal_BddPairwiseOr": "CalOpOr", "Cal_BddPairwiseXor": "CalOpXor"}[name]
                    D = Driver(W, 1, 0)
                    D.limit = 1
                    ai = W.api(D.models(lambda W, f, g: sem(W, f, g), opn))
                    W.more_load = D.on_load
                    args = W.pack(fn, [("p", W.M, 0), arg])
                    exp = [sem(W, W.uden(W.st, W.user(lst[2 * i])), W.uden(W.st, W.user(lst[2 * i + 1]))) for i in range(len(lst) // 2)]

                    def check(s):
                        r = s.retval
                        res = []
                        if not (isinstance(r, tuple) and r[0] == "p" and r[2] == 0):
                            raise Malformed("no result array is returned")
                        for i in range(len(exp)):
                            c = s.mem.get((r[1], 8 * i))
                            res.append(c[0] if c else None)

                        def value():
                            if s.d.get("over"):
                                return
                            for p, t in zip(res, exp):
                                if p in (0, None) or W.uden(s, p) != t:
                                    raise Malformed("an element of the result is not the operation on its pair")

                        def overf():
                            if s.d.get("over"):
                                if any(p != 0 for p in res):
                                    raise Over("a diagram is returned although the node limit was exceeded")
                                for live in s.d.get("gclive", ((1,),))[-1:]:
                                    if live:
                                        raise Over("garbage is not collected after the abandoned results are released")
                        guard(F, W, s, [value, lambda: D.finish(ai, s, None),
                                        lambda: W.check_own(s, [p for p in res if p not in (0, None)]), overf,
                                        lambda: W.check_mem(s, [r[1]])])
                    run(ctx, F, W, ai, fn, args, check, "order %s, array %s of variables %s" % (od, lst, ids), "api")


def multiway(ctx, F, over="never", orders=DORD[:1], sizes=(1, 2, 3, 4, 5, 6, 7, 9, 11)):
    for name, sem in MULTI.items():
        fn = ctx.prog.fn(name)
        opn = {"Cal_BddMultiwayAnd": "CalOpAnd", "Cal_BddMultiwayOr": "CalOpOr", "Cal_BddMultiwayXor": "CalOpXor"}[name]
        for od in orders:
            for n in sizes:
                for md in ((6,) if n < 5 else (6, 2)):
                    names = "abcdef"[:min(n, 6)] if n <= 6 else "abcdef"
                    ids = (2, 3, 1, 3, 2, 1)
                    if not ctx.mine():
                        continue
                    W = base(ctx, names, order=od, ids=ids, maxdepth=md)
                    W.over = over
                    lst = ["a", "!b", "c", "d", "!e", "f", "1", "b", "c", "!d", "a"][:n]
                    if opn == "CalOpOr":
                        lst = [x if x != "1" else "0" for x in lst]
                    lst = [x for x in lst if x in "10" or x.lstrip("!") in names]
                    arg = W.uarray(lst)
                    D = Driver(W, 4, 0)
                    m = D.models(lambda W, f, g: sem(W, f, g), opn)
                    m["CalHashTableInit"] = inittable(W, md)
                    m["log"] = flog
                    m["ceil"] = fceil
                    ai = W.api(m, unroll=4)
                    W.more_load = D.on_load
                    args = W.pack(fn, [("p", W.M, 0), arg])
                    exp = W.uden(W.st, W.user(lst[0]))
                    for x in lst[1:]:
                        exp = sem(W, exp, W.uden(W.st, W.user(x)))

                    def check(s):
                        parts = [lambda: D.finish(ai, s, None)] if n > 1 else []
                        guard(F, W, s, parts + [lambda: check_result(W, F, s, fn, exp)])
                    run(ctx, F, W, ai, fn, args, check, "%d operands %s, order %s, maximum depth %d" % (n, lst, od, md), "api")


def flog(ai, st, a):
    import math
    x = a[0]
    if isinstance(x, tuple) and x[0] == "f":
        return ("f", math.log(x[1]))
    return None


def fceil(ai, st, a):
    import math
    x = a[0]
    if isinstance(x, tuple) and x[0] == "f":
        return ("f", float(math.ceil(x[1])))
    return None


def inittable(W, first):
    """a new request table: tables of a new stage are created from variable 0 upwards"""
    def init(ai, st, a):
        id = a[1]
        d = st.d.get("newstage", first - 1)
        if id == 0:
            d += 1
        st.d = dict(st.d)
        st.d["newstage"] = d
        if not isinstance(id, int) or id not in W.index:
            raise Malformed("a request table is created for a variable that does not exist")
        return ("p", ("rq", d, id), 0)
    return init
