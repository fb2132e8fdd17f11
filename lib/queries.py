"""Inspection operations on canonical worlds: predicates, top-variable cofactors, support, dependency, size,
profiles, satisfying fractions."""
from ir import AnalysisBroken
from world import Malformed, storeh, getref
from canon import CW
from kernels import loc
from apiops import run, guard
from api import Own, Leak, Null
import wholeops
from wholeops import ORD, FUN, KS, ks, fun3, iscube, world, modes, m_qsort


def parts(W, s, value, returned=(), heap=()):
    return [value, lambda: W.check_own(s, returned), lambda: W.check_epoch(s), lambda: W.check_queues(s), lambda: W.checkcache(s),
            lambda: W.check_count(s), lambda: W.check_mem(s, heap)]


def must(c, msg):
    if not c:
        raise Malformed(msg)


def w16(v):
    return v & 0xffff if isinstance(v, int) else v


def i32(v):
    if not isinstance(v, int):
        return v
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def i64(v):
    if not isinstance(v, int):
        return v
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def topfun(W, t):
    """(var, then, else) of a non-constant function"""
    i = W.topvar(t)
    b = W.vbit[i]
    return i, W.restrict(t, b, 1), W.restrict(t, b, 0)


def structured(W, t):
    """top variable is not the opaque part"""
    return W.topvar(t) != W.LEAF


def toplevel(ctx, F, orders=ORD):
    """Not, Identity, If, Then, Else, GetIfIndex, GetIfId, Type, IsCube, GetRegular and the constant predicates"""
    P = ctx.prog
    tys = P.const("CAL_BDD_TYPE_NONTERMINAL", "CAL_BDD_TYPE_ZERO", "CAL_BDD_TYPE_ONE", "CAL_BDD_TYPE_POSVAR", "CAL_BDD_TYPE_NEGVAR")
    for od in orders:
        for k in [("f", f) for f in FUN] + [("k", k) for k in ks(ctx)]:
            for sg in (0, 1):
                if not ctx.mine():
                    continue

                def mk():
                    W = world(ctx, "abc" if k[0] == "f" else "a", order=od, addr=sg)
                    W.warn_ok = True
                    t = W.F(k[1]) if k[0] == "f" else fun3(W, k[1])
                    return W, W.neg(t) if sg else t

                def unary(name, expect, kind, skip=None):
                    W, t = mk()
                    if skip and skip(W, t):
                        return
                    fn = P.fn(name)
                    ai = W.full_ai()
                    a = W.U(t)

                    def check(s):
                        r = s.retval
                        ret = [r] if kind == "bdd" else []

                        def value():
                            if kind == "bdd":
                                must(r != 0, "the null diagram is returned although nothing failed")
                                must(W.uden(s, r) == expect(W, t), "the result is not the documented function of the operand")
                            elif kind == "view":
                                must(W.uden(s, r) == expect(W, t), "the result is not the documented function of the operand")
                            else:
                                e = expect(W, t)
                                got = w16(r) if kind == "id" else i32(r)
                                must(got == e, "the answer is %s instead of %s" % (got, e))
                        guard(F, W, s, parts(W, s, value, ret))
                    run(ctx, F, W, ai, fn, W.pack(fn, [("p", W.M, 0), a]), check, "order %s, operand %s%s" % (od, "!"[:sg], k[1]), "query")

                const = lambda W, t: t in (0, W.full)
                opaque = lambda W, t: not const(W, t) and not structured(W, t)
                cop = lambda W, t: const(W, t) or opaque(W, t)
                unary("Cal_BddNot", lambda W, t: W.neg(t), "bdd")
                unary("Cal_BddIdentity", lambda W, t: t, "bdd")
                unary("Cal_BddGetRegular", lambda W, t: W.neg(t) if W.phase(t) else t, "view", const)
                unary("Cal_BddIf", lambda W, t: W.vt[W.topvar(t)], "bdd", cop)
                unary("Cal_BddThen", lambda W, t: topfun(W, t)[1], "bdd", cop)
                unary("Cal_BddElse", lambda W, t: topfun(W, t)[2], "bdd", cop)
                unary("Cal_BddGetIfIndex", lambda W, t: 0xffff if const(W, t) else W.index[W.topvar(t)], "id")
                unary("Cal_BddGetIfId", lambda W, t: 0 if const(W, t) else W.topvar(t), "id")
                unary("Cal_BddIsBddOne", lambda W, t: int(t == W.full), "int")
                unary("Cal_BddIsBddZero", lambda W, t: int(t == 0), "int")
                unary("Cal_BddIsBddNull", lambda W, t: 0, "int")
                unary("Cal_BddIsBddConst", lambda W, t: int(const(W, t)), "int")

                def typ(W, t):
                    if t == 0:
                        return tys[1]
                    if t == W.full:
                        return tys[2]
                    if t in W.vt.values():
                        return tys[3]
                    if W.neg(t) in W.vt.values():
                        return tys[4]
                    return tys[0]
                unary("Cal_BddType", typ, "int", opaque)
                if k[0] == "k":
                    unary("Cal_BddIsCube", lambda W, t: int(iscube(W, t) is not None), "int", lambda W, t: t == 0)

                # ownership primitives
                for name, d in (("Cal_BddFree", -1), ("Cal_BddUnFree", 1)):
                    W, t = mk()
                    if t in (0, W.full):
                        continue
                    fn = P.fn(name)
                    a = W.U(t)
                    ai = W.full_ai()

                    def check(s):
                        def value():
                            if W.udelta(s, a[1]) != d:
                                raise Own("the references of the argument change by %s instead of %+d" % (W.udelta(s, a[1]), d))
                        guard(F, W, s, [value])
                    run(ctx, F, W, ai, fn, W.pack(fn, [("p", W.M, 0), a]), check, "operand %s%s" % ("!"[:sg], k[1]), "query")


def equality(ctx, F):
    fn = ctx.prog.fn("Cal_BddIsEqual")
    for f in FUN:
        for g in FUN:
            for sg in range(4):
                if not ctx.mine():
                    continue
                W = world(ctx)
                tf, tg = W.F(f), W.F(g)
                tf, tg = W.neg(tf) if sg & 1 else tf, W.neg(tg) if sg & 2 else tg
                ai = W.full_ai()
                run(ctx, F, W, ai, fn, W.pack(fn, [("p", W.M, 0), W.U(tf), W.U(tg)]),
                    lambda s: guard(F, W, s, parts(W, s, lambda: must(i32(s.retval) == int(tf == tg), "the comparison gives the wrong answer"))),
                    "operands %s, %s (phases %d)" % (f, g, sg), "query")
    for name, v in (("Cal_BddOne", 1), ("Cal_BddZero", 0)):
        if not ctx.mine():
            continue
        fn = ctx.prog.fn(name)
        W = world(ctx)
        ai = W.full_ai()
        run(ctx, F, W, ai, fn, W.pack(fn, [("p", W.M, 0)]),
            lambda s: guard(F, W, s, parts(W, s, lambda: must(W.uden(s, s.retval) == (W.full if v else 0), "the constant is wrong"))),
            "constant", "query")


def support(ctx, F, orders=ORD):
    fs, fd = ctx.prog.fn("Cal_BddSupport"), ctx.prog.fn("Cal_BddDependsOn")
    for od in orders:
        for k in ks(ctx):
            for sg in (0, 1):
                if not ctx.mine():
                    continue
                W = world(ctx, "a", order=od, addr=sg)
                t = fun3(W, k)
                t = W.neg(t) if sg else t
                arr = ("arr", "support")
                for i in range(8):
                    W.put(arr, 8 * i, ("s", ("unset", i)), 8)
                ai = W.full_ai()

                def check(s):
                    res = []
                    for i in range(8):
                        p = s.mem[(arr, 8 * i)][0]
                        if p == 0:
                            break
                        if not (isinstance(p, tuple) and p[0] == "p"):
                            raise Malformed("the support array is not terminated")
                        res.append(p)

                    def value():
                        got = sorted(W.uden(s, p) for p in res)
                        exp = sorted(W.vt[i] for i in W.vars if W.dep(t, i))
                        must(got == exp, "the support lists %d variables instead of %d" % (len(got), len(exp))
                             if len(got) != len(exp) else "the support lists the wrong variables")
                    guard(F, W, s, parts(W, s, value, res))
                run(ctx, F, W, ai, fs, W.pack(fs, [("p", W.M, 0), W.U(t), ("p", arr, 0)]), check,
                    "order %s, truth table %s%#x" % (od, "!"[:sg], k), "support")
                for v in W.vars:
                    W = world(ctx, "a", order=od, addr=sg)
                    t = fun3(W, k)
                    t = W.neg(t) if sg else t
                    ai = W.full_ai()
                    run(ctx, F, W, ai, fd, W.pack(fd, [("p", W.M, 0), W.U(t), W.U(W.vt[v])]),
                        lambda s: guard(F, W, s, parts(W, s, lambda: must((i32(s.retval) != 0) == W.dep(t, v),
                                                                          "the dependency test gives the wrong answer"))),
                        "order %s, truth table %s%#x, variable %d" % (od, "!"[:sg], k, v), "support")


def subfunctions(W, t, out=None):
    out = set() if out is None else out
    if t in out:
        return out
    out.add(t)
    if t not in (0, W.full):
        _, T, E = topfun(W, t)
        subfunctions(W, T, out)
        subfunctions(W, E, out)
    return out


def nodeset(W, ts, negout):
    subs = set()
    for t in ts:
        # sub-functions of the stored diagrams: the complement is pushed down
        subfunctions(W, t, subs)
    if negout:
        return {W.neg(t) if W.phase(t) else t for t in subs}
    return subs


SETS = [(0x80,), (0x96,), (0xe8,), (0xff,), (0x00,), (0xca,), (0x17,), (0xaa,), (0x33,), (0x80, 0x96), (0xe8, 0x17), (0xaa, 0x55), (0xca, 0xff, 0x35),
        (0x80, 0x80), (0x7f, 0x01, 0x96), (0x00, 0x9f), (0x1b, 0xe4, 0x60)]


def sizes(ctx, F, orders=ORD):
    P = ctx.prog
    for od in orders:
        for ts in SETS + ([(k,) for k in range(256)] if ctx.thorough else []):
            for negout in (0, 1):
                for multi in (0, 1):
                    if len(ts) > 1 and not multi:
                        continue
                    if not ctx.mine():
                        continue
                    for what in ("Cal_BddSize", "Cal_BddProfile", "Cal_BddFunctionProfile"):
                        if what == "Cal_BddFunctionProfile" and negout:
                            continue
                        W = world(ctx, "a", order=od, addr=negout)
                        W.rearm = False
                        tts = [fun3(W, k) for k in ts]
                        fn = P.fn(what + ("Multiple" if multi else ""))
                        if multi:
                            o = ("arr", "uarg")
                            for i, t in enumerate(tts):
                                W.put(o, 8 * i, W.U(t), 8)
                            W.put(o, 8 * len(tts), 0, 8)
                            a = [("p", o, 0)]
                        else:
                            a = [W.U(tts[0])]
                        counts = ("arr", "counts")
                        n = len(W.vars) + 1
                        for i in range(n + 1):
                            W.put(counts, 8 * i, ("s", ("unset", i)), 8)
                        if what != "Cal_BddSize":
                            a.append(("p", counts, 0))
                        if what != "Cal_BddFunctionProfile":
                            a.append(negout)
                        ai = W.full_ai(tableone(W))
                        nodes = nodeset(W, tts, negout)

                        def check(s):
                            def value():
                                if what == "Cal_BddSize":
                                    must(i64(s.retval) == len(nodes), "the size is %s instead of %d" % (s.retval, len(nodes)))
                                    return
                                got = [i64(s.mem[(counts, 8 * i)][0]) for i in range(n + 1)]
                                if what == "Cal_BddProfile":
                                    exp = [0] * (n + 1)
                                    for t in nodes:
                                        exp[n if t in (0, W.full) else W.index[W.topvar(t)]] += 1
                                    must(got == exp, "the level counts are %s instead of %s" % (got, exp))
                                    return
                                exp = funprofile(W, tts)
                                must(got[:n] == exp[:n], "the function profile is %s instead of %s" % (got[:n], exp[:n]))
                            guard(F, W, s, parts(W, s, value))
                        run(ctx, F, W, ai, fn, W.pack(fn, [("p", W.M, 0)] + a), check,
                            "order %s, truth tables %s, negout %d" % (od, [hex(k) for k in ts], negout), "size")


def funprofile(W, tts):
    n = len(W.vars) + 1
    byix = sorted(W.vars, key=lambda i: W.index[i])
    out = [0] * (n + 1)
    for pos in range(n):
        v = [i for i in W.index if W.index[i] == pos][0]
        if v == W.LEAF or not any(W.dep(t, v) for t in tts):
            continue
        cur = set(tts)
        for i in byix:
            if W.index[i] >= pos:
                break
            cur = {W.restrict(t, W.vbit[i], b) for t in cur for b in (0, 1)}
        out[pos] = len(cur)
    return out


def tableone(W):
    """contracts of the single-operand tables (decided by C24): keys are diagrams, data are copied"""
    def init(ai, st, a):
        o = ("one", st.fresh())
        st.d = dict(st.d)
        st.d["tone"] = dict(st.d.get("tone", {}))
        st.d["tone"][o] = (a[1], {})
        return ("p", o, 0)

    def tab(st, p):
        if not (isinstance(p, tuple) and p[0] == "p" and p[1] in st.d.get("tone", {})):
            raise Malformed("something that is not a table is used as one")
        return p[1], st.d["tone"][p[1]]

    def lookup(ai, st, a):
        o, (sz, m) = tab(st, a[0])
        W.denote(st, (a[1], a[2]))
        k = (a[1], a[2])
        ai.store(st, a[3], ("p", m[k], 0) if k in m else 0, 8) if a[3] != 0 else None
        return 1 if k in m else 0

    def insert(ai, st, a):
        o, (sz, m) = tab(st, a[0])
        W.denote(st, (a[1], a[2]))
        k = (a[1], a[2])
        st.d = dict(st.d)
        st.d["tone"] = dict(st.d["tone"])
        m = dict(m)
        cell = ("onedata", st.fresh())
        # a later insertion of the same key shadows the earlier one, as in a chained table
        m[k] = cell
        st.d["tone"][o] = (sz, m)
        ai.memcopy(st, ("p", cell, 0), a[3], sz)
        return None

    def quit(ai, st, a):
        o, _ = tab(st, a[0])
        st.d = dict(st.d)
        st.d["tone"] = {k: v for k, v in st.d["tone"].items() if k != o}
        return None
    return {"CalHashTableOneInit": init, "CalHashTableOneLookup": lookup, "CalHashTableOneInsert": insert, "CalHashTableOneQuit": quit}


def fraction(ctx, F, orders=ORD):
    fn = ctx.prog.fn("Cal_BddSatisfyingFraction")
    for od in orders:
        for k in range(256) if ctx.thorough else KS:
            if not ctx.mine():
                continue
            W = world(ctx, "a", order=od)
            t = fun3(W, k)
            ai = W.full_ai(tableone(W))
            exp = bin(k).count("1") / 8.0

            def check(s):
                def value():
                    r = s.retval
                    must(isinstance(r, tuple) and r[0] == "f", "the fraction is not determined")
                    must(abs(r[1] - exp) < 1e-9, "the fraction is %s instead of %s" % (r[1], exp))
                    if s.d.get("tone"):
                        raise Leak("a temporary table is not released")
                guard(F, W, s, parts(W, s, value))
            run(ctx, F, W, ai, fn, W.pack(fn, [("p", W.M, 0), W.U(t)]), check, "order %s, truth table %#x" % (od, k), "fraction")
