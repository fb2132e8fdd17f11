"""C01 terminal cases: abstract interpretation of the terminal-case procedures
over the finite domain of operand shapes (constant, equal, complementary,
unrelated; either phase), unrelated operands being opaque truth-table atoms."""
from ir import AnalysisBroken
from ai import Interp
from world import World, Malformed, unpack, storeh

TECHNIQUE = ("Path-partitioned abstract interpretation of the terminal-case procedures over the finite domain of "
             "operand shapes (constants, equal, complementary, unrelated opaque functions, both phases); the stored "
             "result's truth table over the opaque atoms is compared with the connective.")

BIN = {"CalOpAnd": lambda W, f, g: f & g, "CalOpNand": lambda W, f, g: W.neg(f & g),
       "CalOpOr": lambda W, f, g: f | g, "CalOpXor": lambda W, f, g: f ^ g}


def base(ctx, ids):
    W = World(ctx.prog, ["x", "y", "z"])
    W.setorder({1: ids[0], 2: ids[1], 3: ids[2]})
    for a, i in (("x", 1), ("y", 2), ("z", 3)):
        W.leaf(a, i, W.atom(a))
    return W


def binary(ctx):
    names = ["1", "0", "x", "!x", "y", "!y"]
    for fname, sem in BIN.items():
        fn = ctx.prog.fn(fname)
        for a in names:
            for b in names:
                case(ctx, fn, sem, a, b)
    fn = ctx.prog.fn("CalOpCofactor")
    for a in names:
        for b in names:
            case(ctx, fn, None, a, b)


def case(ctx, fn, sem, a, b):
    W = base(ctx, (0, 1, 2))
    f, g = W.h(a), W.h(b)
    tf, tg = W.den(f), W.den(g)
    ai = Interp(ctx.prog)
    R = ("res",)
    args = W.pack(fn, [("p", W.M, 0), f, g, ("p", R, 0)])
    fin = ai.run(fn, args, W.st)
    ctx.absorb(ai, "terminal")
    ctx.worlds += 1
    what = "%s(%s, %s)" % (fn.name, a, b)
    good = True
    if not fin:
        raise AnalysisBroken("no path through " + what)
    for s in fin:
        tr = s.tracelist()
        loc = "%s:%s" % (fn.file, fn.line)
        if s.status == "abort":
            ctx.violation("terminal", fn.name, "%s aborts" % what, loc, tr)
            good = False
            continue
        rv = s.retval
        if not isinstance(rv, int):
            raise AnalysisBroken("undecided status from " + what)
        if rv == 0:
            if a in "01" and b in "01":
                ctx.violation("terminal", fn.name, "%s is not recognised as terminal although nothing can be expanded"
                              % what, loc, tr)
                good = False
            continue
        try:
            h = W.result(s, R)
            if sem is None:
                if tg == 0 and h == (0xFFFF, ("p", ("n", "null"), 0)):
                    continue
                r = W.den(h, s)
                bad = (r ^ tf) & tg
                exp = "a function equal to %s wherever %s holds" % (a, b)
            else:
                r = W.den(h, s)
                bad = r != sem(W, tf, tg)
                exp = "the connective"
        except Malformed as e:
            ctx.violation("terminal", fn.name, "%s: %s" % (what, e), loc, tr)
            good = False
            continue
        if bad:
            ctx.violation("terminal", fn.name, "%s yields %s, which is not %s" % (what, W.name(h), exp), loc, tr)
            good = False
    for v in ai.violations:
        ctx.violation("terminal", fn.name, "%s: %s" % (what, v.msg), v.loc, v.trace)
        good = False
    ctx.ob("terminal:" + fn.name, good)




def ite(ctx):
    fn = ctx.prog.fn("CalOpITE")
    foa = ctx.prog.fn("CalHashTableThreeFindOrAdd")
    names = ["1", "0", "x", "!x", "y", "!y", "z", "!z"]
    orders = [(0, 1, 2), (2, 0, 1), (1, 2, 0)] + ([(2, 1, 0), (0, 2, 1), (1, 0, 2)] if ctx.thorough else [])
    for od in orders:
        for a in names:
            for b in names:
                for c in names:
                    if not ctx.thorough and od != orders[0] and len({a[-1], b[-1], c[-1]} & {"x", "y", "z"}) < 2:
                        continue
                    if not ctx.mine():
                        continue
                    W = base(ctx, od)
                    f, g, h = W.h(a), W.h(b), W.h(c)
                    tf, tg, th = W.den(f), W.den(g), W.den(h)
                    for i in range(1, 4):
                        W.put(("arr", "reqQueForITE"), 8 * i, ("p", ("tbl", i), 0), 8)
                    good = [True]

                    def find(ai, st, args, W=W):
                        t, F, G, H, rp = unpack(ai, st, foa, args)
                        o = ("req", st.fresh())
                        if not (isinstance(t, tuple) and t[0] == "p" and t[1][0] == "tbl"):
                            raise Malformed("the request is filed in an unknown table")
                        tid = t[1][1]
                        hs = [F, G, H]
                        used = [x for x in hs if x[0] != 0]
                        dens = [W.den(x) for x in hs]
                        if not used:
                            raise Malformed("a request without any variable is filed")
                        m = min(used, key=lambda x: W.index[x[0]])[0]
                        if tid != m:
                            raise Malformed("the request is filed under variable %d although %d comes first in the "
                                            "order" % (tid, m))
                        st.d = dict(st.d)
                        st.d["req"] = dict(st.d.get("req", {}))
                        st.d["req"][o] = (None, W.ite(*dens))
                        storeh(ai, st, rp, (tid, ("p", o, 0)))
                        return 0
                    ai = Interp(ctx.prog, {"CalHashTableThreeFindOrAdd": find})
                    args = W.pack(fn, [("p", W.M, 0), f, g, h, ("p", ("arr", "reqQueForITE"), 0)])
                    what = "CalOpITE(%s, %s, %s)" % (a, b, c)
                    ctx.worlds += 1
                    loc = "%s:%s" % (fn.file, fn.line)
                    ok = True
                    try:
                        fin = ai.run(fn, args, W.st)
                        ctx.absorb(ai, "ite")
                        if not fin and not ai.violations:
                            raise AnalysisBroken("no path through " + what)
                        for s in fin:
                            if s.status == "abort":
                                raise Malformed("aborts")
                            r = W.den(W.rethandle(s), s, req=s.d.get("req", {}))
                            if r != W.ite(tf, tg, th):
                                ctx.violation("ite", fn.name, "%s does not denote the if-then-else of its operands"
                                              % what, loc, s.tracelist())
                                ok = False
                    except Malformed as e:
                        ctx.violation("ite", fn.name, "%s: %s" % (what, e), loc)
                        ok = False
                    for v in ai.violations:
                        ctx.violation("ite", fn.name, "%s: %s" % (what, v.msg), v.loc, v.trace)
                        ok = False
                    ctx.ob("ite:" + fn.name, ok)

NOTE = "Every combination of constant/equal/complementary/independent operands, both phases and both address orders, of every terminal-case procedure is enumerated over abstract operands standing for arbitrary functions. Trusts the IR front end and the contracts of the table look-ups (decided by C24)."


def run(ctx):
    ctx.part(binary)
    ite(ctx)
    ctx.need("*", 5 * 36)
    ctx.assumptions += ["operands are distinct diagram nodes unless equal or complementary; node addresses are at "
                        "least 8-byte aligned"]
