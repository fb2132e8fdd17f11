"""Analyses of the breadth-first kernels shared by several properties.

Each analysis runs one function on abstract worlds and returns findings
(tag, fnname, message, location, trace); tags: den (value), canon (canonical
form), ref (reference counts), list (request bookkeeping), null."""
from ir import AnalysisBroken
from ai import Interp
from world import Malformed, unpack, storeh, addbits
from bddw import HW, T_neg, notp, show, show_obj


class Finder:
    def __init__(self, ctx, tags):
        self.ctx = ctx
        self.tags = tags
        self.n = 0

    def add(self, tag, fn, msg, loc, trace=(), detail=""):
        if tag in self.tags:
            self.ctx.violation(tag, fn, msg, loc, trace, detail)
            self.bad = True

    def begin(self):
        self.bad = False

    def end(self, rule):
        self.ctx.ob(rule, not self.bad)
        self.ctx.worlds += 1
        self.n += 1

    def engine(self, ai, fn):
        for v in ai.violations:
            self.add(v.rule, fn.name, v.msg, v.loc, v.trace)


def loc(fn):
    return "%s:%s" % (fn.file, fn.line)


def opmodel(W, sem):
    """contract of a terminal-case procedure (decided by C01)"""
    def op(ai, st, args):
        bm, F, G, rp = args[0], (args[1], args[2]), (args[3], args[4]), args[5]
        tf, tg = W.denote(st, F), W.denote(st, G)
        ids = [x for x in (F, G) if W.idof(st, x) != 0]
        outs = []
        fork = W.generic is None or F[1][1] in W.generic or G[1][1] in W.generic
        s1 = st.copy() if fork else st
        o = ("old", s1.fresh())
        top = min(ids, key=lambda h: W.topindex(st, h)) if ids else None
        if top is None:
            # both constant: the result is a constant
            t = sem(W, tf, tg)
            if t not in (0, W.full):
                raise Malformed("inconsistent world")
            storeh(ai, st, rp, W.h("1" if t else "0"))
            return 1
        W.setdyn(s1, o, W.idof(st, top), sem(W, tf, tg), "node", W.r0)
        W.opaque_in(s1, o, W.r0)
        s1.trace = (s1.trace, "terminal case")
        storeh(ai, s1, rp, (W.idof(st, top), ("p", o, 0)))
        if not fork:
            return 1
        outs.append((s1, 1))
        st.trace = (st.trace, "not a terminal case")
        outs.append((st, 0))
        return outs
    return op


def file_request(W, sem, depth=0):
    def on_request(ai, st, t, F, G, rp):
        id = W.tableid(t, ("rq",))
        if t[1][1] != depth:
            raise Malformed("a request is filed in the queue of another operation")
        check_top(W, st, id, (F, G))
        o = ("rqn", "q%d" % st.fresh())
        W.setdyn(st, o, id, sem(W, W.denote(st, F), W.denote(st, G)), "req", W.r0)
        W.opaque_in(st, o, W.r0)
        storeh(ai, st, rp, (id, ("p", o, 0)))
        return ("s", ("found", o))
    return on_request


def check_top(W, st, id, hs):
    ix = min(W.topindex(st, h) for h in hs)
    if W.index.get(id, 0xFFFF) != ix:
        raise Malformed("a request is filed under variable %d, but the first variable of its operands in the order is "
                        "another one" % id)


def top_of(W, hs):
    return min((W.index[W.idof(W.st, h)], W.idof(W.st, h)) for h in hs if W.idof(W.st, h) != 0)[1]


def chain(W, ai, st, tobj, nb=2):
    """objects still linked in the table's bins"""
    T = "CalHashTableStruct"
    b = ai.read(st, tobj, W.p.off(T, "bins"), 8)
    out = []
    for i in range(nb):
        p = ai.read(st, b[1], b[2] + 8 * i, 8)
        k = 0
        while isinstance(p, tuple) and p[0] == "p" and k < 20:
            o = p[1]
            out.append(o)
            p = ai.read(st, o, W.N["nextBddNode"][0], 8)
            if isinstance(p, tuple) and p[0] == "p":
                p = ("p", p[1], p[2] & ~0xf) if isinstance(p[2], int) else None
            elif isinstance(p, int):
                p &= ~0xf
            k += 1
            if p == 0:
                break
    return out


# ------------------------------------------------------------------ binary apply
AND = ("and", lambda W, f, g: f & g)
XOR = ("xor", lambda W, f, g: f ^ g)
NAND = ("nand", lambda W, f, g: W.neg(f & g))

ORDERS = [{1: 2, 2: 0, 3: 1, 4: 3}, {1: 0, 2: 1, 3: 2, 4: 3}, {1: 1, 2: 2, 3: 0, 4: 3}]


def apply_worlds(thorough):
    """(order, operand shapes): the table's variable is T; f and/or g start with it"""
    out = []
    for od in ORDERS[:3 if thorough else 2]:
        for shape in ("fg", "f", "g", "f1", "g1"):
            for pf in (0, 1):
                for pg in (0, 1):
                    out.append((od, shape, pf, pg))
    return out


def top2(od):
    byix = sorted(od, key=od.get)
    return byix


def build_binary(prog, od, shape, pf, pg, r0):
    ids = top2(od)
    T = ids[0]
    W = HW(prog, ["v%d" % T, "a", "b", "c", "d"], od)
    W.vname = lambda i: "v%d" % i
    W.r0 = r0
    W.addr = pf ^ pg ^ (r0 & 1)
    a = W.leaf("a", ids[1], ref=r0)
    b = W.leaf("b", ids[2], ref=r0)
    c = W.leaf("c", ids[2], ref=r0)
    d = W.leaf("d", ids[3], ref=r0)
    W.leaf("e", ids[3], W.atom("a") ^ W.atom("b"), ref=3)
    W.bnode("E", T, W.h("e"), W.h("1"))
    W.generic = {("n", x) for x in "abcd"}
    F = W.bnode("F", T, a, notp(b))
    G = W.bnode("G", T, c, d)
    f, g = F, G
    if shape == "f":
        g = c
    elif shape == "g":
        f = b
    elif shape == "f1":
        g = W.h("1")
    elif shape == "g1":
        f = W.h("1")
    if pf:
        f = notp(f)
    if pg:
        g = notp(g)
    return W, T, f, g


def apply_binary(ctx, F, fname="CalHashTableApply", sems=(AND, XOR)):
    fn = ctx.prog.fn(fname)
    for (od, shape, pf, pg) in apply_worlds(ctx.thorough):
        for (sname, sem) in sems:
            for r0 in (3, 15) + ((127, 254, 255) if ctx.thorough or (shape == "fg" and not pf and not pg) else ()):
                if not ctx.mine():
                    continue
                W, T, f, g = build_binary(ctx.prog, od, shape, pf, pg, r0)
                # three requests: the generic one, its successor in the chain, and one in the last bin
                W.request("R", f, g, 3)
                W.request("S", W.h("E"), W.h("!e"), 1)
                W.request("U", W.h("e"), W.h("E"), 1)
                tb = ("rq", 0, T)
                W.bins(tb, [[("rqn", "R"), ("rqn", "S")], [("rqn", "U")]])
                W.on_request = file_request(W, sem)
                ai = W.interp({"$op": opmodel(W, sem)}, maxsteps=120000)
                args = W.pack(fn, [("p", W.M, 0), ("p", tb, 0), ("p", ("arr", "rq0"), 0), ("fn", "$op")])
                F.begin()
                fin = ai.run(fn, args, W.st)
                ctx.absorb(ai, "apply")
                F.engine(ai, fn)
                if not fin and not ai.violations:
                    raise AnalysisBroken("no path through " + fname)
                v = W.varatom(T)
                exp = {"R": sem(W, W.den(f), W.den(g)), "S": sem(W, W.den(W.h("E")), W.den(W.h("!e"))),
                       "U": sem(W, W.den(W.h("e")), W.den(W.h("E")))}
                for s in fin:
                    where = "request on operands (%s, %s) of variable %d" % (show(f), show(g), T)
                    try:
                        check_expanded(W, ai, s, tb, exp, v, F, fn, where)
                    except Malformed as e:
                        F.add("den", fname, "%s: %s" % (where, e), loc(fn), s.tracelist())
                F.end("apply:" + fname)


def check_expanded(W, ai, s, tb, exp, v, F, fn, where, cred=1, roots=()):
    """after an apply step every request holds the two sub-results, each counted once"""
    if s.status == "abort":
        raise Malformed("the step aborts")
    holders = {}
    got = chain(W, ai, s, tb)
    for name, den in exp.items():
        o = ("rqn", name)
        if o not in got:
            F.add("list", fn.name, "%s: a request is lost from its queue" % where, loc(fn), s.tracelist())
            continue
        th, el = W.readh(ai, s, o, "then"), W.readh(ai, s, o, "else")
        if el[1] == 0:
            raise Malformed("the expanded request looks forwarded")
        r = W.ite(v, W.denote(s, th), W.denote(s, el))
        if r != den:
            F.add("den", fn.name, "%s: the two sub-requests do not recombine to the operation on the operands "
                  "(positive branch %s, negative branch %s)" % (where, show(th), show(el)), loc(fn), s.tracelist())
        for h in (th, el):
            holders[h[1][1]] = holders.get(h[1][1], 0) + 1
        d = W.delta(s, o)
        if d not in (0, None):
            F.add("ref", fn.name, "%s: the count of users of the request changes by %d" % (where, d), loc(fn), s.tracelist())
    check_refs(W, s, holders, F, fn, where)


def check_refs(W, s, expect, F, fn, where, base=None):
    """reference count of every object changes by exactly the expected amount"""
    for o in W.objs_touched(s):
        if o in W.refinit or o in s.d.get("ref0", {}):
            if o[0] == "rqn" and o not in s.d["dyn"] and o not in expect:
                continue
            try:
                d = W.delta(s, o)
            except Malformed as e:
                F.add("ref", fn.name, "%s: %s" % (where, e), loc(fn), s.tracelist())
                continue
            if d is None:
                continue
            e = expect.get(o, 0)
            r0 = W.refinit.get(o, s.d.get("ref0", {}).get(o))
            if r0 is not None and r0 + e > 255:
                e = 255 - r0
            if d != e:
                F.add("ref", fn.name, "%s: the reference count of %s changes by %+d instead of %+d" % (
                    where, show_obj(o), d, e), loc(fn), s.tracelist())


# ------------------------------------------------------------------ reduce
def reduce_worlds(thorough):
    """shapes of the two sub-results of the generic request"""
    subs = []
    for t in ("a", "!a", "fa", "!fa", "f!a"):
        for e in ("b", "!b", "fb", "f!b", "a", "!a", "fa", "1", "0", "f1"):
            subs.append((t, e))
    subs += [("1", "a"), ("0", "a"), ("1", "0"), ("1", "1"), ("0", "0"), ("f0", "fa"), ("f1", "!a")]
    return subs


def sub(W, spec, id, k):
    """spec: 'a' resolved node a; 'fa' a request forwarded to a; '!' complemented"""
    neg = spec.startswith("!")
    sp = spec.lstrip("!")
    if sp.startswith("f"):
        tgt = W.h(sp[1:])
        h = W.forwarded("w" + str(k), tgt, id)
    else:
        h = W.h(sp)
    return notp(h) if neg else h


def resolved(W, h):
    o = h[1][1]
    if o[0] == "rqn":
        t = W.st.mem[(o, W.N["thenBddNode"][0])][0]
        i = W.st.mem[(o, W.N["thenBddId"][0])][0]
        r = (i, t)
        return notp(r) if h[1][2] else r
    return h


def reduce_binary(ctx, F, fname="CalHashTableReduce"):
    fn = ctx.prog.fn(fname)
    for od in ORDERS[:3 if ctx.thorough else 1]:
        for (t, e) in reduce_worlds(ctx.thorough):
            rs = [(2, 3), (1, 3)]
            if (t, e) in (("a", "b"), ("fa", "a"), ("!a", "b"), ("fa", "fb"), ("!fa", "!a"), ("a", "a")) or ctx.thorough:
                rs += [(2, 15), (2, 254), (17, 250), (255, 3), (3, 255), (200, 200)]
            for (rr, r0) in rs:
                if not ctx.mine():
                    continue
                ids = top2(od)
                T = ids[0]
                W = HW(ctx.prog, ["v%d" % T, "a", "b", "c"], od)
                W.r0 = r0
                W.leaf("a", ids[1], ref=r0)
                W.leaf("b", ids[2], ref=r0)
                W.leaf("c", ids[3], ref=3)
                W.addr = rr & 1
                W.generic = {("n", "a"), ("n", "b")}
                H1, H2 = sub(W, t, ids[1], 1), sub(W, e, ids[2], 2)
                W.request("R", H1, H2, rr)
                W.request("S", W.h("c"), W.h("1"), 1)
                W.request("U", W.h("!c"), W.h("0"), 1)
                tb = ("rq", 0, T)
                W.bins(tb, [[("rqn", "R"), ("rqn", "S")], [("rqn", "U")]])
                n0 = ("s", "numNodes0")
                W.mfield("numNodes", n0)
                g0 = ("s", "gcCheck0")
                W.mfield("gcCheck", g0)
                ai = W.interp({}, maxsteps=120000)
                args = W.pack(fn, [("p", W.M, 0), ("p", tb, 0), ("p", ("ut", T), 0)])
                F.begin()
                fin = ai.run(fn, args, W.st)
                ctx.absorb(ai, "reduce")
                F.engine(ai, fn)
                if not fin and not ai.violations:
                    raise AnalysisBroken("no path through " + fname)
                v = W.varatom(T)
                reqs = {"R": (H1, H2, rr), "S": (W.h("c"), W.h("1"), 1), "U": (W.h("!c"), W.h("0"), 1)}
                for s in fin:
                    where = "request of variable %d with sub-results (%s, %s)" % (T, t, e)
                    try:
                        check_reduced(W, ai, s, tb, T, reqs, v, F, fn, where, n0)
                    except Malformed as ex:
                        F.add("den", fname, "%s: %s" % (where, ex), loc(fn), s.tracelist())
                F.end("reduce:" + fname)


def check_reduced(W, ai, s, tb, T, reqs, v, F, fn, where, n0=None, exact=True):
    if s.status == "abort":
        raise Malformed("the step aborts")
    N = W.N
    expect = {}
    tr = s.tracelist()

    def add(o, k):
        expect[o] = expect.get(o, 0) + k
    released = endlist(W, ai, s, tb)
    created = {c[0]: c for c in s.d.get("created", ())}
    direct = s.d.get("direct", ())
    for name, (H1, H2, rr) in reqs.items():
        o = ("rqn", name)
        h1, h2 = resolved(W, H1), resolved(W, H2)
        den = W.ite(v, W.denote(s, h1), W.denote(s, h2))
        add(h1[1][1], -1)
        add(h2[1][1], -1)
        el = W.readh(ai, s, o, "else")
        if o in direct or o in created:
            rid, t, kind = s.d["dyn"][o]
            if el[1] == 0:
                raise Malformed("a request placed in the unique table also looks forwarded")
            if t != den:
                F.add("den", fn.name, "%s: the node built does not denote the recombination of the sub-results" % where,
                      loc(fn), tr)
            r = W.ref(s, o)
            if r != rr:
                F.add("ref", fn.name, "%s: the new node has reference count %s for %d users" % (where, r, rr), loc(fn), tr)
            if o in released:
                F.add("list", fn.name, "%s: a live node is queued for release" % where, loc(fn), tr)
        else:
            if el[1] != 0:
                raise Malformed("the request is neither a diagram node nor forwarded to its result")
            th = W.readh(ai, s, o, "then")
            if W.denote(s, th) != den:
                F.add("den", fn.name, "%s: the request is forwarded to %s, which does not denote the recombination of "
                      "its sub-results" % (where, show(th)), loc(fn), tr)
            if not W.isnode(s, th):
                raise Malformed("the request is forwarded to something that is not a diagram node")
            add(th[1][1], rr)
            if o not in released:
                F.add("list", fn.name, "%s: a resolved request is never released" % where, loc(fn), tr)
    for o, (oo, id, Th, El) in created.items():
        add(Th[1][1], 1)
        add(El[1][1], 1)
    for o in created:
        if o[0] != "rqn" and o not in W.refinit:
            r = W.ref(s, o)
            e = expect.get(o, 0)
            if r != min(e, 255):
                F.add("ref", fn.name, "%s: the new node has reference count %s for %d users" % (where, r, e), loc(fn), tr)
    for o in created:
        expect.pop(o, None)
    check_refs(W, s, expect, F, fn, where)
    if n0 is not None:
        c = s.mem.get((W.M, W.p.off("Cal_BddManagerStruct", "numNodes")))
        k = len(created)
        from ai import linadd
        d = linadd(c[0], n0, -1) if c else None
        if d != k:
            F.add("count", fn.name, "%s: %d node(s) created but the node total changes by %s" % (where, k, d), loc(fn), tr)
    for x in ("R", "S", "U"):
        pass
    left = [o for o in chain(W, ai, s, tb) if o[0] == "rqn"]
    if left:
        F.add("list", fn.name, "%s: the queue still lists processed requests" % where, loc(fn), tr)


def endlist(W, ai, s, tb):
    T = "CalHashTableStruct"
    off = W.p.off(T, "startNode")
    p = ai.read(s, tb, off, 8)
    end = ai.read(s, tb, W.p.off(T, "endNode"), 8)
    out = []
    k = 0
    last = ("p", tb, off)
    while isinstance(p, tuple) and p[0] == "p" and k < 20 and last != end:
        out.append(p[1])
        last = ("p", p[1], 0)
        p = ai.read(s, p[1], W.N["nextBddNode"][0], 8)
        if isinstance(p, tuple) and isinstance(p[2], int):
            p = ("p", p[1], p[2] & ~0xf)
        k += 1
    return out


# ------------------------------------------------------------------ ite apply
def itemodel(W, depth=0):
    """contract of CalOpITE (decided by C01)"""
    fn = W.p.fn("CalOpITE")

    def ite(ai, st, args):
        bm, F, G, H, tabs = unpack(ai, st, fn, args)
        ts = [W.denote(st, x) for x in (F, G, H)]
        den = W.ite(*ts)
        ids = [x for x in (F, G, H) if W.idof(st, x) != 0]
        if not ids:
            h = W.h("1" if den else "0")
            return ("struct", (h[0], h[1]))
        top = min(ids, key=lambda h: W.topindex(st, h))
        if tabs != ("p", ("arr", "rq%d" % depth), 0):
            raise Malformed("a request is filed in the queues of another operation")
        fork = W.generic is None or any(x[1][1] in W.generic for x in (F, G, H))
        outs = []
        for kind in (("node", "req") if fork else ("node",)):
            s = st.copy() if kind == "node" and fork else st
            o = ("old", s.fresh()) if kind == "node" else ("rqn", "q%d" % s.fresh())
            W.setdyn(s, o, W.idof(st, top), den, kind, W.r0)
            W.opaque_in(s, o, W.r0)
            if kind == "req":
                s.d["filed"] = s.d.get("filed", ()) + ((depth, W.idof(st, top), o),)
                mark(s, (depth, W.idof(st, top)), "E")
            outs.append((s, ("struct", (W.idof(st, top), ("p", o, 0)))))
        return outs
    return ite


def apply_ite(ctx, F):
    fn = ctx.prog.fn("CalHashTableITEApply")
    for od in ORDERS[:3 if ctx.thorough else 1]:
        for shape in ("fgh", "fg", "fh", "gh", "f", "g", "h", "f0", "g1"):
            for ph in range(8):
                if not ctx.thorough and ph in (3, 5, 6):
                    continue
                if not ctx.mine():
                    continue
                ids = top2(od)
                T = ids[0]
                W = HW(ctx.prog, ["v%d" % T, "a", "b", "c", "d", "e"], od)
                r0 = 15 if ph & 1 else 3
                W.r0 = r0
                W.addr = ph & 1
                W.leaf("a", ids[1], ref=r0)
                for x in "bcd":
                    W.leaf(x, ids[2], ref=r0)
                W.leaf("e", ids[3], ref=r0)
                h_ = W.h
                W.bnode("F", T, h_("a"), h_("!b"))
                W.bnode("G", T, h_("c"), h_("d"))
                W.bnode("H", T, h_("e"), h_("!a"))
                W.leaf("x", ids[3], W.atom("c"))
                W.bnode("E", T, h_("x"), h_("1"))
                W.generic = {("n", z) for z in "abcde"}
                f = h_("F") if "f" in shape else h_("b")
                g = h_("G") if "g" in shape else h_("c")
                h = h_("H") if "h" in shape else h_("e")
                if shape == "f0":
                    h = h_("0")
                if shape == "g1":
                    h = h_("1")
                f, g, h = (notp(z) if ph >> k & 1 else z for k, z in enumerate((f, g, h)))
                reqs = {"R": (f, g, h), "S": (h_("E"), h_("x"), h_("0")), "U": (h_("x"), h_("!E"), h_("1"))}
                for n, (p, q, r) in reqs.items():
                    W.mk(("rqn", "ind" + n), q, r, 0)
                    W.request(n, p, (0, ("p", ("rqn", "ind" + n), 0)), 3)
                tb = ("rq", 0, T)
                W.bins(tb, [[("rqn", "R"), ("rqn", "S")], [("rqn", "U")]])
                ai = W.interp({"CalOpITE": itemodel(W)}, maxsteps=200000)
                args = W.pack(fn, [("p", W.M, 0), ("p", tb, 0), ("p", ("arr", "rq0"), 0)])
                F.begin()
                fin = ai.run(fn, args, W.st)
                ctx.absorb(ai, "apply")
                F.engine(ai, fn)
                if not fin and not ai.violations:
                    raise AnalysisBroken("no path through CalHashTableITEApply")
                v = W.varatom(T)
                exp = {n: W.ite(*[W.den(z) for z in z3]) for n, z3 in reqs.items()}
                for s in fin:
                    where = "if-then-else request (%s, %s, %s) of variable %d" % (show(f), show(g), show(h), T)
                    try:
                        check_expanded(W, ai, s, tb, exp, v, F, fn, where)
                    except Malformed as e:
                        F.add("den", fn.name, "%s: %s" % (where, e), loc(fn), s.tracelist())
                F.end("apply:CalHashTableITEApply")


# ------------------------------------------------------------------ drivers
def mark(st, key, flag):
    st.d = dict(st.d)
    t = dict(st.d.get("tab", {}))
    t[key] = t.get(key, frozenset()) | {flag}
    st.d["tab"] = t


def tab(st, key):
    return st.d.get("tab", {}).get(key, frozenset())


class Driver:
    """world in which the per-table steps are contracts and only their order matters"""

    def __init__(self, W, depth, mode, terminal=()):
        self.W, self.depth, self.mode = W, depth, mode
        self.ne = W.p.off("CalHashTableStruct", "numEntries")
        W.st.d["tab"] = {}
        W.st.d["filed"] = ()
        W.st.d["freed"] = frozenset()

    def on_load(self, ai, st, obj, off, size, ty):
        if isinstance(obj, tuple):
            if obj[0] == "rq" and off == self.ne:
                return (1 if "E" in tab(st, (obj[1], obj[2])) else 0,)
            if obj in st.d["freed"]:
                ai.report(st, "den", "a released request is read")
        return None

    def file(self, ai, st, t, F, G, rp, sem):
        W = self.W
        id = W.tableid(t, ("rq",))
        d = t[1][1]
        check_top(W, st, id, (F, G))
        if "A" in tab(st, (d, id)):
            raise Malformed("a request is filed in a queue that has already been expanded")
        if W.idof(st, F) == 0 and W.idof(st, G) == 0:
            raise Malformed("a request on two constants is filed")
        for h in (F, G):
            k = st.d["dyn"].get(h[1][1])
            if k and k[2] == "req" and dict((o, dd) for dd, i, o in st.d["filed"])[h[1][1]] >= d:
                raise Malformed("a request depends on a request of the same or a later stage")
        o = ("rqn", "q%d" % st.fresh())
        W.setdyn(st, o, id, sem(W, W.denote(st, F), W.denote(st, G)), "req", W.r0)
        W.opaque_in(st, o, W.r0)
        st.d["filed"] = st.d["filed"] + ((d, id, o),)
        mark(st, (d, id), "E")
        storeh(ai, st, rp, (id, ("p", o, 0)))
        return ("s", ("found", o))

    def apply(self, ai, st, args, op=None):
        W = self.W
        t, arr = args[1], args[2]
        id = W.tableid(t, ("rq",))
        d = t[1][1]
        if not (isinstance(arr, tuple) and arr[0] == "p" and ai.read(st, arr[1], 8 * id, 8) == t):
            raise Malformed("the sub-requests are filed in the queues of another stage")
        if op is not None and len(args) > 3 and args[3] != ("fn", op):
            raise Malformed("the expansion uses another operation")
        ix = W.index[id]
        if "E" not in tab(st, (d, id)):
            return None
        if "A" in tab(st, (d, id)):
            raise Malformed("a queue is expanded twice")
        for i in W.index:
            if i == 0:
                continue
            if W.index[i] < ix and "E" in tab(st, (d, i)) and "A" not in tab(st, (d, i)):
                raise Malformed("the queue of position %d is expanded before the one of position %d" % (ix, W.index[i]))
        for d2 in range(d):
            if "E" in tab(st, (d2, id)) and "A" not in tab(st, (d2, id)):
                raise Malformed("a later stage is expanded before the stage it depends on")
        mark(st, (d, id), "A")
        for i in W.index:
            if i and W.index[i] > ix and "A" not in tab(st, (d, i)):
                mark(st, (d, i), "E")
        return None

    def reduce(self, ai, st, args):
        W = self.W
        t, ut = args[1], args[2]
        id, uid = W.tableid(t, ("rq",)), W.tableid(ut, ("ut",))
        if id != uid:
            raise Malformed("the requests of variable %d are placed in the table of variable %d" % (id, uid))
        d = t[1][1]
        ix = W.index[id]
        if "E" not in tab(st, (d, id)):
            return None
        if "A" not in tab(st, (d, id)):
            raise Malformed("a queue is reduced before it is expanded")
        if "R" in tab(st, (d, id)):
            raise Malformed("a queue is reduced twice")
        for i in W.index:
            if i and W.index[i] > ix and "E" in tab(st, (d, i)) and "R" not in tab(st, (d, i)):
                raise Malformed("the queue of position %d is reduced before the one of position %d" % (ix, W.index[i]))
        for d2 in range(d, self.depth):
            for i in W.index:
                if i and "E" in tab(st, (d2, i)) and "A" not in tab(st, (d2, i)):
                    raise Malformed("reduction starts while requests are still waiting to be expanded")
        mark(st, (d, id), "R")
        N = W.N
        for dd, i, o in st.d["filed"]:
            if (dd, i) == (d, id):
                rid, t, kind = st.d["dyn"][o]
                if self.mode == 2:
                    W.setdyn(st, o, rid, t, "node")
                    continue
                n = ("old", st.fresh())
                W.setdyn(st, n, rid, W.neg(t) if self.mode else t, "node", W.r0)
                W.opaque_in(st, n, W.r0)
                st.mem[(o, N["thenBddId"][0])] = (rid, 2)
                st.mem[(o, N["thenBddNode"][0])] = (("p", n, self.mode), 8)
                st.mem[(o, N["elseBddNode"][0])] = (0, 8)
        return None

    def cleanup(self, ai, st, args):
        W = self.W
        t = args[0]
        id = W.tableid(t, ("rq",))
        d = t[1][1]
        f = tab(st, (d, id))
        if "E" in f and "R" not in f:
            raise Malformed("a queue is released before its requests are resolved")
        mark(st, (d, id), "C")
        for dd, i, o in st.d["filed"]:
            if (dd, i) == (d, id) and st.d["dyn"][o][2] == "req":
                st.d["freed"] = st.d["freed"] | {o}
        return None

    def op(self, sem, terminal):
        """terminal(F, G) -> bool decides which operand pairs are terminal in this world"""
        W = self.W

        def op(ai, st, args):
            F, G, rp = (args[1], args[2]), (args[3], args[4]), args[5]
            ids = [x for x in (F, G) if W.idof(st, x) != 0]
            if not ids:
                storeh(ai, st, rp, W.h("1" if sem(W, W.denote(st, F), W.denote(st, G)) else "0"))
                return 1
            if not terminal(F, G):
                return 0
            top = min(ids, key=lambda h: W.topindex(st, h))
            n = ("old", st.fresh())
            W.setdyn(st, n, W.idof(st, top), sem(W, W.denote(st, F), W.denote(st, G)), "node", W.r0)
            W.opaque_in(st, n, W.r0)
            storeh(ai, st, rp, (W.idof(st, top), ("p", n, 0)))
            return 1
        return op

    def models(self, sem, opname="$op", terminal=lambda F, G: False):
        W = self.W
        W.on_request = lambda ai, st, t, F, G, rp: self.file(ai, st, t, F, G, rp, sem)
        return {"CalHashTableApply": lambda ai, st, a: self.apply(ai, st, a, opname),
                "CalHashTableITEApply": lambda ai, st, a: self.apply(ai, st, a),
                "CalHashTableReduce": self.reduce, "CalHashTableCleanUp": self.cleanup,
                "CalOpITE": itemodel(W),
                opname: self.op(sem, terminal)}

    def finish(self, ai, st, h):
        """the driver is done: everything filed was resolved and released"""
        W = self.W
        for k, f in st.d["tab"].items():
            if "E" in f and "C" not in f:
                raise Malformed("the queue of variable %d (stage %d) is left with unprocessed or unreleased requests"
                                % (k[1], k[0]))
        return h


DORD = [{1: 2, 2: 0, 3: 1}, {1: 0, 2: 1, 3: 2}, {1: 1, 2: 2, 3: 0}]


def driver_binary(ctx, F):
    fn = ctx.prog.fn("CalBddOpBF")
    for od in DORD:
        for (fi, gi) in ((1, 2), (2, 1), (2, 3), (3, 3), (1, 3), (3, 1), (1, 0), (0, 2)):
            for mode in (0, 1, 2):
                for term in (False, True):
                    if not ctx.mine():
                        continue
                    W = HW(ctx.prog, ["a", "b"], od)
                    W.r0 = 3
                    W.addr = mode & 1
                    f = W.leaf("a", fi) if fi else W.h("1")
                    g = W.leaf("b", gi) if gi else W.h("0")
                    D = Driver(W, 1, mode)
                    sem = AND[1] if fi and gi else XOR[1]
                    ai = W.interp(D.models(sem, terminal=lambda F, G: term))
                    ai.on_load = D.on_load
                    args = W.pack(fn, [("p", W.M, 0), ("fn", "$op"), f, g])
                    F.begin()
                    fin = ai.run(fn, args, W.st)
                    ctx.absorb(ai, "driver")
                    F.engine(ai, fn)
                    if not fin and not ai.violations:
                        raise AnalysisBroken("no path through CalBddOpBF")
                    for s in fin:
                        where = "operands of variables (%d, %d), order %s" % (fi, gi, od)
                        try:
                            h = W.rethandle(s)
                            if W.denote(s, h) != sem(W, W.den(f), W.den(g)):
                                raise Malformed("the result is not the operation on the operands")
                            if not W.isnode(s, h):
                                raise Malformed("an unresolved request is returned")
                            D.finish(ai, s, h)
                        except Malformed as e:
                            F.add("den", fn.name, "%s: %s" % (where, e), loc(fn), s.tracelist())
                    F.end("driver:CalBddOpBF")


def driver_ite(ctx, F):
    fn = ctx.prog.fn("CalBddOpITEBF")
    for od in DORD:
        for ids in ((1, 2, 3), (2, 3, 1), (3, 1, 2), (1, 3, 2), (2, 1, 3), (3, 2, 1), (1, 1, 2), (2, 0, 3), (3, 2, 0), (2, 2, 2)):
            for mode in (0, 1, 2):
                if not ctx.mine():
                    continue
                W = HW(ctx.prog, ["a", "b", "c"], od)
                W.r0 = 3
                W.addr = mode & 1
                hs = [W.leaf(n, i) if i else W.h("0") for n, i in zip("abc", ids)]
                D = Driver(W, 1, mode)
                ai = W.interp(D.models(None))
                ai.on_load = D.on_load
                args = W.pack(fn, [("p", W.M, 0)] + hs)
                F.begin()
                fin = ai.run(fn, args, W.st)
                ctx.absorb(ai, "driver")
                F.engine(ai, fn)
                if not fin and not ai.violations:
                    raise AnalysisBroken("no path through CalBddOpITEBF")
                for s in fin:
                    where = "operands of variables %s, order %s" % (ids, od)
                    try:
                        h = W.rethandle(s)
                        if W.denote(s, h) != W.ite(*[W.den(x) for x in hs]):
                            raise Malformed("the result is not the if-then-else of the operands")
                        if not W.isnode(s, h):
                            raise Malformed("an unresolved request is returned")
                        D.finish(ai, s, h)
                    except Malformed as e:
                        F.add("den", fn.name, "%s: %s" % (where, e), loc(fn), s.tracelist())
                F.end("driver:CalBddOpITEBF")
