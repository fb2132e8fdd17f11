"""Lookup tables against their abstract contents: histories of insertion, lookup, removal and growth under every
assignment of keys to representative bins."""
import itertools
from ir import AnalysisBroken, Budget
from world import Malformed, packref, addbits, getref
from bddw import notp
from api import Leak
from kernels import loc
from heap import HeapW, Tab, again
from queries import i32

RES = ("arr", "res")


def digitsets(thorough, keys=4):
    """bin assignments of the first keys, before and after growth"""
    out = []
    for d in itertools.product((0, 1, 2), repeat=keys if thorough else 3):
        out.append((d + d[:1], tuple((x + i) % 3 for i, x in enumerate(reversed(d))) + d[1:], d[::-1]))
    return out


class TW(HeapW):
    """a table of variable id 1 over opaque keys of lower variables"""
    def __init__(self, prog, cap=2, sizeindex=2, nbins=None):
        HeapW.__init__(self, prog, list("abcd"), {1: 0, 2: 1, 3: 2})
        for a, i in zip("abcd", (2, 3, 2, 3)):
            self.leaf(a, i)
        self.T = ("ut", 1)
        self.bins = self.realtable(self.T, 1, sizeindex, cap, nbins)
        self.mfield("numNodes", 1000)
        self.n = 0

    def prebuilt(self, t, e, ref):
        """a node that is not yet in a table"""
        self.n += 1
        o = ("new", self.n)
        self.nodefields(self.st, o, t, e, ref)
        return o

    def nodefields(self, st, o, t, e, ref, next=0):
        N = self.N
        a, b, c = packref(ref)
        st.mem[(o, N["nextBddNode"][0])] = (addbits(next, a), 8)
        st.mem[(o, N["thenBddId"][0])] = (t[0], 2)
        st.mem[(o, N["elseBddId"][0])] = (e[0], 2)
        st.mem[(o, N["thenBddNode"][0])] = (addbits(t[1], b), 8)
        st.mem[(o, N["elseBddNode"][0])] = (addbits(e[1], c), 8)

    def children(self, s, o):
        N = self.N

        def low(p, m):
            return ("p", p[1], p[2] & ~m) if isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int) else p
        g = lambda f: s.mem.get((o, N[f][0]), (None,))[0]
        return (g("thenBddId"), low(g("thenBddNode"), 2)), (g("elseBddId"), low(g("elseBddNode"), 0xe))

    def entries(self, s):
        return i32(s.mem[(self.T, self.p.off("CalHashTableStruct", "numEntries"))][0])


class Hist:
    """one history: a list of steps, run on every path"""
    def __init__(self, ctx, F, W, where, digits, rule, models=None, tag="table"):
        self.tag = tag
        self.ctx, self.F, self.W, self.where, self.rule = ctx, F, W, where, rule
        self.ai = W.heap(digits, models)
        self.ai.maxsteps = 2000000
        self.ai.strict_truncate = True
        self.states = [W.st]
        self.log = []
        F.begin()
        self.fns = []
        if getattr(F, "stuck", False):
            self.states = []

    def tagof(self, e):
        t = getattr(e, "tag", "den")
        return self.tag if t == "den" else t

    def call(self, name, args, check=None, fn=None):
        fn = fn or self.W.p.fn(name)
        if fn not in self.fns:
            self.fns.append(fn)
        self.log.append(name)
        out = []
        for s in self.states:
            try:
                a = args(s) if callable(args) else args
                self.W.st = s
                fin = self.ai.run(fn, self.W.pack(fn, a), again(s))
            except Budget as e:
                self.F.stuck = True
                self.F.add(self.tag, fn.name, "%s, %s: does not come to an end" % (self.where, self.steps()), loc(fn))
                continue
            except Malformed as e:
                self.F.add(self.tagof(e), fn.name, "%s, %s: %s" % (self.where, self.steps(), e), loc(fn))
                continue
            for t in fin:
                try:
                    if t.status == "abort":
                        raise Malformed("the program is aborted")
                    if check:
                        check(t)
                    out.append(t)
                except Malformed as e:
                    self.F.add(self.tagof(e), fn.name, "%s, %s: %s" % (self.where, self.steps(), e), loc(fn), t.tracelist())
        self.states = out
        return out

    def steps(self):
        return "step %d" % len(self.log)

    def end(self):
        self.ctx.absorb(self.ai, self.rule)
        for fn in self.fns:
            self.F.engine(self.ai, fn)
            break
        if not self.states and not self.ai.violations and not self.F.bad and not getattr(self.F, "stuck", False):
            raise AnalysisBroken("no path through the history")
        self.F.end("%s:%s" % (self.rule, self.where.split(",")[0]))


def must(c, msg):
    if not c:
        raise Tab(msg)


class Model:
    """abstract contents: key -> node object"""
    def __init__(self, H, W):
        self.H, self.W = H, W
        self.c = {}
        self.nn = 0

    def key(self, k):
        return tuple(self.W.h(x) for x in k)

    def norm(self, k, unique):
        """(key, phase) under which a unique table stores k"""
        if unique and k[0].startswith("!"):
            return tuple(x[1:] if x.startswith("!") else "!" + x for x in k), 1
        return k, 0

    def result(self, s, o, neg=0):
        B = self.W.B
        g = lambda f: s.mem.get((RES, B[f][0]), (None,))[0]
        must(g("bddId") == 1, "the result carries variable %r" % (g("bddId"),))
        p = g("bddNode")
        if o is not None:
            must(p == ("p", o, neg), "another entry than the one inserted for the key is found")
        must(isinstance(p, tuple) and p[0] == "p" and p[2] == neg, "the phase of the result is wrong")
        return p[1]

    def stats(self, s):
        must(self.W.entries(s) == len(self.c), "the number of entries is %s after inserting %d" % (self.W.entries(s), len(self.c)))

    def add(self, fname, k, unique=False, mgr=False):
        W = self.W
        nk, neg = self.norm(k, unique)
        t, e = self.key(k)
        made = []

        def check(s):
            if nk in self.c:
                must(i32(s.retval) == 1, "a key that is present is reported as new")
                self.result(s, self.c[nk], neg)
            else:
                must(i32(s.retval) == 0, "a new key is reported as present")
                o = self.result(s, None, neg)
                must(o not in self.c.values(), "a new key gets the node of another one")
                must(W.children(s, o) == self.key(nk), "a new entry does not hold its key")
                made.append(o)
        args = ([("p", W.M, 0)] if mgr else []) + [("p", W.T, 0), t, e, ("p", RES, 0)]
        self.H.call(fname, args, check)
        if nk not in self.c and made:
            self.c[nk] = made[0]
            self.nn += 1 if mgr else 0
        for s in self.H.states:
            self.guard(s, fname)

    def guard(self, s, fname):
        try:
            self.stats(s)
            if self.nn:
                v = s.mem[(self.W.M, self.W.p.off("Cal_BddManagerStruct", "numNodes"))][0]
                must(v == 1000 + self.nn, "the manager counts %s nodes for %d new ones" % (v - 1000, self.nn))
        except Malformed as e:
            self.H.F.add(e.tag, fname, "%s, %s: %s" % (self.H.where, self.H.steps(), e), loc(self.W.p.fn(fname)))

    def look(self, fname, k, unique=False, mgr=False):
        W = self.W
        nk, neg = self.norm(k, unique)
        t, e = self.key(k)

        def check(s):
            if nk in self.c:
                must(i32(s.retval) == 1, "a key that is present is not found")
                self.result(s, self.c[nk], neg)
            else:
                must(i32(s.retval) == 0, "a key that was never inserted is found")
            self.stats(s)
        self.H.call(fname, ([("p", W.M, 0)] if mgr else []) + [("p", W.T, 0), t, e, ("p", RES, 0)], check)

    def direct(self, k, ref):
        W = self.W
        t, e = self.key(k)
        W.n += 1
        o = ("new", W.n)
        for s in self.H.states:
            W.nodefields(s, o, t, e, ref)
        self.c[k] = o

        def check(s):
            self.stats(s)
            must(W.children(s, o) == (t, e), "the inserted node changes its branches")
        self.H.call("CalHashTableAddDirect", [("p", W.T, 0), ("p", o, 0)], check)
        return o

    def delete(self, k):
        W = self.W
        if k not in self.c:
            return
        o = self.c.pop(k)
        self.H.call("CalHashTableDelete", [("p", W.T, 0), ("p", o, 0)], self.stats)

    def rehash(self, grow):
        self.H.call("CalHashTableRehash", [("p", self.W.T, 0), grow], self.stats)

    def move(self, k, k2):
        """the branches of a stored node are changed, then it is put where it belongs"""
        W = self.W
        if k not in self.c:
            return
        o = self.c.pop(k)
        t, e = self.key(k)
        t2, e2 = self.key(k2)
        for s in self.H.states:
            W.nodefields(s, o, t2, e2, getref(s, W.p, o), lowclear(s.mem[(o, W.N["nextBddNode"][0])][0]))
        self.c[k2] = o
        self.H.call("CalUniqueTableForIdRehashNode", [("p", W.T, 0), ("p", o, 0), reg(t[1]), reg(e[1])], self.stats)

    def refs(self, want):
        for s in self.H.states:
            for o, r in want.items():
                if getref(s, self.W.p, o) != r:
                    self.H.F.add("table", "CalHashTableRehash", "%s, %s: the reference count of an entry changes" % (self.H.where, self.H.steps()),
                                 loc(self.W.p.fn("CalHashTableRehash")))

    def mem(self):
        W = self.W
        for s in self.H.states:
            try:
                cur = s.mem[(W.T, W.p.off("CalHashTableStruct", "bins"))][0]
                gone = s.d.get("gone", ())
                if cur[1] in gone:
                    raise Leak("the bins in use are released")
                for o, inf in s.objs.items():
                    if inf[0] == "alloc" and o not in gone and o != cur[1]:
                        raise Leak("bins allocated at %s are not released after growth" % inf[1])
            except Malformed as e:
                self.H.F.add(e.tag, "CalHashTableRehash", "%s, %s: %s" % (self.H.where, self.H.steps(), e), loc(W.p.fn("CalHashTableRehash")))


def reg(p):
    return ("p", p[1], p[2] & ~1)


def lowclear(p):
    return ("p", p[1], p[2] & ~0xf) if isinstance(p, tuple) else p & ~0xf


K = [("a", "b"), ("b", "a"), ("a", "!b"), ("a", "c"), ("c", "d"), ("a", "1"), ("d", "b"), ("b", "!a")]


def twokey(ctx, F):
    for cap in (1, 2, 3, 9):
        for dg in digitsets(ctx.thorough):
            if not ctx.mine():
                continue
            # plain tables
            W = TW(ctx.prog, cap)
            H = Hist(ctx, F, W, "two-key table, capacity %d, bins %s" % (cap, dg), dg, "table")
            m = Model(H, W)
            A = lambda k: m.add("CalHashTableFindOrAdd", k)
            L = lambda k: m.look("CalHashTableLookup", k)
            L(K[0])
            for k in K[:3]:
                A(k)
                A(K[0])
            for k in K[:5]:
                L(k)
            A(K[3])
            m.delete(K[1])
            L(K[1])
            for k in K[:4]:
                L(k)
            A(K[1])
            A(K[4])
            m.rehash(1)
            m.delete(K[0])
            m.delete(K[4])
            for k in K[:6]:
                L(k)
            A(K[5])
            A(K[4])
            for k in K[:6]:
                A(k)
            m.mem()
            H.end()
            # unique tables: keys normalised to a regular first branch
            W = TW(ctx.prog, cap)
            H = Hist(ctx, F, W, "unique table, capacity %d, bins %s" % (cap, dg), dg, "table")
            m = Model(H, W)
            A = lambda k: m.add("CalUniqueTableForIdFindOrAdd", k, True, True)
            L = lambda k: m.look("CalUniqueTableForIdLookup", k, True, True)
            UK = [("a", "b"), ("!a", "b"), ("!a", "!b"), ("b", "a"), ("!a", "!1"), ("d", "!b")]
            for k in UK[:2]:
                L(k)
                A(k)
            for k in UK:
                L(k)
            for k in UK:
                A(k)
            for k in UK:
                A(k)
                L(k)
            m.mem()
            H.end()
            # direct insertion, moves, growth and shrinking
            W = TW(ctx.prog, cap)
            H = Hist(ctx, F, W, "direct insertion, capacity %d, bins %s" % (cap, dg), dg, "table")
            m = Model(H, W)
            refs = {}
            for k, r in zip(K[:4], (1, 0x9b, 255, 0x1f)):
                refs[m.direct(k, r)] = r
            m.refs(refs)
            for k in K[:5]:
                L2 = m.look("CalHashTableLookup", k)
            m.move(K[0], K[4])
            m.move(K[2], K[6])
            m.move(K[1], K[0])
            m.refs(refs)
            for k in K[:7]:
                m.look("CalHashTableLookup", k)
            m.rehash(1)
            m.refs(refs)
            m.move(K[3], K[5])
            m.refs(refs)
            for k in K[:7]:
                m.look("CalHashTableLookup", k)
            for k in K[7:8]:
                m.add("CalHashTableAddDirectAux", k)
            for k in K:
                m.look("CalHashTableLookup", k)
            m.mem()
            H.end()


# ---- single-key and triple-key tables

VAL = ("arr", "val")


def ret(H, fname, args):
    """call a function that makes a table; the table pointer of each path"""
    out = []

    def check(s):
        v = s.retval
        must(isinstance(v, tuple) and v[0] == "p" and s.objs.get(v[1], ("",))[0] == "alloc", "no table is returned")
        out.append(v)
    H.call(fname, args, check)
    if not out:
        if getattr(H.F, "stuck", False) or H.F.bad or H.ai.violations:
            return None
        raise AnalysisBroken("%s has no outcome" % fname)
    for s, t in zip(H.states, out):
        for f in ("numBins", "maxCapacity", "sizeIndex", "numEntries"):
            v = s.mem.get((t[1], H.W.p.off("CalHashTableStruct", f)), (None,))[0]
            if not isinstance(v, int):
                H.F.add("table", fname, "%s: the field %s of a new table is not initialised" % (H.where, f), loc(H.W.p.fn(fname)))
                return None
    if len(out) > 1:
        raise AnalysisBroken("%s has %d outcomes" % (fname, len(out)))
    return out[0]


def poke(H, W, t, **kw):
    off = W.p.fields["CalHashTableStruct"]
    for s in H.states:
        for k, v in kw.items():
            s.mem[(t[1], off[k][0])] = (v, off[k][1])


def entries(H, W, t, n, fname):
    off = W.p.off("CalHashTableStruct", "numEntries")
    for s in H.states:
        v = i32(s.mem.get((t[1], off), (None,))[0])
        if v != n:
            H.F.add("table", fname, "%s, %s: the number of entries is %s for %d keys" % (H.where, H.steps(), v, n), loc(W.p.fn(fname)))


def alldead(H, W, fname):
    """after the table is closed nothing of it is left"""
    for s in H.states:
        try:
            gone = s.d.get("gone", ())
            for o, inf in s.objs.items():
                if inf[0] == "alloc" and o not in gone and inf[1] != "the caller":
                    raise Leak("memory allocated at %s is not released when the table is closed" % inf[1])
            s.d.setdefault("dyn", {})
            W.check_nodes(s)
        except Malformed as e:
            H.F.add(e.tag, fname, "%s, %s: %s" % (H.where, H.steps(), e), loc(W.p.fn(fname)))


def onekey(ctx, F):
    KEYS = ["a", "!a", "b", "c", "1", "!b", "d", "0"]
    for size in (4, 8, 16, 32):
        for dg in digitsets(ctx.thorough):
            if not ctx.mine():
                continue
            W = TW(ctx.prog)
            H = Hist(ctx, F, W, "one-key table, values of %d bytes, bins %s" % (size, dg), dg, "table1")
            bm = ("p", W.M, 0)
            t = ret(H, "CalHashTableOneInit", [bm, size])
            if t is None:
                H.end()
                continue
            poke(H, W, t, numBins=4, sizeIndex=2, maxCapacity=3)
            have = {}

            def look(k):
                def check(s):
                    r = i32(s.retval)
                    v = s.mem.get((RES, 0), (None,))[0]
                    if k not in have:
                        must(r == 0 and v == 0, "a key that was never inserted is found")
                        return
                    must(r == 1, "a key that is present is not found")
                    must(isinstance(v, tuple) and v[0] == "p" and v[2] == 0, "no value is returned for a key that is present")
                    for i in range(0, size, 4):
                        must(s.mem.get((v[1], i), (None,))[0] == ("s", ("val", k, i)), "the value of another key is returned")
                H.call("CalHashTableOneLookup", [t, W.h(k), ("p", RES, 0)], check)

                def check2(s):
                    must(i32(s.retval) == (1 if k in have else 0), "the membership test is wrong")
                H.call("CalHashTableOneLookup", [t, W.h(k), 0], check2)

            def insert(k):
                for s in H.states:
                    for i in range(0, size, 4):
                        s.mem[(VAL, i)] = (("s", ("val", k, i)), 4)
                H.call("CalHashTableOneInsert", [t, W.h(k), ("p", VAL, 0)])
                have[k] = 1
                entries(H, W, t, len(have), "CalHashTableOneInsert")
            look("a")
            for n, k in enumerate(KEYS):
                insert(k)
                for x in KEYS:
                    look(x)
                if n == 5:
                    off = W.p.off("CalHashTableStruct", "maxCapacity")
                    poke(H, W, t, maxCapacity=7)
            H.call("CalHashTableOneQuit", [t])
            alldead(H, W, "CalHashTableOneQuit")
            H.call("CalHashTableOneQuit", [0])
            H.end()


def threekey(ctx, F):
    KEYS = [("a", "b", "c"), ("a", "b", "!c"), ("a", "c", "b"), ("b", "b", "c"), ("a", "!b", "c"), ("d", "b", "1"), ("!a", "b", "c"), ("d", "0", "c")]
    for dg in digitsets(ctx.thorough):
        for cap in (1, 3):
            if not ctx.mine():
                continue
            W = TW(ctx.prog)
            H = Hist(ctx, F, W, "three-key table, capacity %d, bins %s" % (cap, dg), dg, "table3")
            bm = ("p", W.M, 0)
            t = ret(H, "CalHashTableInit", [bm, 1])
            if t is None:
                H.end()
                continue
            entries(H, W, t, 0, "CalHashTableInit")
            for s in H.states:
                o = W.p.off("CalHashTableStruct", "startNode")
                if H.ai.read(s, t[1], o, 8) != 0:
                    F.add("table", "CalHashTableInit", "a new table has something in its list of requests", loc(W.p.fn("CalHashTableInit")))
            poke(H, W, t, numBins=4, sizeIndex=2, maxCapacity=cap)
            have = {}
            B = W.B

            def add(k):
                made = []

                def check(s):
                    g = lambda f: s.mem.get((RES, B[f][0]), (None,))[0]
                    p = g("bddNode")
                    must(g("bddId") == 1 and isinstance(p, tuple) and p[0] == "p" and p[2] == 0, "the result is not an entry of the table")
                    if k in have:
                        must(i32(s.retval) == 1, "a key that is present is reported as new")
                        must(p[1] == have[k], "another entry than the one inserted for the key is found")
                    else:
                        must(i32(s.retval) == 0, "a new key is reported as present")
                        must(p[1] not in have.values(), "a new key gets the entry of another one")
                        made.append(p[1])
                H.call("CalHashTableThreeFindOrAdd", [t] + [W.h(x) for x in k] + [("p", RES, 0)], check)
                if made:
                    have[k] = made[0]
                entries(H, W, t, len(have), "CalHashTableThreeFindOrAdd")
            for n, k in enumerate(KEYS):
                add(k)
                for x in KEYS[:n + 1]:
                    add(x)
                if n == 5:
                    poke(H, W, t, maxCapacity=6)
            # the operands of an entry
            H.end()
            W = TW(ctx.prog)
            H = Hist(ctx, F, W, "two-key table from the start, bins %s" % (dg,), dg, "table0")
            t = ret(H, "CalHashTableInit", [("p", W.M, 0), 1])
            if t is not None:
                W.T = t[1]
                m = Model(H, W)
                m.look("CalHashTableLookup", K[0])
                for k in K[:4]:
                    m.add("CalHashTableFindOrAdd", k)
                for k in K[:5]:
                    m.look("CalHashTableLookup", k)
                H.call("CalHashTableQuit", [("p", W.M, 0), t], lambda s: must(i32(s.retval) == 0, "closing a table reports failure"))
                for s in H.states:
                    # nodes of the table stay with their manager
                    s.d["kept"] = set(m.c.values())
                alldead(H, W, "CalHashTableQuit")
                H.call("CalHashTableQuit", [("p", W.M, 0), 0])
            H.end()


def cleanup(ctx, F):
    """finished requests of a table go back to the free list"""
    for n in (0, 1, 2, 3):
        if not ctx.mine():
            continue
        W = TW(ctx.prog)
        N = W.N["nextBddNode"][0]
        T = "CalHashTableStruct"
        s0 = W.p.off(T, "startNode")
        st = W.st
        prev = (W.T, s0)
        for i in range(n):
            o = ("done", i)
            W.nodefields(st, o, W.h("a"), W.h("b"), 0)
            st.mem[(prev[0], prev[1] + (N if prev[0] == W.T else 0))] = (("p", o, 0), 8)
            prev = (o, N)
        end = ("p", W.T, s0) if n == 0 else ("p", prev[0], 0)
        W.field(W.T, T, "endNode", end)
        W.field(W.T, T, "numEntries", n)
        W.field(W.T, T, "maxCapacity", 9)
        if n == 0:
            st.mem[(W.T, s0 + N)] = (0, 8)
        old = ("fr", 1, 0)
        st.mem[(("nm", 1), W.p.off("CalNodeManagerStruct", "freeNodeList"))] = (("p", old, 0), 8)
        H = Hist(ctx, F, W, "%d finished requests" % n, ((0,),), "table-clean")

        def check(s):
            must(W.entries(s) == 0, "the emptied table still counts entries")
            must(s.mem[(W.T, s0 + N)][0] == 0 and s.mem[(W.T, W.p.off(T, "endNode"))][0] == ("p", W.T, s0), "the emptied table still lists requests")
            h = s.mem[(("nm", 1), W.p.off("CalNodeManagerStruct", "freeNodeList"))][0]
            got = []
            while isinstance(h, tuple) and h[1][0] == "done" and len(got) < 9:
                got.append(h[1])
                h = s.mem[(h[1], N)][0]
            if sorted(got) != [("done", i) for i in range(n)] or h != ("p", old, 0):
                raise Leak("the finished requests do not go back to the free list (each once, the rest of the list kept)")
        H.call("CalHashTableCleanUp", [("p", W.T, 0)], check)
        H.end()
