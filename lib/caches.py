"""The computed-result cache against its meaning: histories of insertion, look-up, flushing, growth and repair."""
from ir import AnalysisBroken
from world import Malformed, packref, addbits, getref
from bddw import notp
from kernels import loc
from heap import HeapW, Tab, again
from tables import Hist, RES, reg
from queries import i32


class Cache(Malformed):
    tag = "cache"


BINS = ("h", "cachebins")


class CacheW(HeapW):
    def __init__(self, prog, nbins=4):
        HeapW.__init__(self, prog, list("abcde"), {1: 0, 2: 1})
        for a, i in zip("abcde", (1, 2, 1, 2, 2)):
            self.leaf(a, i)
        T = "CalCacheTableStruct"
        o = ("cache",)
        self.mfield("cacheTable", ("p", o, 0))
        self.st.objs[BINS] = ("alloc", "the caller", 32 * nbins)
        self.field(o, T, "numBins", nbins)
        self.field(o, T, "sizeIndex", nbins.bit_length() - 1)
        self.field(o, T, "bins", ("p", BINS, 0))
        self.field(o, T, "cacheRatio", 4)
        for f in ("numInsertions", "numEntries", "numHits", "numLookups", "numCollisions"):
            self.field(o, T, f, 0)
        E = prog.fields["CacheEntryStruct"]
        self.esize = 32
        for i in range(nbins):
            for f, (off, sz) in E.items():
                self.put(BINS, self.esize * i + off, 0, sz)
        self.mfield("numNodes", 1000)

    def mark(self, s, o, on):
        k = (o, self.N["thenBddNode"][0])
        v, z = s.mem[k]
        s.mem[k] = (("p", v[1], v[2] & ~4 | (4 if on else 0)), z)

    def forward(self, s, o, target):
        N = self.N
        s.mem[(o, N["thenBddId"][0])] = (target[0], 2)
        s.mem[(o, N["thenBddNode"][0])] = (target[1], 8)
        s.mem[(o, N["elseBddNode"][0])] = (0, 8)
        s.mem[(o, N["elseBddId"][0])] = (0, 2)


class CHist:
    """the cache with what it may say about each key"""
    def __init__(self, ctx, F, where, digits, addr, nbins=4):
        self.W = W = CacheW(ctx.prog, nbins)
        W.addr = addr
        self.F = F
        self.H = Hist(ctx, F, W, where, digits, "cache")
        self.c = {}
        self.hits = 0

    def key(self, f, g, op):
        return tuple(sorted((repr(self.W.h(f)), repr(self.W.h(g))))) + (op,)

    def bm(self):
        return ("p", self.W.M, 0)

    def cache(self):
        return ("p", ("cache",), 0)

    def counted(self, s):
        """an entry count of zero means that there is nothing to flush"""
        off = self.W.p.fields["CalCacheTableStruct"]
        b = s.mem[(("cache",), off["bins"][0])][0]
        n = s.mem[(("cache",), off["numBins"][0])][0]
        e = i32(s.mem[(("cache",), off["numEntries"][0])][0])
        oc = self.W.p.fields["CacheEntryStruct"]["opCode"][0]
        k = 0
        for i in range(n):
            v = s.mem.get((b[1], b[2] + self.W.esize * i + oc))
            v = v[0] if v else 0
            if v:
                k += 1
        if k != e:
            raise Tab("the cache counts %s entries and has %d" % (e, k))

    def insert(self, f, g, op, r, level=0):
        W = self.W
        self.c[self.key(f, g, op)] = r if isinstance(r, tuple) else W.h(r)
        self.H.call("CalCacheTableTwoInsert", [self.bm(), W.h(f), W.h(g), r if isinstance(r, tuple) else W.h(r), op, level], self.counted)

    def look(self, f, g, op):
        W = self.W
        k = self.key(f, g, op)
        B = W.B

        def check(s):
            rv = i32(s.retval)
            if rv == 0:
                return
            if rv != 1:
                raise Cache("the look-up answers %r" % (s.retval,))
            self.hits += 1
            if k not in self.c:
                raise Cache("a result is found for (%s, %s) under operation 0x%x, for which none is valid" % (f, g, op))
            h = tuple(s.mem.get((RES, B[x][0]), (None,))[0] for x in ("bddId", "bddNode"))
            if h != self.c[k]:
                raise Cache("the result found for (%s, %s) under operation 0x%x is not the one stored: %r" % (f, g, op, h))
        self.H.call("CalCacheTableTwoLookup", [self.bm(), W.h(f), W.h(g), op, ("p", RES, 0)], check)

    def all(self, keys):
        for k in keys:
            self.look(*k)

    def drop(self, pred):
        for k in [k for k in self.c if pred(k)]:
            del self.c[k]

    def each(self, f):
        for s in self.H.states:
            f(s)

    def end(self):
        self.H.end()


def digits(thorough):
    out = [((0, 0, 0, 0, 0, 0, 0, 0), (0, 1, 2, 0, 1, 2)), ((0, 1, 2, 0, 1, 2, 1, 0), (0, 0, 0, 0)),
           ((1, 1, 0, 0, 2, 2, 0, 1), (1, 0, 2, 1, 0)), ((2, 0, 1, 3, 2, 1, 0, 3), (3, 1, 0, 2, 1, 1, 3))]
    if thorough:
        import itertools
        out += [(d + d[::-1], d[::-1] + (1, 3, 0)) for d in itertools.product((0, 1, 2), repeat=4)]
    return out


def histories(ctx, F):
    P = ctx.prog
    AND, OR, NAND, QU, RP, VS, CO, SU = P.const("CAL_OP_AND", "CAL_OP_OR", "CAL_OP_NAND", "CAL_OP_QUANT", "CAL_OP_REL_PROD",
                                                "CAL_OP_VAR_SUBSTITUTE", "CAL_OP_COMPOSE", "CAL_OP_SUBST")
    probes = [(f, g, op) for f, g in (("a", "b"), ("b", "a"), ("!a", "b"), ("a", "!b"), ("!b", "!a"), ("a", "a"), ("a", "c"), ("c", "b"),
                                      ("d", "!c"))
              for op in (AND, OR, QU + 1, RP + 1)]
    for dg in digits(ctx.thorough):
        for addr in (0, 1):
            for nbins in (4, 8):
                if not ctx.mine():
                    continue
                H = lambda n: CHist(ctx, F, "%s, bins %s" % (n, dg), dg, addr, nbins)
                # operands, phases and operations
                m = H("keys")
                m.all(probes[:4])
                m.insert("a", "b", AND, "c")
                m.all(probes)
                m.insert("!a", "b", AND, "!c")
                m.insert("b", "a", OR, "d")
                m.all(probes)
                m.insert("a", "b", AND, "!d")
                m.insert("c", "b", QU + 1, "1")
                m.insert("d", "!c", RP + 1, "0")
                m.insert("a", "a", OR, "a")
                m.all(probes)
                m.H.call("CalCacheTableRehash", [m.bm()], m.counted)
                m.all(probes)
                m.insert("a", "c", AND, "e")
                m.insert("!b", "!a", AND, "!e")
                m.H.call("CalCacheTableRehash", [m.bm()], m.counted)
                m.all(probes)
                m.H.call("CalCacheTableTwoFlush", [m.cache()], m.counted)
                m.c = {}
                m.all(probes)
                m.insert("a", "b", OR, "c")
                m.all(probes[:8])
                m.H.call("CalCacheTableTwoFlushAll", [m.cache()], m.counted)
                m.c = {}
                m.all(probes[:8])
                m.mem()
                m.end()
                # discarded associations
                m = H("associations")
                pr = [(f, g, op) for f, g in (("a", "b"), ("a", "!b"), ("c", "c"), ("d", "c"))
                      for op in (QU + 1, QU + 2, RP + 1, RP + 2, VS + 1, VS + 2, AND, CO, SU)]
                for i in (1, 2):
                    ks = [("a", "b", QU + 1), ("a", "b", RP + 1), ("a", "!b", VS + 1), ("c", "c", QU + 2), ("d", "c", RP + 2),
                          ("a", "!b", QU + 2), ("a", "b", AND), ("d", "c", VS + 2), ("c", "c", CO), ("a", "!b", SU)]
                    for n, k in enumerate(ks):
                        m.insert(k[0], k[1], k[2], "!e" if n & 1 else "e")
                    for k in ks[::-1]:
                        m.insert(k[0], k[1], k[2], "d")
                        m.look(*k)
                    m.H.call("CalCacheTableTwoFlushAssociationId", [m.bm(), i], m.counted)
                    m.drop(lambda k: k[2] in (QU + i, RP + i, VS + i))
                    m.all(pr)
                m.end()
                # collected nodes
                for dead in ("a", "b", "c", "d", "ad"):
                    m = H("collected %s" % dead)
                    ks = [("a", "b", AND, "c"), ("!a", "b", OR, "!c"), ("c", "b", QU + 1, "1"), ("d", "!c", RP + 1, "0"), ("b", "b", AND, "d"),
                          ("e", "!b", OR, "a"), ("b", "e", AND, "!d"), ("e", "c", CO, "!a")]
                    for k in ks:
                        m.insert(*k)
                    m.each(lambda s: [m.W.mark(s, ("n", x), 1) for x in dead])
                    m.H.call("CalCacheTableTwoGCFlush", [m.cache()], m.counted)
                    m.each(lambda s: [m.W.mark(s, ("n", x), 0) for x in dead])
                    bad = ["('n', '%s')" % x for x in dead]
                    for k in list(m.c):
                        if any(b in repr((k, m.c[k])) for b in bad):
                            del m.c[k]
                    m.all([k[:3] for k in ks])
                    m.insert("a", "b", AND, "c")
                    m.look("a", "b", AND)
                    m.end()
                # moved nodes
                for mv in ("a", "b", "c", "abc"):
                    m = H("moved %s" % mv)
                    ks = [("a", "b", AND, "c"), ("!a", "b", OR, "!c"), ("c", "b", QU + 1, "1"), ("d", "!c", RP + 1, "0"), ("b", "b", AND, "d"),
                          ("e", "!b", OR, "a"), ("!b", "e", AND, "!d"), ("e", "c", CO, "!a")]
                    for k in ks:
                        m.insert(*k)
                    W = m.W
                    for x in mv:
                        W.leaf(x + "'", W.id[x], W.tt[x])
                        for s in m.H.states:
                            W.forward(s, ("n", x), W.h(x + "'"))
                            for k, v in W.st.mem.items():
                                if k[0] == ("n", x + "'"):
                                    s.mem[k] = v
                    m.H.call("CalCacheTableTwoRepackUpdate", [m.cache()], m.counted)
                    ren = lambda n: n + "'" if n.strip("!") in mv else n
                    old = m.c
                    m.c = {}
                    for k in ks:
                        if old.get(m.key(*k[:3])) is not None:
                            m.c[m.key(ren(k[0]), ren(k[1]), k[2])] = W.h(ren(k[3]))
                    seen = set()
                    for f, g, op, r in ks:
                        m.look(ren(f), ren(g), op)
                    m.H.call("CalCacheTableRehash", [m.bm()], m.counted)
                    for f, g, op, r in ks:
                        m.look(ren(f), ren(g), op)
                    for s in m.H.states:
                        stale(m, s, ["('n', '%s')" % x for x in mv])
                    m.end()
                # results stored before they are resolved
                for want in ("c", "!c", "1", "!d"):
                    m = H("unresolved %s" % want)
                    W = m.W
                    rq = W.request("r", W.h("a"), W.h("b"))
                    rq2 = W.request("r2", W.h("a"), W.h("d"))
                    m.insert("a", "b", AND, "d")
                    m.insert("a", "b", AND, (2, rq), 1)
                    m.insert("!c", "!d", OR, (2, notp((2, rq2))[1]), 1)
                    m.insert("c", "a", AND, "!b")
                    m.insert("e", "!b", OR, (2, notp((2, rq))[1]), 1)
                    m.all(probes[:8])
                    m.look("!c", "!d", OR)
                    for s in m.H.states:
                        for k, v in W.st.mem.items():
                            if k not in s.mem and k[0][0] == "rqn":
                                s.mem[k] = v
                        W.forward(s, rq[1], W.h(want))
                        W.forward(s, rq2[1], W.h("!e"))
                    m.H.call("CalCacheTableTwoFixResultPointers", [m.bm()], m.counted)
                    m.c = {k: (W.h(want) if v == (2, rq) else notp(W.h(want)) if v == (2, notp((2, rq))[1]) else
                               notp(W.h("!e")) if v[1][1] == rq2[1] else v) for k, v in m.c.items()}
                    ks = probes[:8] + [("!c", "!d", OR), ("e", "!b", OR), ("c", "a", AND)]
                    m.all(ks)
                    m.H.call("CalCacheTableTwoFixResultPointers", [m.bm()], m.counted)
                    m.all(ks)
                    m.H.call("CalCacheTableRehash", [m.bm()], m.counted)
                    m.all(ks)
                    for s in m.H.states:
                        stale(m, s, ["rqn"])
                    m.end()


def stale(m, s, pats):
    for (o, off), (v, z) in s.mem.items():
        if o == BINS or (isinstance(o, tuple) and o in s.objs and o not in s.d.get("gone", ())):
            if any(p in repr(v) for p in pats) and isinstance(v, tuple):
                m.F.add("cache", "CalCacheTableTwoRepackUpdate", "%s: the cache still refers to a node that has moved" % m.H.where,
                        loc(m.W.p.fn("CalCacheTableTwoRepackUpdate")))
                return


def cmem(self):
    W = self.W
    from api import Leak
    for s in self.H.states:
        cur = s.mem[(("cache",), W.p.off("CalCacheTableStruct", "bins"))][0]
        gone = s.d.get("gone", ())
        try:
            if cur[1] in gone:
                raise Leak("the entries in use are released")
            for o, inf in s.objs.items():
                if inf[0] == "alloc" and o not in gone and o != cur[1]:
                    raise Leak("entries allocated at %s are not released after growth" % inf[1])
        except Malformed as e:
            self.F.add(e.tag, "CalCacheTableRehash", "%s, %s: %s" % (self.H.where, self.H.steps(), e), loc(W.p.fn("CalCacheTableRehash")))


CHist.mem = cmem


def lifetime(ctx, F):
    """a new cache is empty; closing it releases it"""
    P = ctx.prog
    AND, OR = P.const("CAL_OP_AND", "CAL_OP_OR")
    if not ctx.mine():
        return
    m = CHist(ctx, F, "new cache", ((0, 1, 2, 3),), 0)
    W = m.W
    fn = P.fn("CalCacheTableTwoInit")
    out = []

    def check(s):
        v = s.retval
        if not (isinstance(v, tuple) and v[0] == "p" and v[2] == 0):
            raise Tab("no cache is made")
        W.put_st(s, W.M, P.off("Cal_BddManagerStruct", "cacheTable"), v, 8)
        out.append(v)
        for f in ("numEntries", "numBins", "cacheRatio", "sizeIndex"):
            o, z = P.fields["CalCacheTableStruct"][f]
            c = s.mem.get((v[1], o), (None,))[0]
            if not isinstance(c, int):
                raise Tab("the field %s of a new cache is not initialised" % f)
            if f == "numEntries" and c:
                raise Tab("a new cache counts %d entries" % c)
    m.H.call("CalCacheTableTwoInit", [m.bm()], check)
    probes = [(f, g, op) for f, g in (("a", "b"), ("b", "c"), ("1", "1")) for op in (AND, OR)]
    m.all(probes)
    m.insert2 = m.H.call("CalCacheTableTwoInsert", [m.bm(), W.h("a"), W.h("b"), W.h("c"), AND, 0])
    m.c[m.key("a", "b", AND)] = W.h("c")
    m.all(probes)
    if out:
        m.H.call("CalCacheTableTwoQuit", [out[0]])
        for s in m.H.states:
            for o, inf in s.objs.items():
                if inf[0] == "alloc" and o not in s.d.get("gone", ()) and inf[1] != "the caller":
                    F.add("leak", "CalCacheTableTwoQuit", "memory allocated at %s is not released when the cache is closed" % inf[1],
                          loc(P.fn("CalCacheTableTwoQuit")))
        m.H.call("CalCacheTableTwoQuit", [0])
    m.H.end()
