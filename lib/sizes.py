"""Sizes of diagrams across reorderings of whole managers."""
from collect import story, settled, quiet_thresholds
from history import Dice, Run, BF, DF, SIFT, WINDOW
from mgr import View, Malformed, compare


class Size(Malformed):
    tag = "size"


class Sizes(Run):
    """functions whose size depends on the order; reorderings under all settings"""

    techs = (SIFT, WINDOW)

    def s_sums(self):
        """products of variables far apart, summed"""
        d, n = self.d, self.v.n
        ids = list(self.v.ids)
        half = len(ids) // 2
        t = 0
        for k in range(half):
            p = self.var(ids[k]) & self.var(ids[k + half])
            t = t ^ p if d.roll(4) == 0 else t | p
        self.k += 1
        self.m.user("f%d" % self.k, self.make(t))
        self.v = View(self.m)
        return True

    def s_shuffle(self):
        """pairs of variables at random places of the order"""
        d = self.d
        ids = list(self.v.ids)
        t = 0
        while len(ids) > 1:
            p = self.var(ids.pop(d.roll(len(ids)))) & self.var(ids.pop(d.roll(len(ids))))
            t = t ^ p if d.roll(4) == 0 else t | p
        self.k += 1
        self.m.user("f%d" % self.k, self.make(t))
        self.v = View(self.m)
        return True

    def s_chain(self):
        """a condition over a few variables anywhere in the order"""
        d = self.d
        t = self.random(8)
        self.k += 1
        self.m.user("f%d" % self.k, self.make(t))
        self.v = View(self.m)
        return True

    def s_reorder(self):
        m, d = self.m, self.d
        tech, meth = d.pick(self.techs), d.pick(self.meths)
        m.call("Cal_BddManagerGC", m.bm)
        a = View(m)
        was = {f: m.mf(f) for f in ("maxForwardedNodes", "maxNumVarsSiftedPerReordering", "maxNumSwapsPerReordering", "maxSiftingGrowth")}
        m.setm("maxForwardedNodes", d.pick((0, 1, 2, 3, 5, 8, 100)))
        if d.roll(3) == 0:
            m.setm("maxNumVarsSiftedPerReordering", d.roll(6))
        if d.roll(3) == 0:
            m.setm("maxNumSwapsPerReordering", d.roll(12))
        if d.roll(2) == 0:
            m.setm("maxSiftingGrowth", ("f", (1.0, 1.05, 1.2, 1.5)[d.roll(4)]))
        m.call("Cal_BddDynamicReordering", m.bm, tech, meth)
        m.call("Cal_BddReorder", m.bm)
        for f, x in was.items():
            m.setm(f, x)
        m.call("Cal_BddManagerGC", m.bm)
        b = View(m)
        if len(b.te) > len(a.te):
            raise Size("%s reordering by %s turns %d nodes into %d (order %s, %s before)" % (
                ("breadth-first", "depth-first")[meth], ("", "sifting", "windows")[tech], len(a.te), len(b.te), b.ids, a.ids))
        self.v = b
        self.ctx.ob("sizes")
        return True


STEPS = ["build", "chain", "chain", "sums", "sums", "free", "free", "reorder", "reorder", "reorder", "var", "block"]


def sizes(ctx, F, n=48, length=16, seed0=1, start=6, maxvars=8, meths=(BF, DF), steps=STEPS, realpages=True, rule="sizes", techs=(SIFT, WINDOW)):
    for k in range(n):
        if not ctx.mine():
            continue

        def f(m):
            for i in range(start):
                m.newvar(name="v%d" % (i + 1))
            r = Sizes(ctx, m, seed0 + k, maxvars, meths)
            r.techs = techs
            r.go(["sums", "chain"])
            for _ in range(length):
                r.go([r.d.pick(steps)])
        story(ctx, F, rule, "sizes %d" % (seed0 + k), f, addr=k & 1, realpages=realpages)


# ---- the search itself, for diagrams of any size
EXCHANGES = ("BddReorderSwapVarIndex", "BddExchange")


class Landscape:
    """the number of nodes as an arbitrary function of the order: exchanging neighbours is a contract (C15)"""

    def __init__(self, m, d, kind):
        self.m, self.d, self.kind = m, d, kind
        self.size = {}
        self.swaps = 0
        self.n = m.mf("numVars")
        self.base = 4 + d.roll(12)
        self.w = {}

    def map(self, name):
        a = self.m.mf(name)
        return a[1], a[2]

    def order(self):
        o, k = self.map("indexToId")
        return tuple(self.m.rd(o, k + 2 * i, 2) for i in range(self.n))

    def at(self, o):
        if o not in self.size:
            d, b = self.d, self.base
            if self.kind == 0:
                x = b + d.roll(b)
            elif self.kind == 1:
                x = b + d.roll(3)
            elif self.kind == 2:
                x = 1 + d.roll(3 * b)
            elif self.kind > 3:
                # hardly any order is better
                x = b - 1 if self.size and d.roll(10) == 0 else b + (1 + d.roll(b // 4) if self.size else 0)
            else:
                # every pair of neighbours has a cost
                x = b
                for p in zip(o, o[1:]):
                    if p not in self.w:
                        self.w[p] = d.roll(4)
                    x += self.w[p]
            self.size[o] = x
        return self.size[o]

    def put(self):
        self.m.setm("numNodes", self.at(self.order()))

    def exchange(self, i):
        m = self.m
        o = self.order()
        if not 0 <= i < self.n - 1:
            raise Size("the variable at position %d of %d is exchanged with its successor" % (i, self.n))
        a, b = o[i], o[i + 1]
        for name, k, v in (("indexToId", i, b), ("indexToId", i + 1, a), ("idToIndex", a, i + 1), ("idToIndex", b, i)):
            x, off = self.map(name)
            m.s.mem[(x, off + 2 * k)] = (v, 2)
        m.setm("numSwaps", m.mf("numSwaps") + 1)
        m.setm("numForwardedNodes", self.d.roll(3))
        self.put()
        self.swaps += 1

    def byindex(self, ai, st, a):
        s, self.m.s = self.m.s, st
        try:
            self.exchange(a[1] if a[1] < 1 << 31 else a[1] - (1 << 32))
        finally:
            self.m.s = s

    def byid(self, ai, st, a):
        s, self.m.s = self.m.s, st
        try:
            o = self.order()
            self.exchange(o.index(a[1]) if a[1] in o else -1)
        finally:
            self.m.s = s


def search(ctx, F, n=60, seed0=1, techs=(SIFT, WINDOW), flat=False, rounds=16, rule="search"):
    P = ctx.prog
    if any(len(P.byname.get(x, [])) != 1 for x in EXCHANGES):
        ctx.assumptions.append("the exchange of neighbours has another name: the search is analysed on whole managers only")
        return
    for k in range(n):
        for meth in (BF, DF):
            for tech in techs:
                if not ctx.mine():
                    continue

                def f(m):
                    d = Dice(seed0 + k)
                    nv = 5 + d.roll(5) if flat else 2 + d.roll(8)
                    for i in range(nv):
                        m.newvar(name="v%d" % (i + 1))
                    if meth == DF and nv > 3 and d.roll(2):
                        i = 1 + d.roll(nv - 1)
                        m.call("Cal_BddNewVarBlock", m.bm, m.users["v%d" % i][0], 1 + d.roll(nv - i + 1))
                    for _ in range(rounds):
                        L = Landscape(m, d, 4 if flat else d.roll(8))
                        for i in range(1, nv + 1):
                            t = m.table(i)
                            m.s.mem[(t, m.H["numEntries"][0])] = (d.pick((1, 2, 2, 3, 4, 5, 5, 9)), m.H["numEntries"][1])
                        m.setm("maxForwardedNodes", d.pick((0, 1, 100)))
                        m.setm("maxNumVarsSiftedPerReordering", 0 if flat else d.pick((0, 0, 0, 1, 2, 1000)))
                        m.setm("maxSiftingGrowth", ("f", d.pick((1.0, 1.2, 1.5, 2.0, 3.0))))
                        L.put()
                        a = L.at(L.order())
                        was = L.order()
                        m.ai.models[EXCHANGES[0]] = L.byindex
                        m.ai.models[EXCHANGES[1]] = L.byid
                        m.call("Cal_BddDynamicReordering", m.bm, tech, meth)
                        m.call("Cal_BddReorder", m.bm)
                        b = L.at(L.order())
                        if b > a:
                            raise Size("%s reordering by %s goes from order %s of size %d to order %s of size %d, where the sizes on the way were %s" % (
                                ("breadth-first", "depth-first")[meth], ("", "sifting", "windows")[tech], was, a, L.order(), b, list(L.size.values())))
                        ctx.ob("search")
                        ctx.ob("exchanges", n=L.swaps)
                        ctx.ob("orders", n=len(L.size))
                story(ctx, F, rule, "search %d (%s, %s)" % (seed0 + k, ("breadth first", "depth first")[meth], ("", "sifting", "windows")[tech]), f, realpages=(meth == DF))
