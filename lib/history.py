"""Histories of whole managers: variables come, functions come and go, collections, repacking and reorderings in between."""
from collect import story, scatter, lower, quiet_thresholds, settled, ALL
from mgr import View, compare, reachable, quiet, neg, hexes, Malformed, Order, Val, Ref, Move, Bad, Cover, atom, i32, Leak
from reorder import SIFT, WINDOW, BF, DF


class Dice:
    def __init__(self, seed):
        self.x = seed * 2654435761 % (1 << 32) or 1
        for _ in range(4):
            self.roll(2)

    def roll(self, n):
        self.x = (self.x * 1103515245 + 12345) % (1 << 31)
        return (self.x >> 12) % n

    def pick(self, l):
        l = list(l)
        return l[self.roll(len(l))] if l else None


class Assoc(Malformed):
    tag = "assoc"


class Kept(Malformed):
    tag = "kept"


class Run:
    def __init__(self, ctx, m, seed, maxvars=6, meths=(BF, DF)):
        self.ctx, self.m, self.d, self.maxvars, self.meths = ctx, m, Dice(seed), maxvars, meths
        self.k = 0
        self.given_ = None
        self.v = View(m)
        self.done = []

    # ---- truth tables over the variables by identifier
    def var(self, i):
        return atom(i - 1, self.v.n)

    def full(self):
        return (1 << (1 << self.v.n)) - 1

    def random(self, deep=4):
        d, n = self.d, self.v.n
        t = self.var(1 + d.roll(n))
        for _ in range(1 + d.roll(deep)):
            u = self.var(1 + d.roll(n))
            if d.roll(2):
                u ^= self.full()
            t = [t & u, t | u, t ^ u, self.full() ^ (t & u)][d.roll(4)]
            if d.roll(3) == 0 and n > 2:
                w = self.var(1 + d.roll(n))
                t = (w & t) | (self.full() & ~w & (t ^ u if d.roll(2) else u))
        return t

    def make(self, t):
        """the diagram of a truth table in the current order"""
        ids = self.v.ids
        n = self.v.n

        def rec(t, k):
            if t == 0 or t == self.full():
                return self.m.one() if t else neg(self.m.one())
            i = ids[k]
            a = self.var(i)
            sh = 1 << (i - 1)
            hi = (t & a) | ((t & a) >> sh)
            lo = (t & ~a & self.full()) | ((t & ~a & self.full()) << sh)
            if hi == lo:
                return rec(t, k + 1)
            return node(i, hi, lo, k)

        def node(i, hi, lo, k):
            return self.m.mk(i, rec(hi, k + 1), rec(lo, k + 1))
        return rec(t, 0)

    def names(self, p="f"):
        return [x for x in self.m.users if x[0] in p]

    # ---- steps; each returns the expected next view's check
    def after(self, what, **kw):
        a = self.v
        b = View(self.m)
        if b.n == a.n:
            compare(self.m, a, b, **kw)
        settled(b)
        self.v = b
        self.ctx.ob(what)
        self.done.append(what)
        return a, b

    def s_build(self):
        t = self.random()
        self.k += 1
        u = self.m.user("f%d" % self.k, self.make(t))
        b = View(self.m)
        settled(b)
        if self.uvalue(b, u) != t:
            raise Val("a diagram built bottom up denotes another function")
        self.v = b
        return True

    def uvalue(self, v, u):
        nd = (u[1], u[2] & ~1)
        t = v.full if nd == self.m.node(self.m.mf("userOneBdd")) else v.uval[nd][0]
        return t ^ v.full if u[2] & 1 else t

    def s_free(self):
        x = self.d.pick(self.names())
        if x is None:
            return False
        self.m.call("Cal_BddFree", self.m.bm, self.m.users.pop(x)[0])
        self.v = View(self.m)
        settled(self.v)
        return True

    def s_gc(self):
        self.m.call("Cal_BddManagerGC", self.m.bm)
        self.after("collection", gc=True)
        return True

    def s_grow(self):
        """a table that held many more nodes once"""
        m = self.m
        id = self.d.pick(list(range(1, self.v.n + 1)))
        t = ("p", m.arr(m.mf("uniqueTable"), id, 8)[1], 0)
        if i32(m.f(t[1], "CalHashTableStruct", "sizeIndex")) < 10:
            m.call("CalHashTableRehash", t, 1)
        self.v = View(m)
        settled(self.v)
        return True

    def s_repack(self):
        m = self.m
        quiet_thresholds(m)
        m.setm("reorderTechnique", 0)
        lower(m)
        self.v = View(m)
        m.call("CalBddPostProcessing", m.bm)
        self.after("repacking", gc=True)
        return self.s_scatter()

    def s_scatter(self):
        """the next nodes will lie on several pages"""
        if not self.m.realpages:
            for id in range(1, self.v.n + 1):
                if self.d.roll(2):
                    self.scatter(id)
            self.v = View(self.m)
        return True

    def scatter(self, id):
        """later nodes of the variable come from several pages"""
        d = self.d
        m = self.m
        X = "CalNodeManagerStruct"
        nm = m.arr(m.mf("nodeManagerArray"), id, 8)[1]
        if i32(m.f(nm, X, "numPages")) >= 4 or i32(m.f(nm, X, "maxNumPages")) < 7:
            return
        scatter(m, id, 4 + d.roll(3), [(d.roll(4), d.roll(128)) for _ in range(10)][:3 + d.roll(8)])

    def s_reorder(self):
        m, d = self.m, self.d
        tech, meth = (SIFT, WINDOW)[d.roll(2)], d.pick(self.meths)
        m.call("Cal_BddDynamicReordering", m.bm, tech, meth)
        if d.roll(3) == 0:
            m.setm("maxForwardedNodes", d.roll(4))
        m.call("Cal_BddReorder", m.bm)
        a, b = self.after("reordering")
        if meth == DF:
            self.blockcheck(a, b)
        return True

    def s_tight(self):
        """reordering, breadth first, with repacking at once or almost"""
        m, d = self.m, self.d
        m.setm("maxForwardedNodes", (0, 0, 1, 3)[d.roll(4)])
        m.call("Cal_BddDynamicReordering", m.bm, (SIFT, WINDOW)[d.roll(2)], BF)
        m.call("Cal_BddReorder", m.bm)
        self.after("reordering")
        return True

    def blockcheck(self, a, b):
        """blocks keep their variables; the parts of a fixed block keep their order"""
        def flat(v, t, d, out):
            p, lo, hi, r, ch = t
            out[p] = (tuple(v.ids[lo:hi + 1]) if d else tuple(v.ids), r, tuple(c[0] for c in ch))
            for c in ch:
                flat(v, c, d + 1, out)
            return out
        x, y = flat(a, a.blk, 0, {}), flat(b, b.blk, 0, {})
        if x.keys() != y.keys():
            raise Order("variable blocks appear or disappear in a reordering")
        for p, (ids, r, ch) in x.items():
            ids2, r2, ch2 = y[p]
            if set(ids) != set(ids2):
                raise Order("the block of the variables %s contains %s after a reordering" % (ids, ids2))
            if r != r2 or set(ch) != set(ch2):
                raise Order("a variable block changes in a reordering")
            if not r and ch != ch2:
                raise Order("the parts of a block that may not be reordered change places")
            if not ch and p != a.blk[0] and ids != ids2:
                raise Order("the variables %s of a block are %s after a reordering" % (ids, ids2))

    def s_block(self):
        """group neighbouring blocks"""
        m, d = self.m, self.d
        all = []

        def walk(t):
            if len(t[4]) > 1:
                all.append(t)
            for c in t[4]:
                walk(c)
        walk(self.v.blk)
        t = d.pick(all)
        if t is None:
            return False
        ch = t[4]
        i = d.roll(len(ch) - 1)
        j = i + 1 + d.roll(len(ch) - 1 - i)
        lo, hi = ch[i][1], ch[j][2]
        v = m.users.get("v%d" % self.v.ids[lo])
        if v is None:
            return False
        p = m.call("Cal_BddNewVarBlock", m.bm, v[0], hi - lo + 1)
        m.call("Cal_BddVarBlockReorderable", m.bm, p, d.roll(2))
        a, b = self.after("block")
        found = []

        def look(t):
            if (t[1], t[2]) == (lo, hi) and t[0] == p[1]:
                found.append(t)
            for c in t[4]:
                look(c)
        look(b.blk)
        if not found:
            raise Order("a new variable block does not cover the variables asked for")
        return True

    def s_heavy(self):
        """a node many others refer to"""
        m, d = self.m, self.d
        l = [nd for nd in self.v.where if self.v.where[nd] and self.v.ref[nd] < 20 and self.v.val(nd) not in self.v.extra]
        if not l or len(m.phantom) > 6:
            return False
        nd = d.pick(sorted(l, key=repr))
        # the user holds it, as well, for good: what nobody holds need not be looked at
        self.k += 1
        m.user("p%d" % self.k, (self.v.where[nd], ("p", nd[0], nd[1])))
        r = m.refcount(nd)
        k = d.pick((13, 14, 15, 16, 17, 30, 62, 78, 110, 125, 126, 127, 128, 200, 240, 250, 252, 253, 254))
        k = min(k, 254 - r)
        if k not in m.phantom:
            m.setref(nd, r + k)
            m.phantom.append(k)
        self.v = View(m)
        settled(self.v)
        return True

    def s_hold(self):
        """a diagram the user holds many times over"""
        m, d = self.m, self.d
        l = [x for x in m.users if x[0] in "fr"]
        if not l:
            return False
        u = m.users[d.pick(l)][0]
        nd = (u[1], u[2] & ~1)
        if nd not in self.v.uval or self.v.uval[nd][1] > 20:
            return False
        k = d.pick((13, 14, 15, 16, 17, 31, 126, 128, 253, 254, 255, 256))
        m.setref(nd, max(1, min(254, self.v.uval[nd][1] + k - 2)))
        r = m.refcount(nd)
        for i in range(4):
            m.call("Cal_BddUnFree", m.bm, u)
            r = min(255, r + 1)
            if m.refcount(nd) != r:
                raise Ref("a user diagram has %d references after Cal_BddUnFree made them %d" % (m.refcount(nd), r))
        n = len([1 for x, _ in m.users.values() if (x[1], x[2] & ~1) == nd])
        for i in range(r - n):
            self.k += 1
            m.users["h%d" % self.k] = (u, None)
        self.v = View(m)
        settled(self.v)
        return True

    def s_drop(self):
        """the user lets go of most of what he holds many times over"""
        m, d = self.m, self.d
        l = {}
        for x, (u, _) in m.users.items():
            if x[0] == "h":
                l.setdefault(u, []).append(x)
        if not l:
            return False
        u = d.pick(sorted(l, key=repr))
        nd = (u[1], u[2] & ~1)
        r = m.refcount(nd)
        for x in l[u]:
            m.call("Cal_BddFree", m.bm, u)
            del m.users[x]
            if r != 255:
                r -= 1
            if m.refcount(nd) != r:
                raise Ref("a user diagram has %d references after Cal_BddFree made them %d" % (m.refcount(nd), r))
        self.v = View(m)
        settled(self.v)
        return True

    def s_var(self):
        m, d = self.m, self.d
        if self.v.n >= self.maxvars:
            return False
        a = self.v
        how = d.pick(("First", "Last", "Before", "After"))
        ref = None
        if how in ("Before", "After"):
            ref = d.pick([x for x in m.users if x[0] in "vf"])
        pos = {"First": 0, "Last": a.n}.get(how)
        if ref:
            u = m.users[ref][0]
            h = m.internal(u)
            top = a.index[h[0]] if h[0] else None
            pos = a.n if top is None else top + (how == "After")
        want = a.ids[:pos] + [a.n + 1] + a.ids[pos:]
        id = m.newvar(how, ref, "v%d" % (a.n + 1))
        b = View(m)
        settled(b)
        if b.n != a.n + 1 or b.ids != want:
            raise Order("a variable created %s leads to the order %s instead of %s" % (how, b.ids, want))
        w = lambda t: t | t << (1 << a.n)
        for nd, (t, r) in a.uval.items():
            if nd not in b.uval or b.uval[nd] != (w(t), r):
                raise Val("a user diagram changes when a variable is created")
        new = m.users["v%d" % (a.n + 1)][0]
        if self.uvalue(b, new) != atom(a.n, b.n):
            raise Val("the new variable's diagram is another function")
        if {k: {i: w(t) for i, t in x.items()} for k, x in a.assoc.items()} != b.assoc:
            raise Move("a variable association changes when a variable is created")
        if b.numnodes != a.numnodes + 1:
            raise Bad("the node count is off after a variable was created")
        self.v = b
        self.ctx.ob("new variable")
        return True

    def pairs(self):
        """variables (and functions) for an association: sometimes none, sometimes a variable twice"""
        d = self.d
        l, given = [], {}
        vs = [i for i in range(1, self.v.n + 1)]
        full = d.roll(3) > 0
        for k in range(1 + d.roll(3) if d.roll(16) else 0):
            i = d.pick(vs) if k == 0 or d.roll(5) else d.pick(sorted(given))
            f = d.pick(self.names("fv")) if full else None
            l += [self.m.users["v%d" % i][0]] + ([self.m.users[f][0]] if full else [])
            given[i] = self.uvalue(self.v, self.m.users[f][0]) if full else self.full()
        return self.m.userarray(l), int(full), given

    # what every association must be, from what the calls were given
    def given(self):
        if self.given_ is None:
            self.given_ = {k: dict(x) for k, x in self.v.assoc.items()}
            self.uses = {k[1]: 1 for k in self.given_ if k[0] is None}
            self.force = self.inforce()
            self.wide = self.v.n
        self.widen()
        return self.given_

    def widen(self):
        while self.wide < self.v.n:
            n = self.wide
            self.given_ = {k: {i: t | t << (1 << n) for i, t in x.items()} for k, x in self.given_.items()}
            self.wide += 1

    def temporary(self):
        return [k for k in self.v.assoc if k[0] == "temp"][0]

    def inforce(self):
        m = self.m
        p = m.mf("currentAssociation")
        if p[1] in m.s.d["gone"]:
            raise Assoc("the association in force is released")
        t = m.mf("tempAssociation")
        return ("temp" if p[1] == t[1] else None, i32(m.f(p[1], "CalAssociationStruct", "id")))

    def associations(self):
        if self.given_ is None:
            return
        g = self.given()
        if g != self.v.assoc:
            for k in g:
                if k not in self.v.assoc:
                    raise Assoc("association %d is gone although it is in use" % k[1])
                if g[k] != self.v.assoc[k]:
                    raise Assoc("association %d maps %s instead of %s" % (k[1], hexes(self.v.assoc[k]), hexes(g[k])))
            raise Kept("an association nobody uses any more is kept")
        if self.inforce() != self.force:
            raise Assoc("association %s is in force instead of %s" % (self.inforce(), self.force))
        self.ctx.ob("association", sum(len(x) for x in g.values()))

    def s_assoc(self):
        g = self.given()
        if self.d.roll(4) or not self.uses:
            arr, full, want = self.pairs()
        else:
            # once more what is there already
            id = self.d.pick(sorted(self.uses))
            l, want = [], {}
            for i, t in g[(None, id)].items():
                f = [x for x in self.names("fv") if self.uvalue(self.v, self.m.users[x][0]) == t]
                if f:
                    l += [self.m.users["v%d" % i][0], self.m.users[f[0]][0]]
                    want[i] = t
            arr, full = self.m.userarray(l), 1
        r = i32(self.m.call("Cal_AssociationInit", self.m.bm, arr, full))
        same = [k[1] for k, x in g.items() if k[0] is None and x == want]
        if same and r not in same:
            raise Assoc("an association equal to %d gets the identifier %s" % (same[0], r))
        if not same and (r in self.uses or not isinstance(r, int) or r < 0):
            raise Assoc("a new association gets the identifier %s" % r)
        self.uses[r] = self.uses.get(r, 0) + 1
        g[(None, r)] = want
        self.v = View(self.m)
        self.associations()
        settled(self.v)
        return True

    def unknown(self):
        return 7 + max(self.uses, default=0)

    def s_setassoc(self, id=None):
        m = self.m
        self.given()
        ids = sorted(self.uses) + [-1]
        if id is None:
            id = self.d.pick(ids) if self.d.roll(12) else self.unknown()
        m.warnok = id == self.unknown()
        r = i32(m.call("Cal_AssociationSetCurrent", m.bm, id & 0xFFFFFFFF))
        m.warnok = False
        if r != self.force[1]:
            raise Assoc("Cal_AssociationSetCurrent returns %s but %d was in force" % (r, self.force[1]))
        self.force = (None, id) if id in self.uses else self.temporary()
        self.v = View(m)
        self.associations()

    def s_assocquit(self):
        m = self.m
        g = self.given()
        ids = sorted(self.uses)
        if not ids and self.d.roll(4):
            return False
        id = self.d.pick(ids) if ids and self.d.roll(12) else self.unknown()
        m.warnok = id == self.unknown()
        m.call("Cal_AssociationQuit", m.bm, id)
        m.warnok = False
        if id in self.uses:
            self.uses[id] -= 1
            if not self.uses[id]:
                del self.uses[id], g[(None, id)]
            if self.force == (None, id):
                self.force = self.temporary()
        self.v = View(m)
        self.associations()
        settled(self.v)
        return True

    def s_temp(self):
        m = self.m
        g = self.given()
        r = self.d.roll(3)
        t = self.temporary()
        if r == 0:
            m.call("Cal_TempAssociationQuit", m.bm)
            g[t] = {}
        else:
            arr, full, want = self.pairs()
            m.call("Cal_TempAssociationInit" if r == 1 else "Cal_TempAssociationAugment", m.bm, arr, full)
            g[t] = dict(g[t] if r == 2 else {}) | want
        self.v = View(m)
        self.associations()
        settled(self.v)
        return True

    def s_cache(self):
        m, d = self.m, self.d
        u = [m.internal(m.users[x][0]) for x in self.names("fv")]
        for _ in range(2):
            a, b, r = d.pick(u), d.pick(u), d.pick(u)
            m.call("CalCacheTableTwoInsert", m.bm, a, b, r, d.pick((0x1000, 0x2000, 0x3000, 0x4001)), 0)
        self.v = View(m)
        return True

    def go(self, steps):
        for s in steps:
            getattr(self, "s_" + s)()
            self.associations()


MIX = ["block", "build", "build", "free", "gc", "repack", "reorder", "var", "assoc", "assocquit", "temp", "cache", "reorder", "build", "var"]


def mixed(ctx, F, n=48, length=14, steps=MIX, rule="history", seed0=1, maxvars=6, start=3, close=True, meths=(BF, DF), realpages=False):
    for k in range(ctx.many(n)):
        if not ctx.mine():
            continue

        def f(m):
            for i in range(start):
                m.newvar(name="v%d" % (i + 1))
            r = Run(ctx, m, seed0 + k, maxvars, meths)
            r.go((["scatter"] if "repack" in steps else []) + ["build", "build"])
            for _ in range(length):
                r.go([r.d.pick(steps)])
            reachable(m)
            if close:
                quiet(m)
        rp = DF in meths and ("reorder" in steps) if realpages is None else realpages
        story(ctx, F, rule, "history %d" % (seed0 + k), f, addr=k & 1, realpages=rp)


def widen(n, shape):
    return (lambda t: t) if shape else (lambda t: t | t << (1 << n))


def growth(ctx, F, upto=(33, 62), rule="many variables"):
    """variables beyond the initial capacity of the tables, with associations and functions in place"""
    for k, hows in enumerate((("Last",), ("First",), ("Before", "After", "Last"), ("First", "Last", "After"))):
        if not ctx.mine():
            continue

        def f(m):
            for i in range(3):
                m.newvar(name="v%d" % (i + 1))
            u = m.users
            m.user("f1", m.build(0b01101010, [1, 2, 3]))
            m.user("f2", m.build(0b11100100, [1, 2, 3]))
            l = m.userarray([u["v1"][0], u["f1"][0], u["v3"][0], u["f2"][0]])
            m.call("Cal_AssociationInit", m.bm, l, 1)
            m.call("Cal_AssociationInit", m.bm, m.userarray([u["v2"][0]]), 0)
            m.call("Cal_TempAssociationInit", m.bm, m.userarray([u["v2"][0], u["f2"][0]]), 1)
            a = None
            want = [1, 2, 3]
            n = 3
            last = max(upto) if ctx.thorough else min(upto)
            cap = i32(m.mf("maxNumVars"))
            while n < last:
                how = hows[n % len(hows)]
                ref = "v%d" % (1 + (n * 7) % n) if how in ("Before", "After") else None
                if ref:
                    at = want.index(int(ref[1:])) + (how == "After")
                else:
                    at = 0 if how == "First" else n
                m.newvar(how, ref, "v%d" % (n + 1))
                n += 1
                want.insert(at, n)
                if n < 6 or n >= cap - 1 or n == last:
                    b = View(m, lookups=False)
                    settled(b)
                    if b.ids != want:
                        raise Order("variables created %s lead to the order %s instead of %s" % (how, b.ids[:8], want[:8]))
                    if a is not None and a.shape == b.shape:
                        w = widen(a.n, a.shape) if a.n != b.n else (lambda t: t)
                        if a.n + 1 == b.n or a.shape:
                            for nd, (t, r) in a.uval.items():
                                if b.uval.get(nd) != (w(t), r):
                                    raise Val("a user diagram changes when a variable is created")
                            if {x: {i: w(t) for i, t in y.items()} for x, y in a.assoc.items()} != b.assoc:
                                raise Move("a variable association changes when a variable is created")
                    a = b
                    ctx.ob(rule)
            # everything that visits all variables
            h = m.build(0b0110100110010110, [want[0], want[n // 2], want[n - 2], want[n - 1]])
            m.user("g", h)
            a = View(m)
            m.call("Cal_BddManagerGC", m.bm)
            b = View(m)
            compare(m, a, b, gc=True)
            m.call("Cal_BddManagerGetVarWithIndex", m.bm, n - 1)
            m.call("Cal_BddManagerGetVarWithId", m.bm, n)
            for x, i in list(u.items()):
                if x[0] == "v" and int(x[1:]) % 5 == 0:
                    m.call("Cal_BddFree", m.bm, i[0])
            m.call("Cal_TempAssociationQuit", m.bm)
            m.call("Cal_AssociationQuit", m.bm, 0)
            reachable(m)
            ctx.ob(rule)
            quiet(m)
        story(ctx, F, rule, "many variables (%s)" % ", ".join(hows), f, addr=k & 1)
