"""Public operations on whole managers, in any order and mixed with collections, repacking, reordering and new variables."""
from collect import story, ALL, settled, quiet_thresholds, lower
from history import Run, MIX, Dice
from mgr import View, compare, reachable, quiet, neg, Val, Ref, Bad, CacheBad, Order, Leak, Malformed, atom, i32
from reorder import SIFT, WINDOW, BF, DF
from pipes import arm, disarm


class Over(Malformed):
    tag = "over"


class Own(Ref):
    tag = "own"


def restrict(t, i, b, full):
    """cofactor with respect to variable i"""
    n = full.bit_length().bit_length() - 1
    a = atom(i - 1, n)
    sh = 1 << (i - 1)
    if b:
        h = t & a
        return h | h >> sh
    h = t & ~a & full
    return h | h << sh


def exists(t, vs, full):
    for i in vs:
        t = restrict(t, i, 0, full) | restrict(t, i, 1, full)
    return t


def ite(f, g, h, full):
    return f & g | full & ~f & h


def subst(t, m, full):
    """simultaneous substitution"""
    vs = sorted(m)
    out = 0
    for k in range(1 << len(vs)):
        c, s = full, t
        for j, i in enumerate(vs):
            b = k >> j & 1
            c &= m[i] if b else full & ~m[i]
            s = restrict(s, i, b, full)
        out |= c & s
    return out


def depends(t, i, full):
    return restrict(t, i, 0, full) != restrict(t, i, 1, full)


def cube(t, n, full):
    """the variables of a product of literals, or None"""
    r, vs = full, []
    for i in range(1, n + 1):
        lo, hi = restrict(t, i, 0, full), restrict(t, i, 1, full)
        if lo == hi:
            continue
        if lo and hi:
            return None
        vs.append(i)
        a = atom(i - 1, n)
        r &= a if hi else full & ~a
    return vs if r == t else None


TWO = {
    "And": lambda a, b, F: a & b, "Or": lambda a, b, F: a | b, "Nand": lambda a, b, F: F & ~(a & b), "Nor": lambda a, b, F: F & ~(a | b),
    "Xor": lambda a, b, F: a ^ b, "Xnor": lambda a, b, F: F ^ a ^ b}
LOGIC = list(TWO) * 2 + ["ITE", "ITE", "ITE", "Not", "Identity"]
MULTI = ["Multiway", "Pairwise"]
QUANT = ["Exists", "ForAll", "RelProd", "RelProd"]
SUBST = ["Substitute", "VarSubstitute", "Compose", "SwapVars"]
WITNESS = ["Intersects", "Implies", "Cofactor", "Reduce", "Between", "Satisfy", "SatisfySupport"]
ASK = ["If", "Then", "Else", "DependsOn", "IsCube", "Support", "Equal", "Fraction", "Var"]
EVERY = LOGIC + MULTI * 2 + QUANT + SUBST + WITNESS + ASK


LARGE = ("Cal_BddExists", "Cal_BddForAll", "Cal_BddRelProd")
UNDER = QUANT + ["Substitute", "SatisfySupport"]


class Ops(Run):
    kinds = EVERY
    arms = ()
    same, used, last = (), [], None

    def tt(self, u):
        return self.uvalue(self.v, u)

    def operand(self):
        if self.same:
            u = self.same.pop(0)
        else:
            u = self.choose()
        self.used.append(u)
        return u

    def choose(self):
        m, d = self.m, self.d
        if d.roll(12) == 0:
            u = m.mf("userOneBdd")
        else:
            u = m.users[d.pick(m.users)][0]
        if d.roll(3) == 0:
            u = ("p", u[1], u[2] ^ 1)
        return u

    def varoperand(self):
        m = self.m
        return m.users[self.d.pick([x for x in m.users if x[0] == "v"])][0]

    def varid(self, u):
        return self.m.internal(u)[0]

    def keepuser(self, u):
        self.k += 1
        self.m.users["r%d" % self.k] = (u, None)

    def names(self, p="f"):
        return [x for x in self.m.users if x[0] in p or (p == "f" and x[0] == "r")]

    def current(self):
        """the association in force"""
        m = self.m
        p = m.mf("currentAssociation")
        id = i32(m.f(p[1], "CalAssociationStruct", "id"))
        t = m.mf("tempAssociation")
        return self.v.assoc[("temp" if p[1] == t[1] else None, id)]

    # ---- one operation
    def s_again(self):
        """the operation again, on the same operands, under another association: nothing remembered may be used"""
        kind, used = self.last or (None, ())
        alive = [m[0][1] for m in self.m.users.values()] + [self.m.mf("userOneBdd")[1]]
        if kind is None or any(u[1] not in alive for u in used):
            return self.s_op()
        what = self.d.roll(4)
        if what == 0:
            self.s_setassoc()
        else:
            self.s_setassoc(-1)
            self.s_temp()
        self.same = list(used)
        self.s_op(kind)
        self.same = ()
        return True

    def s_op(self, kind=None):
        d = self.d
        kind = kind or d.pick(self.kinds)
        self.used = []
        self.last = None
        self.did(kind)
        if kind in UNDER:
            self.last = (kind, self.used)

    def did(self, kind):
        getattr(self, "o_" + kind, None) and getattr(self, "o_" + kind)() or kind in TWO and self.two(kind)
        self.ctx.ob("operations:" + kind)

    def arm(self):
        """what happens around the next call: from dice of its own, so that the history can be told without"""
        return self.e.pick(self.arms) if self.arms else ""

    def run(self, name, args, ok, null=False):
        """call; ok(truth table) decides; the result becomes the user's"""
        m = self.m
        what = self.arm()
        self.armed(what)
        before = self.v
        many = name in LARGE and not what and self.e.roll(2)
        if many:        # so many nodes that quantification is done breadth first
            big = self.ctx.prog.const("CAL_LARGE_BDD") + 1
            m.setm("numNodes", m.mf("numNodes") + big)
        u = m.call(name, m.bm, *args)
        if many:
            m.setm("numNodes", m.mf("numNodes") - big)
        b = self.disarmed(what)
        if u == 0:
            if what == "overflow":
                if not b["over"]:
                    raise Over("%s gives no diagram although the node limit is kept" % name)
            elif not null:
                raise Val("%s gives no diagram" % name)
        else:
            self.isuser(u, name)
            self.keepuser(u)
        self.look(before, what, name)
        if u != 0:
            t = self.tt(u)
            if not ok(t):
                raise Val("%s gives the function %x for %s" % (name, t, b["args"]))
        return u

    def isuser(self, u, name):
        if not (isinstance(u, tuple) and u[0] == "p" and isinstance(u[2], int)):
            raise Val("%s does not give a diagram" % name)

    def armed(self, what):
        m, d = self.m, self.e
        if what:
            arm(m, d, what, self.meths)
            if what != "overflow" and d.roll(3):
                m.setm("gcCheck", d.roll(25))
        if what == "overflow":
            m.warnok = True
        if what == "reorder":
            self.v = View(m)

    def disarmed(self, what):
        m = self.m
        over = i32(m.mf("overflow"))
        if what:
            m.setm("nodeLimit", 0)
            m.setm("overflow", 0)
            m.setm("gcCheck", 1000)
            m.setm("uniqueTableGCLimit", 1000000)
            m.warnok = False
            disarm(m)
        return dict(over=over, args="")

    def look(self, a, what, name, extra=()):
        """after the call: everything the user holds is unchanged, and he holds one more reference"""
        m = self.m
        b = View(m)
        settled(b)
        held = {}
        for x, (u, _) in m.users.items():
            n = (u[1], u[2] & ~1)
            held[n] = held.get(n, 0) + 1
        one = m.node(m.mf("userOneBdd"))
        for n, (t, r) in b.uval.items():
            if r != 255 and r != held.get(n, 0):
                raise Own("after %s a user diagram has %d references but %d are held" % (name, r, held.get(n, 0)))
        for n in held:
            if n == one:
                continue
            if n not in b.uval:
                raise Own("after %s a diagram the user holds is gone" % name)
            if n in a.uval and a.uval[n][1] and a.n == b.n and a.uval[n][0] != b.uval[n][0]:
                raise Val("%s changes the function of a diagram the user holds" % name)
        if a.n == b.n and a.assoc != b.assoc:
            raise Val("%s changes a variable association" % name)
        if not what and a.ids != b.ids:
            raise Order("%s changes the variable order" % name)
        self.v = b
        self.meaning(b, name)

    def meaning(self, v, name):
        """cached results are results of what they are cached for"""
        F = v.full
        for op, ops, r in v.entries:
            l = list(ops)
            a, b = (l + l)[:2] if len(l) == 1 else l[:2]
            if op == 0x1000:
                w = a | b
            elif op == 0x2000:
                w = a & b
            elif op == 0x3000:
                w = F & ~(a & b)
            elif op & 0xf000 == 0x4000:
                q = v.assoc.get((None, op & 0xfff))
                if q is None or F not in ops:
                    continue
                l = [x for x in ops if x != F] or [F]
                w = exists(l[0], q, F)
            elif op & 0xf000 == 0x5000:
                q = v.assoc.get((None, op & 0xfff))
                if q is None:
                    continue
                w = exists(a & b, q, F)
            else:
                continue
            if w != r:
                raise CacheBad("after %s a cached result (operation %#x) is %x instead of %x for %s" % (name, op, r, w, [hex(x) for x in l]))

    # ---- the operations
    def two(self, kind):
        a, b = self.operand(), self.operand()
        x, y = self.tt(a), self.tt(b)
        F = self.full()
        self.run("Cal_Bdd" + kind, [a, b], lambda t: t == TWO[kind](x, y, F))
        return 1

    def o_ITE(self):
        l = [self.operand() for _ in range(3)]
        x, y, z = [self.tt(u) for u in l]
        F = self.full()
        self.run("Cal_BddITE", l, lambda t: t == ite(x, y, z, F))
        return 1

    def o_Not(self):
        a = self.operand()
        x = self.tt(a)
        self.plain("Cal_BddNot", [a], self.full() ^ x)
        return 1

    def o_Identity(self):
        a = self.operand()
        self.plain("Cal_BddIdentity", [a], self.tt(a))
        return 1

    def plain(self, name, args, want):
        keep, self.arms = self.arms, ()
        try:
            self.run(name, args, lambda t: t == want)
        finally:
            self.arms = keep

    def o_Multiway(self):
        d = self.d
        kind = d.pick(("And", "Or", "Xor"))
        l = [self.operand() for _ in range(1 + d.roll(7))]
        w = None
        for u in l:
            t = self.tt(u)
            w = t if w is None else TWO[kind](w, t, 0)
        self.run("Cal_BddMultiway" + kind, [self.m.userarray(l)], lambda t: t == w)
        return 1

    def o_Pairwise(self):
        d, m = self.d, self.m
        kind = d.pick(("And", "Or", "Xor"))
        l = [self.operand() for _ in range(2 * (1 + d.roll(4)))]
        w = [TWO[kind](self.tt(a), self.tt(b), 0) for a, b in zip(l[::2], l[1::2])]
        what = self.arm()
        self.armed(what)
        before = self.v
        p = m.call("Cal_BddPairwise" + kind, m.bm, m.userarray(l))
        over = self.disarmed(what)["over"]
        if not (isinstance(p, tuple) and p[0] == "p"):
            raise Val("a pairwise operation gives no list")
        us = [m.arr(p, i, 8) for i in range(len(w))]
        if 0 in us and (not over or any(x != 0 for x in us)):
            raise Over("a pairwise operation gives %d diagrams of %d and the node limit is %s" % (len([x for x in us if x != 0]), len(us), "exceeded" if over else "kept"))
        m.m_free(m.ai, m.s, [p])
        for u in us:
            if u != 0:
                self.isuser(u, "a pairwise operation")
                self.keepuser(u)
        self.look(before, what, "Cal_BddPairwise" + kind)
        for u, t in zip(us, w):
            if u != 0 and self.tt(u) != t:
                raise Val("a pairwise operation gives another function")
        return 1

    def o_Exists(self, name="Cal_BddExists"):
        a = self.operand()
        t, F, q = self.tt(a), self.full(), self.current()
        w = exists(t, q, F) if name[-1] == "s" else F & ~exists(F & ~t, q, F)
        self.run(name, [a], lambda t: t == w)
        return 1

    def o_ForAll(self):
        return self.o_Exists("Cal_BddForAll")

    def o_RelProd(self):
        a, b = self.operand(), self.operand()
        w = exists(self.tt(a) & self.tt(b), self.current(), self.full())
        self.run("Cal_BddRelProd", [a, b], lambda t: t == w)
        return 1

    def o_Substitute(self):
        a = self.operand()
        w = subst(self.tt(a), self.current(), self.full())
        self.run("Cal_BddSubstitute", [a], lambda t: t == w)
        return 1

    def o_VarSubstitute(self):
        """usually under an association made for it: variables for variables, some of them in a circle"""
        m, d = self.m, self.d
        F = self.full()
        if d.roll(4):
            vs = list(range(1, self.v.n + 1))
            l, want = [], {}
            for _ in range(1 + d.roll(self.v.n)):
                i = d.pick(vs)
                vs.remove(i)
                j = d.pick(range(1, self.v.n + 1))
                if i != j:
                    l += [m.users["v%d" % i][0], m.users["v%d" % j][0]]
                    want[i] = self.var(j)
            g = self.given()
            m.call("Cal_TempAssociationInit", m.bm, m.userarray(l), 1)
            m.call("Cal_AssociationSetCurrent", m.bm, -1 & 0xFFFFFFFF)
            g[self.temporary()] = want
            self.force = self.temporary()
            self.v = View(m)
            self.associations()
        q = self.current()
        at = {self.var(i) for i in range(1, self.v.n + 1)}
        if not all(t in at for t in q.values()):
            return 1
        for a in [self.operand() for _ in range(1 + d.roll(3))]:
            w = subst(self.tt(a), q, F)
            self.run("Cal_BddVarSubstitute", [a], lambda t: t == w)
        return 1

    def o_Compose(self):
        a, g, h = self.operand(), self.varoperand(), self.operand()
        i = self.varid(g)
        w = subst(self.tt(a), {i: self.tt(h)}, self.full())
        self.run("Cal_BddCompose", [a, g, h], lambda t: t == w)
        return 1

    def o_SwapVars(self):
        a, g, h = self.operand(), self.varoperand(), self.varoperand()
        i, j = self.varid(g), self.varid(h)
        w = subst(self.tt(a), {i: self.var(j), j: self.var(i)} if i != j else {}, self.full())
        self.run("Cal_BddSwapVars", [a, g, h], lambda t: t == w)
        return 1

    def o_Intersects(self, name="Cal_BddIntersects"):
        a, b = self.operand(), self.operand()
        F = self.full()
        w = self.tt(a) & (self.tt(b) if name[-1] == "s" and "Inter" in name else F & ~self.tt(b))
        self.run(name, [a, b], lambda t: t & ~w == 0 and (t == 0) == (w == 0))
        return 1

    def o_Implies(self):
        return self.o_Intersects("Cal_BddImplies")

    def o_Cofactor(self, name="Cal_BddCofactor"):
        a, c = self.operand(), self.operand()
        x, y = self.tt(a), self.tt(c)
        if y == 0:
            return 1
        self.run(name, [a, c], lambda t: (t ^ x) & y == 0)
        return 1

    def o_Reduce(self):
        return self.o_Cofactor("Cal_BddReduce")

    def o_Between(self):
        a, b = self.operand(), self.operand()
        x, y = self.tt(a), self.tt(b)
        if x & ~y:
            return 1
        self.run("Cal_BddBetween", [a, b], lambda t: x & ~t == 0 and t & ~y == 0)
        return 1

    def o_Satisfy(self):
        a = self.operand()
        x = self.tt(a)
        F, n = self.full(), self.v.n
        if x == 0:
            return 1
        self.run("Cal_BddSatisfy", [a], lambda t: t and t & ~x == 0 and cube(t, n, F) is not None)
        return 1

    def o_SatisfySupport(self):
        a = self.operand()
        x = self.tt(a)
        F, n = self.full(), self.v.n
        q = self.current()
        if x == 0:
            return 1
        self.run("Cal_BddSatisfySupport", [a], lambda t: t and t & ~x == 0 and cube(t, n, F) is not None and all(depends(t, i, F) for i in q))
        return 1

    # ---- inspection
    def top(self, u):
        h = self.m.internal(u)
        return h

    def o_If(self):
        a = self.operand()
        h = self.m.internal(a)
        if h[0] == 0:
            return 1
        self.plain("Cal_BddIf", [a], self.var(h[0]))
        return 1

    def o_Then(self, b=1):
        a = self.operand()
        h = self.m.internal(a)
        if h[0] == 0:
            return 1
        self.plain("Cal_BddThen" if b else "Cal_BddElse", [a], restrict(self.tt(a), h[0], b, self.full()))
        return 1

    def o_Else(self):
        return self.o_Then(0)

    def ask(self, name, args, want, what=None):
        before = self.v
        m = self.m
        r = m.call(name, m.bm, *args)
        if i32(r) != want:
            raise Val("%s answers %s instead of %s" % (name, r, want))
        self.look(before, "", name)
        return 1

    def o_DependsOn(self):
        a, g = self.operand(), self.varoperand()
        return self.ask("Cal_BddDependsOn", [a, g], int(depends(self.tt(a), self.varid(g), self.full())))

    def o_IsCube(self):
        a = self.operand()
        if self.tt(a) == 0:
            return 1
        return self.ask("Cal_BddIsCube", [a], int(cube(self.tt(a), self.v.n, self.full()) is not None))

    def o_Equal(self):
        a, b = self.operand(), self.operand()
        return self.ask("Cal_BddIsEqual", [a, b], int(self.tt(a) == self.tt(b)))

    def o_Support(self):
        m = self.m
        a = self.operand()
        before = self.v
        o = ("arr", "support%d" % m.s.fresh())
        m.call("Cal_BddSupport", m.bm, a, ("p", o, 0))
        got = []
        while True:
            u = m.rd(o, 8 * len(got), 8)
            if u == 0:
                break
            got.append(u)
            self.keepuser(u)
        self.look(before, "", "Cal_BddSupport")
        F = self.full()
        if sorted(self.varid(u) for u in got) != [i for i in range(1, self.v.n + 1) if depends(self.tt(a), i, F)]:
            raise Val("Cal_BddSupport gives other variables")
        return 1

    def o_Fraction(self):
        m = self.m
        a = self.operand()
        before = self.v
        r = m.call("Cal_BddSatisfyingFraction", m.bm, a)
        want = bin(self.tt(a)).count("1") / (1 << self.v.n)
        if not (isinstance(r, tuple) and r[0] == "f" and r[1] == want):
            raise Val("Cal_BddSatisfyingFraction answers %s instead of %s" % (r, want))
        self.look(before, "", "Cal_BddSatisfyingFraction")
        return 1

    def o_Var(self):
        d = self.d
        n = self.v.n
        if d.roll(2):
            i = 1 + d.roll(n)
            self.plain("Cal_BddManagerGetVarWithId", [i], self.var(i))
        else:
            k = d.roll(n)
            self.plain("Cal_BddManagerGetVarWithIndex", [k], self.var(self.v.ids[k]))
        return 1


AROUND = ["build", "free", "free", "free", "gc", "repack", "reorder", "var", "assoc", "assocquit", "temp", "setassoc", "setassoc"]


class Quiet:
    """findings of one history"""

    def __init__(self, ctx):
        self.ctx, self.l = ctx, []

    def begin(self):
        pass

    def end(self, rule):
        pass

    def add(self, *a, **k):
        self.l.append((a, k))

    tags = ALL | {"own", "over", "list", "uninit"}


def operations(ctx, F, n=24, length=24, kinds=EVERY, around=AROUND, arms=("",), rule="operations", seed0=1, start=4, maxvars=5,
               meths=(BF, DF), realpages=True, close=True, share=2, due=False):
    """operations, on average `share` between two other steps; `due`: only what goes wrong because of the collections, repackings and
    reorderings (or the node limit) around the calls"""
    for k in range(ctx.many(n)):
        if not ctx.mine():
            continue

        def f(m, arms=arms):
            for i in range(start):
                m.newvar(name="v%d" % (i + 1))
            r = Ops(ctx, m, seed0 + k, maxvars, meths)
            r.kinds, r.arms = kinds, arms
            r.e = Dice(seed0 + k + 77777)
            quiet_thresholds(m)
            m.setm("gcCheck", 1000)
            m.setm("uniqueTableGCLimit", 1000000)
            r.go(["build", "build", "assoc", "setassoc"])
            for _ in range(length):
                r.go(["op" if not around or r.d.roll(share + 1) else r.d.pick(around)])
            reachable(m)
            if close:
                quiet(m)
        G = Quiet(ctx)
        where = "operations %d" % (seed0 + k)
        story(ctx, G, rule, where, f, addr=k & 1, realpages=realpages)
        F.begin()
        if G.l and due:
            P = Quiet(ctx)
            story(ctx, P, rule, where, lambda m: f(m, ()), addr=k & 1, realpages=realpages)
            if P.l:
                G.l = []
        for a, kw in G.l:
            F.add(*a, **kw)
        F.end(rule)
