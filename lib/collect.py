"""Collections and repacking on whole managers."""
import itertools
from ir import AnalysisBroken, Budget
from world import Malformed
from kernels import loc
from mgr import SATURATE, Mgr, View, Ref, Stop, compare, reachable, quiet, neg

ALL = {"mgr", "den", "canon", "ref", "order", "cover", "dead", "mark", "move", "cache", "leak", "table", "oob", "null", "stale", "assoc", "kept"}


def story(ctx, F, rule, where, f, cls=Mgr, **kw):
    """run one history; breaches are reported with the function that was running"""
    F.begin()
    m = cls(ctx.prog, **kw)
    try:
        m.start()
        f(m)
    except Stop:
        pass
    except Malformed as e:
        fn = m.fnlast
        F.add(getattr(e, "tag", "den"), fn.name, "%s: %s" % (where, e), loc(fn))
    except Budget:
        F.add(sorted(F.tags)[0], m.fnlast.name, "%s: does not come to an end" % where, loc(m.fnlast))
    for v in m.ai.violations:
        F.add(v.rule, m.fnlast.name, "%s: %s" % (where, v.msg), v.loc, v.trace)
    ctx.absorb(m.ai, rule)
    F.end(rule)
    return m


def scatter(m, id, pages, slots, rotate=0):
    """the free nodes of a variable lie on several pages, in the given order; the first page may come later in the list"""
    nm = m.arr(m.mf("nodeManagerArray"), id, 8)[1]
    X = "CalNodeManagerStruct"
    pm = m.f(nm, X, "pageManager")
    pl = m.f(nm, X, "pageList")
    n = m.f(nm, X, "numPages")
    while n < pages:
        p = m.m_allocpage(m.ai, m.s, [pm])
        m.s.mem[(pl[1], pl[2] + 8 * n)] = (p, 8)
        n += 1
    m.setf(nm, X, "numPages", n)
    if rotate:
        l = [m.arr(pl, i, 8) for i in range(n)]
        l = l[1:rotate + 1] + l[:1] + l[rotate + 1:]
        for i, q in enumerate(l):
            m.s.mem[(pl[1], pl[2] + 8 * i)] = (q, 8)
    used = set()
    t = m.table(id)
    # nodes in use
    bins = m.f(t, "CalHashTableStruct", "bins")
    for i in range(m.f(t, "CalHashTableStruct", "numBins")):
        q = m.arr(bins, i, 8)
        while q != 0:
            used.add((q[1], q[2]))
            q = m.nxt((q[1], q[2]))
    base = [m.arr(pl, i, 8)[1] for i in range(n)]
    first = [(base[a], 32 * b) for a, b in slots]
    first = [x for x in dict.fromkeys(first) if x not in used]
    rest = [(b, 32 * k) for b in base for k in range(128) if (b, 32 * k) not in used and (b, 32 * k) not in first]
    lst = first + rest
    nx = m.N["nextBddNode"][0]
    for a, b in zip(lst, lst[1:] + [None]):
        m.s.mem[(a[0], a[1] + nx)] = (("p", b[0], b[1]) if b else 0, 8)
    m.setf(nm, X, "freeNodeList", ("p", lst[0][0], lst[0][1]))


class Spec:
    """what a history starts from"""

    def __init__(self, name="", n=4, order=None, users=(), drop=(), assoc=(), temp=(), cache=(), free=(), quick=True):
        self.name = name
        self.n, self.users, self.drop, self.assoc, self.temp, self.cache, self.free = n, users, drop, assoc, temp, cache, free


def populate(m, sp, hook=None):
    for i in range(sp.n):
        m.newvar(name="v%d" % (i + 1))
    if hook:
        hook()
    order = list(range(1, sp.n + 1))
    for k, t in enumerate(sp.users):
        u = m.user("f%d" % k, m.build(t, order))
    for pairs, temp in [(a, False) for a in sp.assoc] + ([(sp.temp, True)] if sp.temp else []):
        l = []
        for v, f in pairs:
            l += [m.users["v%d" % v][0]] + ([m.users["f%d" % f][0]] if f is not None else [])
        full = any(f is not None for v, f in pairs)
        if temp:
            m.call("Cal_TempAssociationInit", m.bm, m.userarray(l), int(full))
        else:
            m.call("Cal_AssociationInit", m.bm, m.userarray(l), int(full))
    for a, b, r, op in sp.cache:
        h = [m.internal(m.users["f%d" % x][0]) for x in (a, b, r)]
        m.call("CalCacheTableTwoInsert", m.bm, h[0], h[1], h[2], op, 0)
    for k in sp.drop:
        m.call("Cal_BddFree", m.bm, m.users.pop("f%d" % k)[0])


A, B, C, D = 0xAAAA, 0xCCCC, 0xF0F0, 0xFF00
MASK = 0xFFFF


def no(x):
    return MASK ^ x


SPECS = [
    Spec("one function freed, one kept", users=[A & B | C & D, no(A) & B ^ C], drop=[0]),
    Spec("everything freed", users=[A & B | C & D, (A ^ B ^ C ^ D), no(A) & B ^ C], drop=[0, 1, 2]),
    Spec("shared parts", users=[A & B ^ C & D, no(B) & C | B & D, C & D, no(C & D), C ^ D], drop=[0, 2]),
    Spec("parity functions and their negations", users=[A ^ B ^ C ^ D, no(A ^ B ^ C ^ D), B ^ C ^ D, C ^ D, A | no(B)], drop=[0, 2]),
    Spec("associations keep their functions", users=[A & B, C ^ D, B & C | D, A | no(D)], drop=[0, 1, 2, 3],
         assoc=[[(1, 1), (3, 0)], [(2, None), (3, None)]], temp=[(2, 2), (4, 3)]),
    Spec("cached results", users=[A & B, C ^ D, (A & B) ^ C ^ D, B & C | D, no(B & C | D) & A, A, no(D) | A & C], drop=[2, 4],
         cache=[(0, 1, 2, 0x1000), (1, 3, 0, 0x2000), (3, 4, 3, 0x3000), (2, 2, 1, 0x4001), (3, 6, 6, 0x5001), (5, 3, 5, 0x2000)]),
]


def settled(v):
    """every reference has a holder"""
    want = list(v.m.phantom)
    for x in v.extra.values():
        if x not in want:
            raise Ref("%d nodes have references that nothing accounts for: %s, %s" % (len(v.extra), sorted(v.extra.values()), v.m.phantom))
        want.remove(x)
    if any(x < SATURATE for x in want):
        raise Ref("references of a node are lost")


def gc(ctx, F, specs=None):
    """collections by Cal_BddManagerGC"""
    R = "collection"
    for sp in specs or SPECS:
        for addr in (0, 1):
            if not ctx.mine():
                continue

            def f(m):
                populate(m, sp)
                for k in range(3):
                    a = View(m)
                    m.call("Cal_BddManagerGC", m.bm)
                    b = View(m)
                    compare(m, a, b, gc=True)
                    settled(b)
                    ctx.ob(R)
                    # what was freed is used again
                    if k == 0:
                        for t in (A & C ^ B & D, A & B | C & D, no(A) & no(B) & no(C)):
                            m.user("g%d" % t, m.build(t & MASK, list(range(1, sp.n + 1))))
                        View(m)
                    elif k == 1:
                        for x in list(m.users):
                            if x[0] in "fg":
                                m.call("Cal_BddFree", m.bm, m.users.pop(x)[0])
                reachable(m)
            story(ctx, F, R, "collection, " + sp.name, f, addr=addr)


# per variable: number of pages and the first nodes handed out
LAYOUTS = [
    {1: (5, [(4, 3), (0, 5), (3, 0), (1, 127)]), 2: (4, [(3, 7), (3, 0), (1, 2), (0, 9)]), 4: (6, [(5, 127), (2, 0), (4, 4)])},
    {2: (4, [(1, 0), (2, 0), (3, 0), (3, 1), (3, 2)]), 3: (4, [(3, 5), (3, 4), (3, 3), (3, 2)])},
    {3: (4, [(0, 3), (3, 127), (1, 1), (2, 2)])},
    {1: (4, [(2, 0), (3, 3), (1, 1)])},
    {1: (4, [(0, 3), (3, 0), (1, 127)], 3), 2: (5, [(4, 7), (3, 0), (1, 2), (0, 9)], 1), 3: (4, [(0, 0), (3, 1), (2, 5)], 2)},
    {1: (3, [(2, 0), (1, 3), (1, 1)]), 2: (9, [(8, 0), (7, 3), (6, 1), (0, 4)]), 3: (2, [(1, 1)]), 4: (4, [(3, 0), (2, 0)])},
]


def lower(m, limit=0):
    """the thresholds that make the next operation collect and repack"""
    m.setm("gcCheck", 0)
    m.setm("uniqueTableGCLimit", limit)


def quiet_thresholds(m):
    off, z = m.p.fields["Cal_BddManagerStruct"]["repackAfterGCThreshold"]
    m.s.mem[(m.M, off)] = (("f", 2.0), z)


def repack(ctx, F, specs=None):
    R = "repacking"
    for sp in specs or SPECS:
        for li, lay in enumerate(LAYOUTS):
            for addr in (0, 1):
                if not ctx.mine():
                    continue

                def f(m):
                    hook = lambda: [scatter(m, i, *x) for i, x in lay.items()]
                    populate(m, sp, hook)
                    quiet_thresholds(m)
                    for k in range(2):
                        lower(m)
                        a = View(m)
                        r = m.call("CalBddPostProcessing", m.bm)
                        b = View(m)
                        compare(m, a, b, gc=True)
                        settled(b)
                        ctx.ob(R)
                        ctx.moved = getattr(ctx, "moved", 0) + sum(1 for n in a.te if n not in b.te and a.ref[n]) + (a.npages - b.npages) * 1000
                        for t in (A & C ^ B & D, A & B | C & D, no(A) & no(B) & no(C)):
                            m.user("g%d" % t, m.build(t & MASK, list(range(1, sp.n + 1))))
                        View(m)
                    reachable(m)
                story(ctx, F, R, "repacking after a collection (layout %d), %s" % (li, sp.name), f, addr=addr)
