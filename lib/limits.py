"""When collections, reorderings and the node limit act."""
from collect import story, populate, Spec, A, B, C, D, no, quiet_thresholds
from history import SIFT, WINDOW, BF, DF, Dice
from mgr import View, Malformed, reachable, i32
from ops import Ops, EVERY


class Limit(Malformed):
    tag = "limit"


def u64(v):
    if not isinstance(v, int):
        raise Limit("a count is not determined: %r" % (v,))
    return v - (1 << 64) if v >> 63 else v


USERS = [A & C ^ B & D, A & B | C & D, A ^ B ^ C ^ D, no(A) & no(C) & D]


def dead(m):
    """nodes a collection would remove"""
    v = View(m)
    live = set()
    todo = [nd for nd in v.te if v.ref[nd] and (v.uholds.get(nd) or v.aholds.get(nd) or v.ref[nd] == 255)]
    # user handles without references hold nothing
    gone = {}
    for nd, (t, r) in v.uval.items():
        if r == 0:
            h = m.then(nd)
            q = (h[1][1], h[1][2] & ~1)
            gone[q] = gone.get(q, 0) + 1
    todo = [nd for nd in todo if v.ref[nd] == 255 or v.aholds.get(nd) or v.uholds.get(nd, 0) > gone.get(nd, 0)]
    while todo:
        nd = todo.pop()
        if nd in live or nd not in v.te:
            continue
        live.add(nd)
        for h in v.te[nd]:
            todo.append((h[1][1], h[1][2] & ~1))
    return len(v.te) - len(live), len(v.te)


def automatic(ctx, F, rule="automatic"):
    """the threshold test around an operation that creates nothing"""
    cases = []
    for tech, meth in ((0, BF), (SIFT, BF), (SIFT, DF), (WINDOW, BF), (WINDOW, DF)):
        for mode in (1, 0):
            for check in (0, 1, -2):
                for dl in (-1, 0, 1):           # collection limit below, at, above the number of nodes
                    if check == 1 and dl >= 0 and tech:
                        continue
                    for rt in ((-1, 0, 1) if tech and check <= 0 and dl < 0 else (1,)):
                        for nl in ((None, -1, 0, 1) if check <= 0 and dl < 0 and rt == 1 else (None,)):
                            cases.append((tech, meth, mode, check, dl, rt, nl))
    for k, case in enumerate(cases):
        if not ctx.mine():
            continue
        tech, meth, mode, check, dl, rt, nl = case

        def f(m):
            least = u64(m.mf("uniqueTableGCLimit"))
            populate(m, Spec(users=USERS, drop=(1, 3)))
            for x in ("f1", "f3"):
                if x in m.users:
                    m.call("Cal_BddFree", m.bm, m.users.pop(x)[0])
            quiet_thresholds(m)
            m.setm("repackAfterGCThreshold", ("f", 0.0))
            dd, nn = dead(m)
            n = u64(m.mf("numNodes"))
            if not dd:
                raise Limit("nothing to collect")
            m.call("Cal_BddSetGCMode", m.bm, mode)
            m.call("Cal_BddDynamicReordering", m.bm, tech, meth)
            n1 = n - dd if mode else n
            m.setm("gcCheck", check & 0xffffffff)
            m.setm("uniqueTableGCLimit", n + dl)
            m.call("Cal_BddManagerSetParameters", m.bm, n1 + rt, 100, ("f", 0.0), ("f", 0.9))
            if nl is not None:
                m.setm("nodeLimit", 0)
                m.call("Cal_BddNodeLimit", m.bm, n1 + nl)
                m.setm("uniqueTableGCLimit", min(n + dl, n1 + nl))
            gc0, re0 = i32(m.mf("numGC")), i32(m.mf("numReorderings"))
            lim0 = u64(m.mf("uniqueTableGCLimit"))
            m.warnok = True
            v = m.users["v1"][0]
            u = m.call("Cal_BddAnd", m.bm, v, v)
            gcs, res = i32(m.mf("numGC")) - gc0, i32(m.mf("numReorderings")) - re0
            what = "with %d nodes, %d of them dead, collection limit %d, countdown %d, collection %s" % (n, dd, lim0, check, "on" if mode else "off")
            due = check <= 0 and n > lim0
            lim, over = u64(m.mf("uniqueTableGCLimit")), i32(m.mf("overflow"))
            n2 = u64(m.mf("numNodes"))
            if not due:
                if gcs or res or over or lim != lim0 or n2 != n:
                    raise Limit("a collection, reordering or overflow happens before it is due " + what)
                return
            want = n1 > n1 + rt and tech != 0
            if res != int(want):
                raise Limit("%d reorderings happen %s, %d nodes left and the reordering threshold at %d" % (res, what, n1, n1 + rt))
            if mode and not gcs or not mode and gcs and not res:
                raise Limit("%d collections happen %s" % (gcs, what))
            if not want and n2 != n1:
                raise Limit("%d nodes are left instead of %d %s" % (n2, n1, what))
            lm = n1 + nl if nl is not None else 0
            w = max(2 * n2, least)
            if lm:
                w = min(w, lm)
            if lim != w:
                raise Limit("the next collection limit is %d instead of %d %s" % (lim, w, what))
            if over != int(bool(lm) and n2 > lm):
                raise Limit("an overflow is %sreported with %d nodes and the node limit at %d" % ("" if over else "not ", n2, lm))
            if i32(m.call("Cal_BddOverflow", m.bm)) != over or i32(m.call("Cal_BddOverflow", m.bm)) != 0:
                raise Limit("Cal_BddOverflow does not tell and clear the overflow")
            if i32(m.mf("gcCheck")) <= 0:
                raise Limit("the countdown does not start again")
            if u != 0:
                m.users["r"] = (u, None)
            m.setm("nodeLimit", 0)
            reachable(m)
            ctx.ob(rule)
        story(ctx, F, rule, "thresholds %d" % k, f, addr=k & 1, realpages=(meth == DF or bool(k & 2)))


def settings(ctx, F, rule="settings"):
    """what the interface sets is what is in force"""
    if not ctx.mine():
        return

    def f(m):
        least = u64(m.mf("uniqueTableGCLimit"))
        for n in (1, least // 2 - 1, least // 2, least // 2 + 1, least, 3 * least):
            for lm in (0, 1, n, 2 * n - 1, 2 * n, 2 * n + 1, least - 1, least, least + 1, 1 << 40):
                m.setm("numNodes", n)
                m.setm("nodeLimit", lm)
                m.setm("uniqueTableGCLimit", 12345)
                m.call("Cal_BddManagerSetGCLimit", m.bm)
                w = max(2 * n, least)
                if lm:
                    w = min(w, lm)
                g = u64(m.mf("uniqueTableGCLimit"))
                if g != w:
                    raise Limit("with %d nodes and the node limit %d the collection limit becomes %d instead of %d" % (n, lm, g, w))
                ctx.ob(rule)
        for old in (0, 7, 20000):
            for new in (-5, 0, 1, 9999, 10000, 10001, 30000):
                for lim in (1, 10000, 20000):
                    m.setm("nodeLimit", old)
                    m.setm("uniqueTableGCLimit", lim)
                    r = u64(m.call("Cal_BddNodeLimit", m.bm, new & (1 << 64) - 1))
                    w = max(new, 0)
                    if r != old or u64(m.mf("nodeLimit")) != w:
                        raise Limit("Cal_BddNodeLimit returns %d for the old limit %d and sets %d for %d" % (r, old, u64(m.mf("nodeLimit")), new))
                    g = u64(m.mf("uniqueTableGCLimit"))
                    if w and g > w:
                        raise Limit("the collection limit %d is beyond the node limit %d" % (g, w))
                    if g != min(lim, w or lim):
                        raise Limit("Cal_BddNodeLimit changes the collection limit from %d to %d" % (lim, g))
                    ctx.ob(rule)
        P = ("reorderingThreshold", "maxForwardedNodes", "repackAfterGCThreshold", "tableRepackThreshold")
        for k in range(16):
            for zero in (0, 1):
                was = [m.mf(p) for p in P]
                v = [0 if zero else 17 + k, 0 if zero else 33 + k, 0.0 if zero else 0.5, 0.0 if zero else 0.25]
                arg = [(x if k >> i & 1 else (-1 if i < 2 else -1.0)) for i, x in enumerate(v)]
                m.call("Cal_BddManagerSetParameters", m.bm, *[x & (1 << 64) - 1 if i < 2 else ("f", x) for i, x in enumerate(arg)])
                for i, p in enumerate(P):
                    g = m.mf(p)
                    w = was[i] if not k >> i & 1 else (v[i] if i < 2 else ("f", v[i]))
                    if g != w:
                        raise Limit("Cal_BddManagerSetParameters leaves %s at %s instead of %s" % (p, g, w))
                ctx.ob(rule)
    story(ctx, F, rule, "settings", f)


class Count(Ops):
    """nodes that come into being count towards the next collection"""

    def look(self, a, what, name, extra=()):
        m = self.m
        Ops.look(self, a, what, name, extra)
        b = self.v
        more = sum(len(x) for i, x in b.nodes.items() if i) - sum(len(x) for i, x in a.nodes.items() if i)
        c = i32(m.mf("gcCheck"))
        if more > 0 and name not in self.free and a.n == b.n:
            if 1000 - c < 1:
                raise Limit("%s creates %d nodes but does not count them towards the next collection" % (name, more))
            self.ctx.ob("counted")
        m.setm("gcCheck", 1000)

    free = ("Cal_BddExists", "Cal_BddForAll", "Cal_BddRelProd", "Cal_BddSwapVars", "Cal_BddCompose")    # small cases are worked out depth first, uncounted


def counted(ctx, F, n=16, seed0=1, length=20, rule="counted"):
    for k in range(ctx.many(n)):
        if not ctx.mine():
            continue

        def f(m):
            for i in range(4):
                m.newvar(name="v%d" % (i + 1))
            r = Count(ctx, m, seed0 + k, 5, (BF, DF))
            r.kinds, r.e = KINDS, Dice(seed0 + k)
            quiet_thresholds(m)
            m.setm("gcCheck", 1000)
            m.setm("uniqueTableGCLimit", 1000000)
            r.go(["build", "build", "assoc", "setassoc"])
            for _ in range(length):
                r.go(["op" if r.d.roll(4) else r.d.pick(("free", "free", "gc", "build", "assoc", "setassoc"))])
        story(ctx, F, rule, "counting %d" % (seed0 + k), f, addr=k & 1, realpages=True)


KINDS = list(("And", "Or", "Nand", "Nor", "Xor", "Xnor", "ITE", "Multiway", "Pairwise", "Exists", "ForAll", "RelProd", "Substitute", "VarSubstitute", "Compose",
              "SwapVars"))
