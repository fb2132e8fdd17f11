"""Reordering of whole managers."""
from collect import *
from mgr import Mgr, View

NONE, SIFT, WINDOW = 0, 1, 2
BF, DF = 0, 1


def constants(prog):
    pass


def reorder(ctx, F, specs=None, techs=(SIFT, WINDOW), meths=(BF, DF), call="Cal_BddReorder", rounds=2):
    R = "reordering"
    for sp in specs or SPECS:
        for meth in meths:
            for tech in techs:
                if not ctx.mine():
                    continue

                def f(m):
                    populate(m, sp)
                    m.call("Cal_BddDynamicReordering", m.bm, tech, meth)
                    for k in range(rounds):
                        a = View(m)
                        m.call(call, m.bm)
                        b = View(m)
                        compare(m, a, b)
                        settled(b)
                        ctx.ob(R)
                        if b.blk[0:2] != a.blk[0:2]:
                            pass
                        for t in (A & C ^ B & D, A & B | C & D):
                            m.user("g%d_%d" % (k, t), m.build(t & MASK, list(b.ids)))
                        View(m)
                    reachable(m)
                story(ctx, F, R, "reordering (%s, %s), %s" % (("none", "sifting", "windows")[tech], ("breadth first", "depth first")[meth], sp.name), f, realpages=(meth == DF))
