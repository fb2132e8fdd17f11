"""All public operations, analysed together; properties select the findings by tag."""
import apiops
import kernels
import queries
import wholeops
from wholeops import ORD, FUN

SOME = [FUN[0], FUN[1], FUN[5], FUN[6], FUN[7], FUN[9], FUN[12], FUN[14], FUN[15]]


def flat(ctx, F, over="never"):
    apiops.simple(ctx, F, over=over)
    apiops.pairwise(ctx, F, over=over)
    apiops.multiway(ctx, F, over=over)


def whole(ctx, F, orders=None, funs=None, qs=None):
    o = orders or (ORD if ctx.thorough else ORD[:1] + ORD[3:4])
    f = funs or (FUN if ctx.thorough else SOME)
    wholeops.compose(ctx, F, o, f)
    wholeops.substitute(ctx, F, o, f)
    wholeops.varsubstitute(ctx, F, orders=o, funs=f)
    wholeops.swapvars(ctx, F, o, f)
    wholeops.quant(ctx, F, o, f, qs=qs or (wholeops.QS if ctx.thorough else wholeops.QS[2:7:2] + wholeops.QS[6:]))
    wholeops.relprod(ctx, F, o, qs=qs or (wholeops.QS if ctx.thorough else wholeops.QS[3:8:2] + wholeops.QS[:1]))
    wholeops.cofactor(ctx, F, o)
    wholeops.between(ctx, F, o)
    wholeops.intersects(ctx, F, o)
    wholeops.satisfy(ctx, F, o)


def inspect(ctx, F, orders=None):
    o = orders or (ORD if ctx.thorough else ORD[:1] + ORD[3:4])
    queries.toplevel(ctx, F, o)
    queries.equality(ctx, F)
    queries.support(ctx, F, o)
    queries.sizes(ctx, F, o)
    queries.fraction(ctx, F, o)


def step(ctx, F):
    kernels.apply_binary(ctx, F)
    kernels.reduce_binary(ctx, F)
    kernels.apply_ite(ctx, F)
    kernels.driver_binary(ctx, F)
    kernels.driver_ite(ctx, F)


def orders(ctx):
    return ORD if ctx.thorough else ORD[:1] + ORD[3:4]
