"""C08: moving nodes updates everything that refers to them."""
from kernels import Finder
import ops
import pipes
import collect
import reorder
import history
import suite

SHORT = "abstract interpretation of whole managers on LLVM IR with opaque addresses and an uninterpreted hash"
TECHNIQUE = ("Abstract interpretation on LLVM IR of whole managers: tables, chains, packed reference counts, pages, free lists, associations and "
             "the cache are interpreted as they are, node addresses are opaque, hash values are an uninterpreted function, given-back pages and "
             "released blocks are poisoned. Around repacking and both kinds of reordering, every holder of a node (parents, user handles, projections, "
             "associations, temporary association, cache) must denote what it denoted before, and nothing may lead to given-back memory.")
NOTE = ("Pipelined requests are covered by C25. Bounded families of histories, not all histories: up to 6 variables with functions given as truth tables "
        "(up to 62 variables with fixed functions in the thorough tier); two hash assignments, both address orders. Within a history "
        "every instruction of the library is interpreted on the abstract heap. Trusts clang's IR.")


def run(ctx):
    F = Finder(ctx, {"move", "dead", "den", "ref", "table", "cache", "canon", "oob", "null", "mgr"})
    collect.repack(ctx, F)
    reorder.reorder(ctx, F)
    n = 400 if ctx.thorough else 24
    history.mixed(ctx, F, n=n, realpages=True)
    history.mixed(ctx, F, n=n, seed0=5001, meths=(0,))
    history.mixed(ctx, F, n=n, seed0=15001, meths=(0,), start=5, length=16, steps=["build", "build", "free", "repack", "repack", "assoc", "temp", "grow"])
    ops.operations(ctx, F, n=160 if ctx.thorough else 16, seed0=80001, arms=("", "repack", "reorder"))
    pipes.pipeline(ctx, F, n=160 if ctx.thorough else 16, seed0=80101, middle=("repack", "reorder"), inner=("repack", "reorder"))
    pipes.pipeline(ctx, F, n=120 if ctx.thorough else 12, seed0=81101, middle=("repack",), inner=("repack", "reorder"), realpages=False, meths=(0,))
    history.mixed(ctx, F, n=400 if ctx.thorough else 40, seed0=16001, meths=(0,), start=5, length=18, realpages=False,
                  steps=["build", "build", "free", "assoc", "assoc", "temp", "scatter", "tight", "tight", "cache", "grow"])
