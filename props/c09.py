"""C09: garbage collection frees only dead nodes and leaves no stale reference."""
from kernels import Finder
import ops
import pipes
import collect
import history

SHORT = "abstract interpretation of whole managers on LLVM IR with opaque addresses and an uninterpreted hash"
TECHNIQUE = ("Abstract interpretation on LLVM IR of whole managers: tables, chains, packed reference counts, pages, free lists, associations and the "
             "cache are interpreted as they are, node addresses are opaque, hash values are an uninterpreted function, given-back pages and "
             "released blocks are poisoned. Collections (called directly and through the threshold test) are compared before and after: live "
             "diagrams keep their function, exactly the unreferenced nodes go, counts and statistics follow, no list, association or cached "
             "result refers to a reclaimed node.")
NOTE = ("Bounded families of managers and histories, not all: up to 6 variables with functions given as truth tables; two hash "
        "assignments, both address orders. Within a history every instruction of the library is interpreted on the abstract heap.")


def run(ctx):
    F = Finder(ctx, {"dead", "den", "ref", "table", "cache", "canon", "move", "leak", "oob", "null", "mgr"})
    collect.gc(ctx, F)
    n = 300 if ctx.thorough else 24
    st = ["build", "build", "free", "free", "gc", "gc", "repack", "assoc", "assocquit", "temp", "cache", "reorder"]
    history.mixed(ctx, F, n=n, seed0=6001, steps=st, realpages=True)
    ops.operations(ctx, F, n=160 if ctx.thorough else 16, seed0=90001, arms=("", "gc"))
    pipes.pipeline(ctx, F, n=120 if ctx.thorough else 12, seed0=90101, middle=("gc", ""), inner=("gc", ""))
