"""C28: collections, reorderings and the node limit act at the configured thresholds."""
from kernels import Finder
import limits

SHORT = ("path-partitioned abstract interpretation of LLVM IR; counters against thresholds")
TECHNIQUE = ("Path-partitioned abstract interpretation of the interface on whole abstract managers (opaque addresses, "
             "uninterpreted hash). An operation that creates nothing is interpreted with every setting just below, at and just "
             "above its threshold (countdown, collection limit, reordering threshold, node limit, collection switched off, both "
             "reordering methods and techniques); the counters of collections and reorderings, the nodes left, the next "
             "collection limit and the overflow flag are compared with the rule. The functions that set limits are interpreted "
             "over grids of counts. Operations in histories must count the nodes they create.")
NOTE = ("Bounded: managers of four variables; the counts are taken from the manager's own counters, which C09 ties to the tables. "
        "Quantification may work out small cases without counting. How much memory the process takes is not bounded by any "
        "static argument in reach.")


def run(ctx):
    F = Finder(ctx, {"limit", "den", "dead", "mgr", "null", "oob"})
    limits.automatic(ctx, F)
    limits.settings(ctx, F)
    limits.counted(ctx, F, n=120 if ctx.thorough else 16)
    ctx.need("automatic", 60)
    ctx.need("settings", 100)
