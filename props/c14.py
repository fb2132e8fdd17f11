"""C14: per-variable storage always covers every variable."""
from kernels import Finder
import collect
import reorder
import history
import suite

SHORT = "abstract interpretation of whole managers on LLVM IR with opaque addresses and an uninterpreted hash"
TECHNIQUE = ("Abstract interpretation on LLVM IR of whole managers: tables, chains, packed reference counts, pages, free lists, associations and "
             "the cache are interpreted as they are, node addresses are opaque, hash values are an uninterpreted function, given-back pages and "
             "released blocks are poisoned. Variables are created past every growth step of the tables, with functions, associations and block "
             "structure in place; each access is checked against the bounds of its block, and all entries must survive.")
NOTE = ("Pipelines are covered by C25. Bounded families of histories, not all histories: up to 6 variables with functions given as truth tables "
        "(up to 62 variables with fixed functions in the thorough tier); two hash assignments, both address orders. Within a history "
        "every instruction of the library is interpreted on the abstract heap. Trusts clang's IR.")


def run(ctx):
    F = Finder(ctx, {"cover", "oob", "null", "dead", "leak", "mgr", "move", "order", "stale", "table"})
    history.growth(ctx, F)
    n = 300 if ctx.thorough else 16
    st = ["build", "free", "var", "var", "assoc", "assocquit", "temp", "gc", "repack", "reorder", "block"]
    history.mixed(ctx, F, n=n, seed0=9001, steps=st, realpages=True)
