"""C13: variable identifiers and order positions stay mutually inverse."""
from kernels import Finder
import ops
import collect
import reorder
import history
import suite

SHORT = "abstract interpretation of whole managers on LLVM IR with opaque addresses and an uninterpreted hash"
TECHNIQUE = ("Abstract interpretation on LLVM IR of whole managers: tables, chains, packed reference counts, pages, free lists, associations and "
             "the cache are interpreted as they are, node addresses are opaque, hash values are an uninterpreted function, given-back pages and "
             "released blocks are poisoned. After every creation of a variable (first, last, before, after) and every reordering the two mappings must be "
             "inverse, the order the requested one, and the last-position bookkeeping of each association the lowest variable it binds.")
NOTE = (" Bounded families of histories, not all histories: up to 6 variables with functions given as truth tables "
        "(up to 62 variables with fixed functions in the thorough tier); two hash assignments, both address orders. Within a history "
        "every instruction of the library is interpreted on the abstract heap. Trusts clang's IR.")


def run(ctx):
    F = Finder(ctx, {"order", "mgr", "oob", "null", "canon", "table"})
    history.growth(ctx, F)
    reorder.reorder(ctx, F)
    n = 400 if ctx.thorough else 24
    st = ["build", "free", "var", "var", "assoc", "assocquit", "temp", "reorder", "reorder", "block"]
    history.mixed(ctx, F, n=n, seed0=3001, steps=st, realpages=True)
    history.mixed(ctx, F, n=n, seed0=7001, steps=st, meths=(0,))
    ops.operations(ctx, F, n=160 if ctx.thorough else 16, seed0=130001, kinds=["And", "Xor", "ITE", "Var", "If", "Support"], arms=("", "reorder"), around=["build", "free", "var", "var", "reorder", "reorder", "assoc"], maxvars=7)
