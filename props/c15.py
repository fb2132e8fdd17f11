"""C15: exchanging adjacent variables preserves every function."""
from kernels import Finder
import ops
import pipes
import collect
import reorder
import history
import suite

SHORT = "abstract interpretation of whole managers on LLVM IR with opaque addresses and an uninterpreted hash"
TECHNIQUE = ("Abstract interpretation on LLVM IR of whole managers: tables, chains, packed reference counts, pages, free lists, associations and "
             "the cache are interpreted as they are, node addresses are opaque, hash values are an uninterpreted function, given-back pages and "
             "released blocks are poisoned. Reorderings by sifting and by windows, breadth first and depth first, are compared before and after: every "
             "user function, association and cached result as a truth table over the variables by identifier, with canonical form, reference "
             "counts and tables re-established.")
NOTE = (" Bounded families of histories, not all histories: up to 6 variables with functions given as truth tables "
        "(up to 62 variables with fixed functions in the thorough tier); two hash assignments, both address orders. Within a history "
        "every instruction of the library is interpreted on the abstract heap. Trusts clang's IR.")


def run(ctx):
    F = Finder(ctx, {"den", "canon", "ref", "table", "dead", "mark", "order", "move", "oob", "null", "mgr"})
    reorder.reorder(ctx, F)
    n = 400 if ctx.thorough else 24
    st = ["build", "build", "free", "var", "assoc", "reorder", "reorder", "reorder", "gc", "temp", "cache"]
    history.mixed(ctx, F, n=n, seed0=2001, steps=st, realpages=True)
    history.mixed(ctx, F, n=n, seed0=4001, steps=st, meths=(0,))
    ops.operations(ctx, F, n=160 if ctx.thorough else 16, seed0=150001, arms=("", "reorder"), around=["build", "free", "reorder", "var"])
    pipes.pipeline(ctx, F, n=160 if ctx.thorough else 16, seed0=150101, middle=("reorder", ""), inner=("reorder", ""))
