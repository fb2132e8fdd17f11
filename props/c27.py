"""C27: reordering never makes diagrams larger than before."""
from kernels import Finder
import sizes

SHORT = ("abstract interpretation of LLVM IR with the size as an arbitrary function of the order")
TECHNIQUE = ("Abstract interpretation of Cal_BddReorder. (1) The search: the exchange of two neighbours is replaced by its "
             "contract (decided by C15), the number of nodes by an arbitrary function of the order, the widths of the levels and "
             "the search limits by arbitrary numbers; rule: the order the search ends in is not larger than the one it started "
             "from, and no exchange reaches beyond the last variable. (2) The count itself: on whole abstract managers (opaque "
             "node and page addresses, uninterpreted hash), for both methods and both techniques, with functions whose size "
             "depends on the order, variable blocks and every search limit varied; rule: after each reordering the number of "
             "nodes in use, counted from the tables themselves, is at most what it was.")
NOTE = ("Bounded: the search up to nine variables with a family of size functions; whole managers of six to eight variables with a "
        "family of functions; sizes are counted when nothing is garbage. That the search stays within the growth allowance "
        "meanwhile is not checked.")


def run(ctx):
    F = Finder(ctx, {"size"})
    n = 10 if ctx.thorough else 1
    sizes.search(ctx, F, n=8 * n)
    sizes.search(ctx, F, n=14 * n, seed0=1, techs=(1,), flat=True)
    sizes.sizes(ctx, F, n=16 * n, length=14)
    sizes.sizes(ctx, F, n=8 * n, length=14, seed0=3001, meths=(0,), start=4, maxvars=6, realpages=False)
    for k, meth in enumerate((0, 1)):
        sizes.sizes(ctx, F, n=8 * n, length=14, seed0=5001 + 100 * k, meths=(meth,), techs=(1,), start=6, maxvars=6,
                    steps=["shuffle", "reorder", "reorder", "free", "free", "chain"])
    ctx.need("sizes", 40)
