"""C11: null arguments are reported, never dereferenced."""
from kernels import Finder
import nulls

SHORT = ("path-partitioned abstract interpretation of LLVM IR with null operands")
TECHNIQUE = ("Path-partitioned abstract interpretation of every public operation with the null diagram in every subset of "
             "its diagram argument positions; the neutral answer is required, nothing may be dereferenced, allocated, "
             "counted or printed.")
NOTE = ("All positions and subsets; the remaining operands are opaque functions, variables and constants.")


def run(ctx):
    F = Finder(ctx, {"null", "own", "leak", "ref", "list"})
    nulls.nulls(ctx, F)
    ctx.need("null", 200)
