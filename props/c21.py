"""C21: quantification steps eliminate exactly the associated variables."""
from kernels import Finder
import ops
import wholeops

SHORT = ("path-partitioned abstract interpretation of LLVM IR of quantification and relational product")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. All subsets of "
             "the variables are quantified, by depth-first and breadth-first code; the result is compared with the "
             "quantified function.")
NOTE = ("Opaque sub-functions of any size below at most three explicit variables; trusts the table and cache contracts "
        "(C10, C24) and that clang's IR is the program.")


def run(ctx):
    F = Finder(ctx, {"den", "canon", "cache", "assoc"})
    wholeops.quant(ctx, F, wholeops.ORD)
    wholeops.relprod(ctx, F, wholeops.ORD)
    ops.operations(ctx, F, n=320 if ctx.thorough else 32, seed0=210001, kinds=ops.QUANT, around=["again", "again", "again", "build", "build", "free", "assoc", "assoc", "assocquit", "temp", "setassoc", "setassoc", "gc", "reorder", "var"])
    ctx.need("quant", 1000)
    ctx.need("relprod", 500)
