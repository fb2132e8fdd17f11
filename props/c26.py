"""C26: satisfying-fraction results are exact up to rounding."""
from kernels import Finder
import ops
import wholeops
import queries

SHORT = ("path-partitioned abstract interpretation of LLVM IR of the fraction computation")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. The abstract "
             "value of the returned fraction is compared with the proportion of satisfying assignments.")
NOTE = ("Diagrams over up to three variables in every order; rounding in deeper diagrams is not bounded.")


def run(ctx):
    F = Finder(ctx, {"den", "leak", "uninit"})
    queries.fraction(ctx, F, wholeops.ORD)
    ops.operations(ctx, F, n=160 if ctx.thorough else 16, seed0=260001, kinds=["Fraction"])
    ctx.need("fraction", 200)
