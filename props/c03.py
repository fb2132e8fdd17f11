"""C03: every public operation computes the documented connective."""
from kernels import Finder
import ops
import suite
import queries

SHORT = ("path-partitioned abstract interpretation of LLVM IR against the documented functions")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. Each result is "
             "compared with the documented function as a truth table over the opaque parts.")
NOTE = ("Opaque sub-functions of any size below at most three explicit variables; trusts the table and cache contracts "
        "(C10, C24) and that clang's IR is the program. Kernels are additionally decided step by step by C01, C02, C21, "
        "C22.")


def run(ctx):
    F = Finder(ctx, {"den", "canon"})
    suite.flat(ctx, F)
    suite.whole(ctx, F)
    queries.toplevel(ctx, F, suite.orders(ctx))
    queries.equality(ctx, F)
    ops.operations(ctx, F, n=240 if ctx.thorough else 24, seed0=30001, kinds=ops.LOGIC + ops.MULTI + ["If", "Then", "Else", "Equal", "Var"])
    ctx.need("api", 100)
    ctx.need("query", 300)
