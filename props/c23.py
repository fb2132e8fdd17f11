"""C23: witness, support and dependency queries agree with the function."""
from kernels import Finder
import ops
import wholeops
import queries

SHORT = ("path-partitioned abstract interpretation of LLVM IR of witness and support queries")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. Satisfying "
             "cubes, support lists and dependency answers are compared with the function.")
NOTE = ("Opaque sub-functions of any size below at most three explicit variables; trusts the table and cache contracts "
        "(C10, C24) and that clang's IR is the program.")


def run(ctx):
    F = Finder(ctx, {"den", "canon"})
    wholeops.satisfy(ctx, F, wholeops.ORD)
    wholeops.intersects(ctx, F, wholeops.ORD)
    queries.support(ctx, F, wholeops.ORD)
    ops.operations(ctx, F, n=320 if ctx.thorough else 32, seed0=230001, kinds=ops.WITNESS + ["Support", "DependsOn", "IsCube"])
    ctx.need("witness", 300)
    ctx.need("support", 300)
