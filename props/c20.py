"""C20: traversals leave no marks behind."""
from kernels import Finder
import ops
import history
import reorder
import dumps
import suite
import queries

SHORT = ("path-partitioned abstract interpretation of LLVM IR; mark bits")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. Node mark bits "
             "are part of the abstract node; at every return and collection point no node may carry a mark, and counts must "
             "visit each node once.")
NOTE = ("Opaque sub-functions of any size below at most three explicit variables; trusts the table and cache contracts "
        "(C10, C24) and that clang's IR is the program.")


def run(ctx):
    F = Finder(ctx, {"mark", "den"})
    queries.support(ctx, F, suite.orders(ctx))
    queries.sizes(ctx, F, suite.orders(ctx))
    G = Finder(ctx, {"mark"})
    suite.whole(ctx, G)
    queries.fraction(ctx, G, suite.orders(ctx))
    queries.toplevel(ctx, G, suite.orders(ctx))
    dumps.roundtrip(ctx, G, suite.orders(ctx))
    history.mixed(ctx, G, n=200 if ctx.thorough else 12, seed0=13001, steps=["build", "build", "free", "reorder", "gc", "reorder"], realpages=True)
    ops.operations(ctx, G, n=160 if ctx.thorough else 16, seed0=200001, kinds=["Support", "And", "ITE", "Exists", "DependsOn", "IsCube", "Cofactor"], arms=("", "reorder"))
