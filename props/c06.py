"""C06: each result handed to the user owns exactly one reference."""
from kernels import Finder
import ops
import pipes
import dumps
import suite
import nulls

SHORT = ("path-partitioned abstract interpretation of LLVM IR; reference balance of user handles")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. At every return "
             "the user reference counts are compared with their values at entry: +1 per returned diagram, 0 for everything "
             "else.")
NOTE = ("Opaque sub-functions of any size below at most three explicit variables; trusts the table and cache contracts "
        "(C10, C24) and that clang's IR is the program.")


def run(ctx):
    F = Finder(ctx, {"own"})
    suite.flat(ctx, F)
    suite.whole(ctx, F)
    suite.inspect(ctx, F)
    nulls.nulls(ctx, F)
    dumps.roundtrip(ctx, F, suite.orders(ctx))
    dumps.failures(ctx, F)
    ops.operations(ctx, F, n=240 if ctx.thorough else 24, seed0=60001, arms=("", "gc", "reorder", "overflow"))
    G = Finder(ctx, {"own", "ref", "dead"})
    ops.operations(ctx, G, n=160 if ctx.thorough else 16, seed0=61001, kinds=ops.EVERY + ["Identity", "Not", "Var", "Support"],
                   around=["hold", "drop", "drop", "build", "free", "gc", "assoc"])
    pipes.pipeline(ctx, G, n=120 if ctx.thorough else 12, seed0=60101, middle=("", "gc"), inner=("", "overflow"))
