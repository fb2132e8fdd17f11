"""C19: everything allocated is released."""
from kernels import Finder
import ops
import history
import dumps
import suite
import nulls

SHORT = ("path-partitioned abstract interpretation of LLVM IR; allocation balance")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. Each "
             "allocation, request node and temporary table on a path must be released exactly once before the return, and "
             "released memory must not be used.")
NOTE = ("Opaque sub-functions of any size below at most three explicit variables; trusts the table and cache contracts "
        "(C10, C24) and that clang's IR is the program.")


def run(ctx):
    F = Finder(ctx, {"leak", "list"})
    suite.flat(ctx, F)
    suite.whole(ctx, F)
    suite.inspect(ctx, F)
    nulls.nulls(ctx, F)
    suite.step(ctx, F)
    dumps.roundtrip(ctx, F, suite.orders(ctx))
    dumps.failures(ctx, F)
    G = Finder(ctx, {"leak", "dead", "mgr", "kept"})
    history.mixed(ctx, G, n=200 if ctx.thorough else 12, seed0=8001, realpages=True)
    ops.operations(ctx, G, n=160 if ctx.thorough else 16, seed0=190001, arms=("", "gc", "reorder", "overflow"))
    history.mixed(ctx, G, n=160 if ctx.thorough else 12, seed0=81001, meths=(history.BF,),
                  steps=["build", "build", "free", "assoc", "scatter", "tight", "tight", "repack", "gc", "grow"])
