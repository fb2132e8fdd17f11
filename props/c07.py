"""C07: internal handles are never used across garbage collection or reordering."""
from kernels import Finder
import ops
import suite

SHORT = ("path-partitioned abstract interpretation of LLVM IR; handle epochs")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. Every call that "
             "may collect, repack or reorder starts a new epoch; any use of a node address obtained in an earlier epoch is "
             "reported.")
NOTE = ("Opaque sub-functions of any size below at most three explicit variables; trusts the table and cache contracts "
        "(C10, C24) and that clang's IR is the program. Also assumes that the countdown to the next collection cannot "
        "run out between two collection points without a node being created.")


def run(ctx):
    F = Finder(ctx, {"stale"})
    suite.flat(ctx, F)
    suite.whole(ctx, F)
    suite.inspect(ctx, F)
    G = Finder(ctx, {"den", "dead", "canon", "table", "ref", "move", "oob", "null", "mgr", "own", "cache", "order", "stale", "leak", "cover"})
    ops.operations(ctx, G, n=480 if ctx.thorough else 48, seed0=70001, arms=("gc", "gc", "repack", "reorder", "reorder"), around=["build", "build", "free", "assoc", "setassoc"], due=True)
    ops.operations(ctx, G, n=240 if ctx.thorough else 24, seed0=71001, arms=("gc", "repack", "reorder"), around=["build", "build", "free", "assoc", "setassoc"], due=True, meths=(0,), realpages=False)
