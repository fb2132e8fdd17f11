"""C12: node-limit overflow yields the null diagram and a usable manager."""
from kernels import Finder
import ops
import dumps
import suite

SHORT = ("path-partitioned abstract interpretation of LLVM IR with overflow at every collection point")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. At every "
             "collection point the analysis forks on the node limit being exceeded; on such a path the null diagram must be "
             "returned, nothing may stay referenced when garbage is collected, and the manager's state must be as before.")
NOTE = ("Opaque sub-functions of any size below at most three explicit variables; trusts the table and cache contracts "
        "(C10, C24) and that clang's IR is the program.")


def run(ctx):
    F = Finder(ctx, {"over", "own", "leak", "list", "null"})
    ctx.over = "fork"
    suite.flat(ctx, F, "fork")
    suite.whole(ctx, F)
    dumps.roundtrip(ctx, F, suite.orders(ctx))
    G = Finder(ctx, {"over", "own", "leak", "den", "dead", "ref", "null", "table", "canon", "cache", "mgr"})
    ops.operations(ctx, G, n=320 if ctx.thorough else 32, seed0=120001, arms=("overflow",), due=True)
