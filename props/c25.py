"""C25: pipelined execution gives the same results as direct calls."""
from kernels import Finder
import pipes

SHORT = "abstract interpretation of whole managers on LLVM IR with opaque addresses and an uninterpreted hash"
TECHNIQUE = ("Abstract interpretation on LLVM IR of whole managers: pipelines are created, executed, updated and ended on the abstract heap (opaque "
             "node addresses, uninterpreted hash, poisoned released memory). Each updated result must be the function the direct operation gives "
             "on the same operands, also with provisional and complemented operands, several execution depths, and collections, repacking, "
             "reordering, new variables or a node-limit overflow in between. Calls out of turn must be refused without effect, stages stay within "
             "the list, and at the end every reference, request node and allocation is accounted for.")
NOTE = ("Bounded family of pipelines, not all: 4 (up to 6) variables, up to 9 requests per pipeline, chains up to the maximum of stages; two hash "
        "assignments, both address orders. Operands are held by the user until the execution. Trusts clang's IR.")


def run(ctx):
    F = Finder(ctx, {"den", "canon", "ref", "table", "dead", "leak", "oob", "null", "mgr", "move", "cache", "order", "mark", "stale", "cover"})
    n = 400 if ctx.thorough else 24
    pipes.states(ctx, F)
    pipes.deep(ctx, F)
    pipes.pipeline(ctx, F, n=2 * n)
    pipes.pipeline(ctx, F, n=n, seed0=1001, inner=("gc", "repack", "reorder", "overflow"))
    pipes.pipeline(ctx, F, n=n, seed0=2001, middle=("gc", "reorder", "var"), inner=("", "reorder"))
    pipes.pipeline(ctx, F, n=n, seed0=3001, middle=("repack",), inner=("repack", "reorder"), realpages=False, meths=(0,))
