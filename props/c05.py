"""C05: reference counts of shared nodes account for every parent."""
from kernels import Finder
import ops
import pipes
import history
import reorder
import suite

SHORT = ("path-partitioned abstract interpretation of LLVM IR; edge balance per node")
TECHNIQUE = ("Path-partitioned abstract interpretation of every function that creates or discards nodes and of whole "
             "operations; per path and node, the change of the reference count equals the number of edges gained minus lost, "
             "with saturation kept.")
NOTE = ("Balance is decided per path of each function; all other code is required not to touch the counts of the nodes "
        "it is given.")


def run(ctx):
    F = Finder(ctx, {"ref"})
    suite.step(ctx, F)
    suite.flat(ctx, F)
    suite.whole(ctx, F)
    G = Finder(ctx, {"ref", "dead"})
    history.mixed(ctx, G, n=200 if ctx.thorough else 16, seed0=12001, realpages=True)
    reorder.reorder(ctx, G)
    ops.operations(ctx, G, n=160 if ctx.thorough else 16, seed0=50001, arms=("", "", "gc", "repack", "reorder"))
    st = ["heavy", "heavy", "hold", "drop", "build", "build", "free", "gc", "reorder", "repack"]
    history.mixed(ctx, G, n=200 if ctx.thorough else 16, length=18, seed0=14001, steps=st, realpages=True)
    ops.operations(ctx, G, n=200 if ctx.thorough else 12, seed0=51001, around=st + ["assoc", "setassoc"], kinds=ops.EVERY + ["Identity", "Not", "Var"])
    pipes.pipeline(ctx, G, n=120 if ctx.thorough else 12, seed0=50101, inner=("", "gc", "reorder"))
    history.mixed(ctx, G, n=200 if ctx.thorough else 16, length=28, seed0=52001, steps=["build", "free", "assoc", "assoc", "assocquit", "temp", "temp", "gc", "var"])
    ops.operations(ctx, G, n=200 if ctx.thorough else 16, seed0=53001, kinds=["VarSubstitute"], length=26, around=["build", "build", "free"])
