"""C04: equal functions always have the same representation."""
from kernels import Finder
import ops
import history
import reorder
import suite

SHORT = ("path-partitioned abstract interpretation of LLVM IR; node creation discipline")
TECHNIQUE = ("Path-partitioned abstract interpretation of every function that creates diagram nodes and of whole operations; "
             "a node may enter a unique table only after a failed look-up of the same branches, with distinct branches, a "
             "plain positive branch and branches whose variables lie below.")
NOTE = ("Trusts the look-up contract of the tables (C24).")


def run(ctx):
    F = Finder(ctx, {"canon"})
    suite.step(ctx, F)
    suite.flat(ctx, F)
    suite.whole(ctx, F)
    G = Finder(ctx, {"canon"})
    history.mixed(ctx, G, n=200 if ctx.thorough else 16, seed0=11001, steps=["build", "build", "free", "gc", "repack", "reorder", "var"], realpages=True)
    ops.operations(ctx, G, n=160 if ctx.thorough else 16, seed0=40001, arms=("", "", "gc", "repack", "reorder"))
