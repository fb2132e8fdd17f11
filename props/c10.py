"""C10: a cached result is reused only for the same operation and operands."""
from kernels import Finder
import ops
import suite
import caches

SHORT = ("path-partitioned abstract interpretation of LLVM IR; meaning of every cache entry")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. Every cache "
             "access names the operation, association and operands it belongs to; insertions must store exactly that "
             "function, look-ups may return it. The cache itself is then interpreted as it is, with the hash of a key uninterpreted: after "
             "histories of insertion, growth, flushing, collection, relocation and late resolution it may answer only what is still valid.")
NOTE = ("Opaque sub-functions of any size below at most three explicit variables; trusts the table and cache contracts "
        "(C10, C24) and that clang's IR is the program.")


def run(ctx):
    F = Finder(ctx, {"cache"})
    suite.whole(ctx, F)
    suite.step(ctx, F)
    caches.histories(ctx, F)
    ops.operations(ctx, F, n=240 if ctx.thorough else 24, seed0=100001, arms=("", "", "gc", "reorder"))
    ops.operations(ctx, F, n=240 if ctx.thorough else 32, seed0=101001, start=3, kinds=ops.QUANT + ["VarSubstitute"], length=32,
                   around=["again", "again", "free", "build", "assoc", "assocquit", "setassoc", "temp"])
