"""C29: a variable association is exactly what it was given until its last user releases it."""
from kernels import Finder
import ops
import history

SHORT = "abstract interpretation of whole managers on LLVM IR with opaque addresses; associations compared with what was given"
TECHNIQUE = ("Abstract interpretation on LLVM IR of whole managers (opaque node addresses, uninterpreted hash): after every step of a history of "
             "creating, sharing, releasing, setting and augmenting associations, mixed with collections, repackings, reorderings and new variables, the "
             "associations in the abstract heap, the one in force and the returned identifiers are compared with what the calls were given.")
NOTE = ("Bounded families of histories over at most 6 variables, functions as truth tables; within a history every instruction of the library is "
        "interpreted. Trusts clang's IR.")


def run(ctx):
    F = Finder(ctx, {"assoc", "kept", "ref", "order", "oob", "null", "dead"})
    st = ["build", "free", "assoc", "assoc", "assocquit", "temp", "temp", "setassoc"]
    history.mixed(ctx, F, n=400 if ctx.thorough else 64, length=28, seed0=290001, steps=st, realpages=True, rule="associations")
    history.mixed(ctx, F, n=400 if ctx.thorough else 64, length=24, seed0=291001, steps=st + ["var", "gc", "repack", "reorder"], realpages=True,
                  rule="associations and motion")
    ops.operations(ctx, F, n=200 if ctx.thorough else 16, seed0=292001, kinds=ops.QUANT + ops.SUBST + ["SatisfySupport"],
                   around=["build", "free", "again", "again"] + ["assoc", "assocquit", "temp", "setassoc"] * 2 + ["gc", "reorder", "var"])
    ctx.need("association", 1000)
