"""C22: substitution, composition and variable exchange follow their identities."""
from kernels import Finder
import ops
import wholeops

SHORT = ("path-partitioned abstract interpretation of LLVM IR of composition, substitution and exchange")
TECHNIQUE = ("Path-partitioned abstract interpretation of the public operations from entry to return. Diagrams are abstract: "
             "opaque functions under up to three ordered variables (every order of them in the thorough tier), tables, cache "
             "and user handles follow contracts, request queues and node fields are interpreted as they are. Composition, "
             "simultaneous substitution, variable-for-variable substitution and exchange, all relative orders of the "
             "variables involved.")
NOTE = ("Opaque sub-functions of any size below at most three explicit variables; trusts the table and cache contracts "
        "(C10, C24) and that clang's IR is the program.")


def run(ctx):
    F = Finder(ctx, {"den", "canon", "cache", "assoc"})
    wholeops.compose(ctx, F, wholeops.ORD)
    wholeops.substitute(ctx, F, wholeops.ORD)
    wholeops.varsubstitute(ctx, F, orders=wholeops.ORD)
    wholeops.swapvars(ctx, F, wholeops.ORD)
    ops.operations(ctx, F, n=320 if ctx.thorough else 32, seed0=220001, kinds=ops.SUBST, around=["build", "build", "free", "assoc", "assoc", "assocquit", "temp", "setassoc", "setassoc", "gc", "reorder", "var"])
    ops.operations(ctx, F, n=200 if ctx.thorough else 16, seed0=221001, kinds=["VarSubstitute"], length=26, around=["build", "build", "free"])
    ctx.need("compose", 500)
    ctx.need("substitute", 500)
    ctx.need("swap", 100)
