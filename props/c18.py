"""C18: C++ objects manage references and delegate faithfully."""
from kernels import Finder
import cxx

SHORT = "abstract interpretation on LLVM IR of the C++ interface together with the C library, on whole managers"
TECHNIQUE = ("Abstract interpretation on LLVM IR of src/calObj.hh, compiled with one small driver per public member, together with the C library on "
             "abstract whole managers. After every construction, copy, move, assignment, destruction and operation each user diagram must count "
             "exactly the objects that hold it; every member must give the function its name says, or what the C function of the same meaning gives, "
             "leaves behind or prints when it is interpreted from the same state; lists must end with a null, be released again and cost no reference; "
             "memory taken by new and malloc must be released.")
NOTE = ("Bounded family of operands and object histories over 4 variables (random functions, aliased and null operands, current and temporary "
        "associations), vector and list containers; ToString and default output streams are not covered. Trusts clang's IR and the container "
        "templates of libstdc++ as compiled (exceptions off).")
LOAD = cxx.program


def run(ctx):
    F = Finder(ctx, {"own", "arg", "den", "canon", "ref", "table", "dead", "leak", "oob", "null", "mgr", "move", "cache", "order", "mark", "stale",
                     "cover", "uninit"})
    n = 120 if ctx.thorough else 10
    cxx.managers(ctx, F, n=24 if ctx.thorough else 8)
    cxx.lists(ctx, F, n=2 * n)
    cxx.members(ctx, F, n=n)
    cxx.numbers(ctx, F, n=n)
    cxx.inplace(ctx, F, n=3 * n)
    ctx.need("members", 450)
    ctx.need("delegation", 450)
    ctx.need("lists", 350)
    ctx.need("assignments", 400)
