"""C16: a dumped diagram is read back with the same encoding."""
from kernels import Finder
import dumps

SHORT = ("path-partitioned abstract interpretation of LLVM IR; writer and reader composed through an abstract file")
TECHNIQUE = ("Path-partitioned abstract interpretation of the dump writer from entry to return over abstract diagrams, its "
             "output bytes collected through models of the C library; the reader is interpreted on that file under another "
             "variable order, and what it returns must be the dumped function with the variables renamed as documented. "
             "Families: functions of three variables over every order of them, incomplete and redundant variable lists, "
             "252 to 300 variables (one and two byte indices), 255 to 300 shared nodes (one and two byte node numbers); the helpers for "
             "numbers of one to eight bytes by themselves.")
NOTE = ("Bounded: functions of three of up to 300 variables and one family with 13 variables; three and four byte "
        "encodings are reached in the helpers that write, read and measure numbers only. Trusts table, cache and user-handle contracts and the C library models.")


def run(ctx):
    F = Finder(ctx, {"den", "canon", "mark", "oob", "io", "null", "own"})
    dumps.roundtrip(ctx, F)
    dumps.subsets(ctx, F)
    dumps.wide(ctx, F)
    dumps.numbers(ctx, F)
    dumps.encodings(ctx, F)
