"""C17: dump and restore report every failure."""
from kernels import Finder
import dumps

SHORT = ("path-partitioned abstract interpretation of LLVM IR; every truncation, malformed entry and failing write")
TECHNIQUE = ("Path-partitioned abstract interpretation of the dump writer with a write failing at every chosen position and of "
             "the reader on files truncated at every position, with damaged headers, wrong variable lists and malformed bodies: "
             "the documented error must be reported, no diagram returned, no access may leave its object, and every user "
             "handle, reference and allocation taken on the way must be given back.")
NOTE = ("Bounded: six functions of three variables, each byte position of their files, hand-made malformed bodies. Trusts "
        "table, cache and user-handle contracts and the C library models.")


def run(ctx):
    F = Finder(ctx, {"io", "oob", "null", "own", "leak", "ref", "list", "den", "stale", "mark"})
    dumps.failures(ctx, F)
    dumps.subsets(ctx, F)
