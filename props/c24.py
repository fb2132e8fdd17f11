"""C24: lookup tables find exactly what was inserted, before and after growth."""
from kernels import Finder
import tables
import caches

SHORT = "abstract interpretation of LLVM IR over concrete chains with an uninterpreted hash function"
TECHNIQUE = ("Abstract interpretation of every table function on LLVM IR. Tables, bins, chains, packed reference counts and free lists are "
             "interpreted as they are; node addresses are opaque, and the hash of a key is an uninterpreted function whose values "
             "(per number of bins) are enumerated. Histories of insertion, look-up, removal, move, growth, emptying and closing are "
             "compared after every step with a map from keys to entries, on every path.")
NOTE = ("Histories of up to about 40 steps over 8 keys with up to 3 (quick) or 4 (thorough) independent bins before and after growth, and "
        "starting capacities 1, 2, 3 and 9; chains of any shape these produce. Shrinking below the default size is not reachable.")


def run(ctx):
    F = Finder(ctx, {"table", "leak", "oob"})
    tables.twokey(ctx, F)
    tables.onekey(ctx, F)
    tables.threekey(ctx, F)
    tables.cleanup(ctx, F)
    caches.histories(ctx, F)
    caches.lifetime(ctx, F)
