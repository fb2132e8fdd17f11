"""C02: expansion and recombination by the top variable."""
import kernels
from kernels import Finder
import ops

TECHNIQUE = ("Path-partitioned abstract interpretation of the expansion, recombination and driver functions over "
             "parametric diagram worlds (operand shapes x orders x phases), with contracts for table look-ups and "
             "terminal cases; sub-results are compared with Shannon's expansion as truth tables over opaque atoms.")

NOTE = "Each kernel is analysed for arbitrary operand functions (atoms), all operand shapes and phases, several variable orders and a bounded queue shape (generic request plus neighbours). Trusts contracts of terminal cases (C01), tables (C24) and the IR front end; queue length beyond the shapes is covered by the per-request argument only."


def run(ctx):
    F = Finder(ctx, {"den", "null"})
    kernels.apply_binary(ctx, F)
    kernels.reduce_binary(ctx, F)
    kernels.apply_ite(ctx, F)
    kernels.driver_binary(ctx, F)
    kernels.driver_ite(ctx, F)
    ops.operations(ctx, F, n=160 if ctx.thorough else 16, seed0=20001, kinds=ops.LOGIC)
