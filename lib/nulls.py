"""The null diagram in every accepted argument position of every public operation."""
from world import Malformed
from api import Null
from apiops import run, guard
from queries import parts, must, w16, i32, i64, tableone
from wholeops import world, ORD, m_qsort

B, A = "bdd", "array"
# name -> (arguments, expected answer); "d" diagram, "v" variable diagram, "t" opaque pointer, "c" counts array, "s" support array, int literal
NULL, NONE = "null", "none"
OPS = {
    "Cal_BddAnd": ("dd", NULL), "Cal_BddNand": ("dd", NULL), "Cal_BddOr": ("dd", NULL), "Cal_BddNor": ("dd", NULL),
    "Cal_BddXor": ("dd", NULL), "Cal_BddXnor": ("dd", NULL), "Cal_BddITE": ("ddd", NULL),
    "Cal_BddImplies": ("dd", NULL), "Cal_BddIntersects": ("dd", NULL), "Cal_BddCofactor": ("dd", NULL), "Cal_BddReduce": ("dd", NULL),
    "Cal_BddBetween": ("dd", NULL), "Cal_BddCompose": ("dvd", NULL), "Cal_BddSwapVars": ("dvv", NULL),
    "Cal_BddSubstitute": ("d", NULL), "Cal_BddVarSubstitute": ("d", NULL), "Cal_BddExists": ("d", NULL), "Cal_BddForAll": ("d", NULL),
    "Cal_BddRelProd": ("dd", NULL), "Cal_BddSatisfy": ("d", NULL), "Cal_BddSatisfySupport": ("d", NULL),
    "Cal_BddIf": ("d", NULL), "Cal_BddThen": ("d", NULL), "Cal_BddElse": ("d", NULL),
    "Cal_BddSatisfyingFraction": ("d", 0.0), "Cal_BddSupport": ("ds", "support"), "Cal_BddDependsOn": ("dv", 0),
    "Cal_BddGetIfIndex": ("d", "id"), "Cal_BddGetIfId": ("d", "id"), "Cal_BddType": ("d", "type"), "Cal_BddSize": ("d1", 0),
    "Cal_BddProfile": ("dc1", "counts"), "Cal_BddFunctionProfile": ("dc", "counts"), "Cal_BddDumpBdd": ("dat", 0),
    "Cal_BddPrintProfile": ("dtt9t", NONE), "Cal_BddPrintFunctionProfile": ("dtt9t", NONE),
    "Cal_BddIsBddNull": ("d", 1),
}


def nulls(ctx, F, orders=ORD[:1]):
    P = ctx.prog
    over, tmax = P.const("CAL_BDD_TYPE_OVERFLOW", "CAL_BDD_CONST_INDEX")
    for od in orders:
        for name, (sig, exp) in OPS.items():
            pos = [i for i, c in enumerate(sig) if c in "dv"]
            fn = P.fn(name)
            nargs = len(pos)
            for mask in range(1, 1 << nargs):
                for ops in ((1, "a", "b"), "1", "v2"):
                    if not ctx.mine():
                        continue
                    W = world(ctx, order=od)
                    W.warn_ok = True
                    W.association("q", 2, {1: W.F("v2" if name == "Cal_BddVarSubstitute" else "1")})
                    vals, n = [], 0
                    for c in sig:
                        if c in "dv":
                            t = W.F(ops) if c == "d" else W.vt[1 + n % 3]
                            vals.append(0 if mask >> n & 1 else W.U(t))
                            n += 1
                        elif c == "t":
                            vals.append(("p", ("opq", "env"), 0))
                        elif c == "a":
                            vals.append(array(W, "vars", [W.U(W.vt[i]) for i in W.vars] + [0]))
                        elif c in "cs":
                            vals.append(array(W, "out", [("s", ("unset", i)) for i in range(8)]))
                        else:
                            vals.append(int(c) if c != "9" else 79)
                    ai = W.full_ai(dict(tableone(W), qsort=m_qsort, **printers()))

                    def check(s):
                        r = s.retval

                        def value():
                            out = ("arr", "out")
                            if exp == NULL:
                                bad = r != 0
                            elif exp == NONE:
                                bad = False
                            elif exp == "id":
                                bad = w16(r) != 0xffff
                            elif exp == "type":
                                bad = i32(r) != over
                            elif exp == "support":
                                bad = s.mem[(out, 0)][0] != 0
                            elif exp == "counts":
                                bad = any(s.mem[(out, 8 * i)][0] not in (0, ("s", ("unset", i))) for i in range(8))
                            elif isinstance(exp, float):
                                bad = not (isinstance(r, tuple) and r[0] == "f" and r[1] == exp)
                            else:
                                bad = (i64(r) if name == "Cal_BddSize" else i32(r)) != exp
                            if bad:
                                raise Null("the null diagram as an argument gives %s instead of the documented neutral answer" % (r,))
                            if s.d.get("printed"):
                                raise Null("output is written for the null diagram")
                        guard(F, W, s, parts(W, s, value))
                    where = "null in position(s) %s" % [i for i in range(nargs) if mask >> i & 1]
                    run(ctx, F, W, ai, fn, W.pack(fn, [("p", W.M, 0)] + vals), check, where, "null")


def array(W, nm, vals):
    o = ("arr", nm)
    for i, v in enumerate(vals):
        W.put(o, 8 * i, v, 8)
    return ("p", o, 0)


def printers():
    def out(ai, st, a):
        st.d = dict(st.d)
        st.d["printed"] = 1
        return 0
    return {k: out for k in ("fprintf", "fputc", "fputs", "fwrite", "putc", "printf", "puts", "_IO_putc")}
