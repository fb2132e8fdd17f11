"""Dumping and reading back: round trips through an abstract file, malformed and truncated files, failing writes."""
import os
from ir import AnalysisBroken
from world import Malformed
from canon import CW
from api import Own, Leak, Over
from apiops import run, guard
from queries import parts, must, i32, tableone
from wholeops import world, fun3, ORD, KS
from nulls import array

EOF = 0xffffffff


class Io(Malformed):
    tag = "io"


def emit(W, fail):
    """models of the output functions; the fail-th byte (0-based) and all later ones are not accepted, -1: only the flush fails"""
    def put(st, c):
        if not isinstance(c, int):
            raise Malformed("a byte that does not depend on the diagram alone is written")
        n = len(st.d.get("out", ()))
        st.d = dict(st.d)
        if fail is not None and fail >= 0 and n >= fail:
            st.d["ioerr"] = 1
            return EOF
        st.d["out"] = st.d.get("out", ()) + (c & 0xff,)
        return c & 0xff

    def fputc(ai, st, a):
        return put(st, a[0])

    def fwrite(ai, st, a):
        n = 0
        for i in range(a[2]):
            for j in range(a[1]):
                if put(st, ai.read(st, a[0][1], a[0][2] + i * a[1] + j, 1)) == EOF:
                    return n
            n += 1
        return n

    def flush(ai, st, a):
        if fail == -1:
            st.d = dict(st.d)
            st.d["ioerr"] = 1
        return EOF if st.d.get("ioerr") else 0

    def ferror(ai, st, a):
        return st.d.get("ioerr", 0)
    return {"fputc": fputc, "putc": fputc, "_IO_putc": fputc, "fwrite": fwrite, "fflush": flush, "ferror": ferror}


def absorb(W, data, ioerr=False):
    def get(st):
        k = st.d.get("pos", 0)
        st.d = dict(st.d)
        if k >= len(data):
            st.d["ioend"] = 1
            return EOF
        st.d["pos"] = k + 1
        return data[k]

    def fgetc(ai, st, a):
        return get(st)

    def fread(ai, st, a):
        for i in range(a[2]):
            for j in range(a[1]):
                c = get(st)
                if c == EOF:
                    return i
                ai.write(st, a[0][1], a[0][2] + i * a[1] + j, c, 1)
        return a[2]

    def ferror(ai, st, a):
        return 1 if ioerr and st.d.get("ioend") else 0

    def feof(ai, st, a):
        return 1 if st.d.get("ioend") and not ioerr else 0
    return {"fgetc": fgetc, "getc": fgetc, "_IO_getc": fgetc, "fread": fread, "ferror": ferror, "feof": feof}


FP = ("p", ("opq", "fp"), 0)


class DW(CW):
    """canonical world that may have many additional variables the dumped diagram does not mention"""
    def __init__(self, *a, **kw):
        self.extra = {}
        CW.__init__(self, *a, **kw)
        self.rearm = False
        self.warn_ok = True

    def idof_index(self, id):
        self.put(("arr", "i2i"), 2 * id, self.index[id], 2)

    def more(self, n):
        """n additional variables; the order tables are extended"""
        N = self.N
        out = []
        od = dict(self.index)
        od.pop(0, None)
        base = max(od) + 1
        for k in range(n):
            od[base + k] = len(od)
        self.setorder(od)
        self.mfield("numVars", len(od))
        for k in range(n):
            id = base + k
            nd, o = ("x", "n%d" % k), ("u", "x%d" % k)
            self.mk(nd, self.h("1"), self.h("0"), 255)
            self.mk(o, (id, ("p", nd, 0)), self.h("1"), 3)
            self.extra[o] = (id, ("p", nd, 0))
            out.append(("p", o, 0))
        return out

    def m_internal(self, ai, st, args):
        p = args[1]
        if isinstance(p, tuple) and p[0] == "p" and p[1] in self.extra and p[2] == 0:
            return ("struct", self.extra[p[1]])
        return CW.m_internal(self, ai, st, args)

    def m_pre(self, ai, st, args):
        a = [x for x in args[2:] if not (isinstance(x, tuple) and x[0] == "p" and x[1] in self.extra)]
        if len(a) != len(args) - 2 and args[1] == len(args) - 2:
            return CW.m_pre(self, ai, st, [args[0], len(a)] + a)
        return CW.m_pre(self, ai, st, args)


def dworld(ctx, order=None, n=3, **kw):
    W = DW(ctx.prog, "a", order or ORD[0], **kw)
    W.over = getattr(ctx, "over", "never")
    return W


def vararray(W, seq, xs, name):
    return array(W, name, [W.U(W.vt[i]) if i > 0 else xs[-i - 1] for i in seq] + [0])


def write(ctx, F, order, t, seq, more=0, fail=None, addr=0, expect=1, where="", check=None, incomplete=False):
    """analyse the writer; returns the bytes it produced on the (single) path"""
    fn = ctx.prog.fn("Cal_BddDumpBdd")
    W = dworld(ctx, order, addr=addr)
    xs = W.more(more) if more else []
    tt = t(W)
    arr = vararray(W, seq, xs, "vars")
    ai = W.full_ai(dict(tableone(W), **emit(W, fail)))
    ai.maxsteps = 4000000
    ai.maxrec = 40
    got = []

    def chk(s):
        def value():
            r = i32(s.retval)
            if expect == 0 and r != 0:
                raise Io("success is reported although %s" % ("the write fails" if fail is not None else "the variables given are not acceptable"))
            if expect and r == 0:
                raise Io("the writer reports a failure although nothing failed")
            if expect == 0 and fail is None and s.d.get("out"):
                raise Io("something is written although the variables given are not acceptable")
            if s.d.get("tone"):
                raise Leak("a temporary table is not released")
        guard(F, W, s, parts(W, s, value))
        got.append(s.d.get("out", ()))
    run(ctx, F, W, ai, fn, W.pack(fn, [("p", W.M, 0), W.U(tt), arr, FP]), chk, where, "dump")
    return list(got[0]) if len(got) == 1 else None


def read(ctx, F, order, data, seq, more=0, ioerr=False, expect=None, code=0, where="", addr=0, codes=None):
    """analyse the reader on a file; expect(W) gives the function, None a failure with the error code"""
    P = ctx.prog
    fn = P.fn("Cal_BddUndumpBdd")
    W = dworld(ctx, order, addr=addr, itemode="node")
    xs = W.more(more) if more else []
    arr = vararray(W, seq, xs, "vars")
    W.put(("arr", "err"), 0, ("s", ("unset", "err")), 4)
    ai = W.full_ai(dict(tableone(W), **absorb(W, data, ioerr)))
    ai.maxsteps = 4000000
    ai.maxrec = 60

    def chk(s):
        e = s.mem[(("arr", "err"), 0)][0]
        p = s.retval

        def value():
            if s.d.get("over"):
                return
            if expect is None:
                if p != 0:
                    raise Io("a diagram is returned for a file that cannot be read back")
                if codes and e not in codes:
                    raise Io("error code %s is reported instead of %s" % (e, " or ".join(map(str, codes))))
                return
            if p == 0:
                raise Malformed("a well-formed file is rejected (error %s)" % (e,))
            if e != 0:
                raise Io("an error is reported together with a diagram")
            must(W.uden(s, p) == expect(W), "the diagram read back is not the one that was dumped")

        def over():
            if s.d.get("over"):
                if p != 0:
                    raise Over("a diagram is returned although the node limit was exceeded")
                if e != P.const("CAL_BDD_UNDUMP_OVERFLOW"):
                    raise Over("the overflow is not reported")
        guard(F, W, s, parts(W, s, value, [p] if p != 0 else []) + [over])
    run(ctx, F, W, ai, fn, W.pack(fn, [("p", W.M, 0), arr, FP, ("p", ("arr", "err"), 0)]), chk, where, "undump")


SEQS = [(1, 2, 3), (3, 1, 2), (2, 3, 1)]


def roundtrip(ctx, F, orders=ORD):
    P = ctx.prog
    for n, od in enumerate(orders):
        for m, k in enumerate(range(256) if ctx.thorough else KS):
            if not ctx.mine():
                continue
            seq = SEQS[(n + m) % 3]
            for seq2 in (seq, SEQS[(n + m + 1) % 3]):
                where = "order %s, truth table %#x, variables %s, read back with %s" % (od, k, seq, seq2)
                data = write(ctx, F, od, lambda W: fun3(W, k), seq, where=where, addr=m & 1)
                if data is None:
                    continue
                # variable seq[i] of the writer is variable seq2[i] of the reader
                read(ctx, F, orders[-1 - n], data, seq2, where=where, addr=m & 1,
                     expect=lambda W: W.subst(fun3(W, k), {a: W.vt[b] for a, b in zip(seq, seq2)}))


def subsets(ctx, F, orders=ORD):
    """fewer or more variables than the diagram has"""
    for od in orders[:2]:
        for k in (0x88, 0xaa, 0x96, 0xf0, 0xff, 0x00, 0x55):
            for seq in ((1,), (2, 1), (3, 2, 1), (), (1, 2, -1), (-2, 2, -1, 1), (1, 1), (2, 3, 2)):
                if not ctx.mine():
                    continue
                W0 = dworld(ctx, od)
                t0 = fun3(W0, k)
                dup = len(set(seq)) != len(seq)
                ok = not dup and all(i in seq for i in W0.vars if W0.dep(t0, i))
                where = "order %s, truth table %#x, variables %s" % (od, k, seq)
                data = write(ctx, F, od, lambda W: fun3(W, k), seq, more=2, expect=int(ok), where=where)
                if ok and data is not None:
                    read(ctx, F, od, data, seq, more=2, where=where, expect=lambda W: fun3(W, k))


def wide(ctx, F):
    """numbers of variables around the limits of one byte"""
    for nv in (252, 253, 254, 255, 256, 257, 300):
        for k in (0x96, 0xca, 0x08):
            if not ctx.mine():
                continue
            seq = tuple(-i - 1 for i in range(nv - 3))
            seq = (1,) + seq + (3, 2) if k != 0x08 else seq[:7] + (2, 3) + seq[7:] + (1,)
            where = "%d variables, truth table %#x" % (nv, k)
            data = write(ctx, F, ORD[3], lambda W: fun3(W, k), seq, more=nv - 3, where=where)
            if data is not None:
                read(ctx, F, ORD[3], data, seq, more=nv - 3, where=where, expect=lambda W: fun3(W, k))


BIG = {i: i - 1 for i in range(1, 14)}


def bigfun(W, m):
    """a function with about m shared nodes: nine variables select among subfunctions of four others, each selected twice"""
    g = []
    x = 12345
    for i in range(256):
        t = 0
        while True:
            x = (x * 1103515245 + 12345) & 0x7fffffff
            c = x >> 8 & 0xffff
            if c not in g and c ^ 0xffff not in g:
                g.append(c)
                break

    def sub(c):
        def rec(c, n):
            if n == 0:
                return W.full if c & 1 else 0
            h = 1 << (n - 1)
            return W.ite(W.vt[14 - n], rec(c & (1 << h) - 1, n - 1), rec(c >> h, n - 1))
        return rec(c, 4)
    lo = [sub(c) for c in g]
    slots = lo[:] + [lo[(i * 5 + 3) & 255] if (i * 5 + 3) & 255 < m else (0 if i & 1 else W.vt[13]) for i in range(256)]

    def tree(a, i):
        if len(a) == 1:
            return a[0]
        h = len(a) // 2
        return W.ite(W.vt[i], tree(a[:h], i + 1), tree(a[h:], i + 1))
    return tree(slots, 1)


def nshared(W, t):
    """number of nodes with two or more parents, projections and constants excepted"""
    n, seen = {}, set()
    r = lambda t: W.neg(t) if W.phase(t) else t

    def visit(t):
        t = r(t)
        if t in (W.full, 0):
            return
        i = W.topvar(t)
        if t == W.vt[i]:
            return
        n[t] = n.get(t, 0) + 1
        if t in seen:
            return
        seen.add(t)
        for v in (1, 0):
            visit(W.restrict(t, W.vbit[i], v))
    visit(t)
    return sum(1 for v in n.values() if v > 1)


def numbers(ctx, F):
    """numbers of shared nodes around the limits of one byte"""
    for n in (255, 256, 257, 300) if ctx.thorough else (256, 257):
        if not ctx.mine():
            continue
        W = dworld(ctx, BIG)
        for m in list(range(n - 112, n - 80)) + list(range(255, 0, -1)):
            t = bigfun(W, m)
            got = nshared(W, t)
            if got == n:
                break
        else:
            raise AnalysisBroken("no function with %d shared nodes" % n)
        seq = tuple(range(13, 0, -1))
        where = "%d shared nodes" % n
        data = write(ctx, F, BIG, lambda W: t, seq, where=where)
        if data is None:
            continue
        read(ctx, F, BIG, data, seq, where=where, expect=lambda W: t)


def failures(ctx, F, orders=ORD):
    P = ctx.prog
    FORMAT, IOERR, END = P.const("CAL_BDD_UNDUMP_FORMAT", "CAL_BDD_UNDUMP_IOERROR", "CAL_BDD_UNDUMP_EOF")
    for k in (0x96, 0xca, 0x80, 0xaa, 0xff, 0x1b):
        od, seq = ORD[2], (2, 1, 3)
        if not ctx.mine():
            continue
        data = write(ctx, F, od, lambda W: fun3(W, k), seq, where="truth table %#x" % k)
        if data is None:
            continue
        # failing writes
        for at in sorted({-1, 0, 1, 7, 9, 10, 17, 18, 19, len(data) // 2, len(data) - 1}):
            write(ctx, F, od, lambda W: fun3(W, k), seq, fail=at, expect=0, where="truth table %#x, write fails at byte %d" % (k, at))
        # truncation
        for n in range(len(data)):
            for e in (False, True):
                if e and n % 3:
                    continue
                read(ctx, F, od, data[:n], seq, ioerr=e, codes=[IOERR if e else END],
                     where="truth table %#x, file %s after %d of %d bytes" % (k, "unreadable" if e else "ends", n, len(data)))
        rd = lambda d, w, codes=None, seq=seq, more=0: read(ctx, F, od, d, seq, more=more, codes=codes or [FORMAT], where="truth table %#x, %s" % (k, w))
        for i in range(8):
            rd(data[:i] + [data[i] ^ 0x40] + data[i + 1:], "wrong identification (byte %d)" % i)
        rd(data, "fewer variables than written", seq=(2, 1))
        rd(data, "more variables than written", seq=(2, 1, 3, -1), more=1)
        # a negative number of shared nodes, and numbers that do not match the body
        rd(data[:10] + [0xff] * 8 + data[18:], "negative number of shared nodes")
        ns = int.from_bytes(bytes(data[10:18]), "big")
        num = lambda x: data[:10] + list(x.to_bytes(8, "big")) + data[18:]
        rd(num(ns + 1), "one shared node too many announced")
        if ns:
            rd(num(ns - 1), "one shared node too few announced")
            rd(num(0), "no shared nodes announced")
        # bodies that do not follow the format
        head = lambda n: data[:10] + list(n.to_bytes(8, "big"))
        T, Z = [0xff, 0], [0xff, 1]
        for body, w, n in (([0xff, 9], "unknown tag", 0), ([0xff, 0xff], "unknown tag", 0), ([3] + T + Z, "variable index too large", 0),
                           ([0xfe] + T + Z, "variable index too large", 0), ([0xff, 2, 3], "variable index too large", 0),
                           ([0xff, 3, 200], "variable index too large", 0), ([0xff, 4, 0], "reference to a shared node that was not read", 1),
                           ([0xff, 5, 1, 0], "reference to a shared node that does not exist", 1),
                           ([0, 0xff, 6, 1] + T + Z + [0xff, 4, 1], "reference beyond the shared nodes", 1),
                           ([0xff, 6, 0, 0xff, 6, 1] + T + Z + T, "more labels than announced", 1),
                           ([0xff, 6, 0, 0xff, 4, 0] + T, "reference to a shared node inside itself", 1),
                           ([0, 0xff, 9] + T, "unknown tag below a node", 0), ([0] + T + [0xff, 9], "unknown tag in a negative branch", 0),
                           ([0, 0xff, 6, 1] + T + Z + [0xff, 8], "unknown tag after a label", 1),
                           ([0xff, 6, 0xff, 9], "label of an unknown tag", 1)):
            rd(head(n) + body, w)
        rd(head(0) + [0xff, 7] + [0] * 16, "multi-terminal constant", codes=[FORMAT, P.const("CAL_BDD_UNDUMP_OVERFLOW")])
        # well-formed bodies
        for body, ex, n in ((T, lambda W: W.full, 0), (Z, lambda W: 0, 0), ([0xff, 2, 1], lambda W: W.vt[1], 0), ([0xff, 3, 2], lambda W: W.neg(W.vt[3]), 0),
                            ([0, 0xff, 6, 2] + T + Z + [0xff, 5, 0], lambda W: W.ite(W.vt[2], W.vt[3], W.neg(W.vt[3])), 1),
                            ([0, 0xff, 6, 1] + [0xff, 2, 2] + Z + [1, 0xff, 4, 0] + T, lambda W: W.ite(W.vt[2], W.vt[1] & W.vt[3], W.ite(W.vt[1], W.vt[1] & W.vt[3], W.full)), 1)):
            read(ctx, F, od, head(n) + body, seq, expect=ex, where="hand-made file %s" % (body,))


def callees(P, f, depth=1):
    """the static functions of the file a function calls (through at most `depth` others)"""
    r, todo = {}, [(f, depth)]
    while todo:
        f, d = todo.pop()
        for i in f.instrs():
            if i.op == "call" and isinstance(i.x, tuple) and i.x[0] == "g":
                g = P.fn(i.x[1], required=False, file="calDump.c")
                if g is not None and g.static and g.key not in r and os.path.basename(g.file) == "calDump.c":
                    r[g.key] = g
                    if d:
                        todo.append((g, d - 1))
                elif i.x[1] in IO:
                    r[i.x[1]] = None
    return r


IO = ("fputc", "putc", "fwrite", "fgetc", "getc", "fread", "_IO_putc", "_IO_getc")


def encodings(ctx, F):
    """the helpers that write, read and measure numbers, found by their signatures: numbers of every width up to eight bytes survive,
    and the width chosen for n numbers has room for n of them"""
    P = ctx.prog
    W0, R0, B0 = [], [], []
    out, inp = (callees(P, P.fn(n), 0) for n in ("Cal_BddDumpBdd", "Cal_BddUndumpBdd"))
    for f in {k: f for d in (out, inp) for k, f in d.items() if f is not None}.values():
        sig = [(t.k, t.n if t.k == "i" else 0) for t, _, _ in f.params]
        ints = [s for s in sig if s[0] == "i"]
        io = set(IO) & set(callees(P, f, 2))
        if sig == [("i", 64)] and f.ret.k == "i" and not io and f.key in out and f.key in inp:
            B0.append(f)
        elif sorted(ints) == [("i", 32), ("i", 64)] and io and f.key in out and f.key not in inp:
            W0.append(f)
        elif ints == [("i", 32)] and f.ret.k == "i" and f.ret.n == 64 and io and f.key in inp and f.key not in out:
            R0.append(f)
    rule = "encoding"
    if len(B0) == 1 and ctx.mine():
        for n in sorted({max(0, 256 ** k + d) for k in range(5) for d in (-2, -1, 0, 1, 2)} | {3, 1000, 70000, 20000000}):
            if n > 1 << 32:
                continue
            W = dworld(ctx)
            ai = W.full_ai({})

            def chk(s, n=n):
                r = i32(s.retval)
                if not (isinstance(r, int) and 1 <= r <= 8 and 256 ** r >= n):
                    raise Io("%s bytes are chosen for numbers below %d" % (r, n))
            run(ctx, F, W, ai, B0[0], [n], chk, "%d numbers" % n, rule)
    if len(W0) == 1 and len(R0) == 1:
        for b in range(1, 9):
            for n in (0, 1, 0x80, 0xfe, 0x1234, 0x10000, 0x81fe02, 0x7fffff, 0x1020304, 0xfedcba98, 0x1122334455667788):
                if not ctx.mine():
                    continue
                n &= 256 ** b - 1
                out = []
                W = dworld(ctx)
                W.put(("arr", "err"), 0, 0, 4)
                ai = W.full_ai(dict(emit(W, None)))

                def arg(f):
                    a = []
                    for t, _, _ in f.params:
                        a.append(n if t.k == "i" and t.n == 64 else b if t.k == "i" else ("p", ("arr", "err"), 0))
                    return a
                run(ctx, F, W, ai, W0[0], arg(W0[0]), lambda s: out.append(s.d.get("out", ())), "%#x in %d bytes" % (n, b), rule)
                if len(out) != 1:
                    continue
                W = dworld(ctx)
                W.put(("arr", "err"), 0, 0, 4)
                ai = W.full_ai(dict(absorb(W, list(out[0]))))

                def chk(s):
                    if len(out[0]) != b:
                        raise Io("%d bytes are written for a number of %d" % (len(out[0]), b))
                    r = s.retval
                    if r != n or s.mem[(("arr", "err"), 0)][0] != 0:
                        raise Io("%#x written in %d bytes is read back as %s" % (n, b, hex(r) if isinstance(r, int) else r))
                run(ctx, F, W, ai, R0[0], arg(R0[0]), chk, "%#x in %d bytes" % (n, b), rule)
