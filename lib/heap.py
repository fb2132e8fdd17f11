"""Concrete heap shapes with opaque addresses: real tables, bins and chains, and an uninterpreted hash function.

An expression that scales a sum of node addresses down and reduces it modulo the number of bins is a hash value.
Its outcome is unknown but a function of the addresses and of the number of bins; each distinct such expression
gets one bin of an enumerated assignment."""
from ir import AnalysisBroken
from world import Malformed, packref, addbits, getref
from bddw import HW, HInterp, rank
from ai import lin, mklin, sgn
from api import API, Leak

NODE = 32


class Tab(Malformed):
    tag = "table"


def align(v):
    """sum of node addresses -> (canonical sum of aligned addresses, constant)"""
    l = lin(v)
    if l is None:
        return None
    c, out = l[0], {}
    for t, k in l[1]:
        if isinstance(t, tuple) and t[0] == "p" and isinstance(t[2], int):
            c += k * t[2]
            t = ("p", t[1], 0)
        out[t] = out.get(t, 0) + k
    return mklin(0, out.items()), c


class HashInterp(HInterp):
    digits = ((0,),)

    def binop(self, st, op, a, b, w, *more):
        if isinstance(b, int) and b and not isinstance(a, int) and a is not None:
            r = self.hashop(st, op, a, b, w)
            if r is not None:
                return r
        return HInterp.binop(self, st, op, a, b, w, *more)

    def hashop(self, st, op, a, b, w):
        if op in ("udiv", "lshr", "sdiv", "ashr"):
            d = b if op in ("udiv", "sdiv") else 1 << b
            if d <= 1 or not self.pointery(a):
                return None
            r = align(a)
            if r is None or isinstance(r[0], int):
                return None
            # every aligned address is a multiple of the node size
            q, c = r
            if d <= NODE and d & (d - 1) == 0:
                return mklin(c // d, [(("t", "udiv", q, d), 1)])
            return None
        if op in ("urem", "srem", "and"):
            n = b if op != "and" else b + 1
            if op == "and" and (b & (b + 1) or b < 2 or self.isptr(a)):
                return None
            l = lin(a)
            if l is None:
                if not self.scaled(a):
                    return None
                l = (0, ((a, 1),))
            if not any(self.scaled(t) for t, k in l[1]):
                return None
            return (self.oracle(st, l[1], n) + l[0]) % n
        return None

    def isptr(self, a):
        return isinstance(a, tuple) and a[0] == "p"

    def pointery(self, a):
        l = lin(a)
        return l is not None and any(isinstance(t, tuple) and t[0] == "p" for t, k in l[1])

    def scaled(self, t):
        if not isinstance(t, tuple):
            return False
        if t[0] == "t" and t[1] == "udiv":
            return True
        return t[0] in ("t", "l") and any(self.scaled(x) for x in t[1:] if isinstance(x, tuple)) or \
            (t and isinstance(t[0], tuple) and any(self.scaled(x) for x in t if isinstance(x, tuple)))

    def oracle(self, st, terms, n):
        key = (repr(terms), n)
        h = st.d.get("hash", {})
        if key not in h:
            st.d = dict(st.d)
            st.d["hash"] = h = dict(h)
            k = sum(1 for x in h if x[1] == n)
            sizes = []
            for x in h:
                if x[1] not in sizes:
                    sizes.append(x[1])
            if n not in sizes:
                sizes.append(n)
            dg = self.digits[sizes.index(n) % len(self.digits)]
            d = dg[k % len(dg)]
            h[key] = [0, 1, n - 1, n // 2][d] % n
        return h[key]


class HeapW(API):
    """world whose tables are real"""

    def heap(self, digits=((0,),), models=None, **kw):
        m = {"malloc": self.m_malloc, "calloc": self.m_calloc, "free": self.m_free, "realloc": self.m_realloc,
             "CalBddWarningMessage": self.m_warn, "CalBddFatalMessage": self.m_fatal,
             "CalPageManagerAllocPage": lambda ai, st, a: ("p", ("page", st.fresh()), 0)}
        if models:
            m.update(models)
        ai = HashInterp(self.p, m, **kw)
        ai.W = self
        ai.call_name = None
        ai.hooks["nm"] = self.nmhook
        ai.hooks["fr"] = self.frhook
        ai.digits = digits
        if self.addr is not None:
            ai.ordhook = lambda st, a, b: (rank(a) < rank(b)) != bool(self.addr)
        ai.on_load = self.on_load
        return ai

    def realtable(self, o, id, sizeindex=2, cap=2, nbins=None):
        """an empty table with few bins"""
        n = nbins or 1 << sizeindex
        T = "CalHashTableStruct"
        b = ("h", "bins0")
        self.st.objs[b] = ("alloc", "the caller", 8 * n)
        self.field(o, T, "numBins", n)
        self.field(o, T, "sizeIndex", sizeindex)
        self.field(o, T, "maxCapacity", cap)
        self.field(o, T, "numEntries", 0)
        self.field(o, T, "bins", ("p", b, 0))
        for i in range(n):
            self.put(b, 8 * i, 0, 8)
        return b


def again(s):
    """continue a finished path with another call"""
    s.frames, s.top, s.status = (), None, None
    s.retval = None
    return s
