"""Abstract BDD worlds: the finite abstract domain used for value properties.

A diagram node is an abstract object ('n', name).  Its meaning is an arbitrary
Boolean function, represented parametrically: every opaque leaf function and
every variable is one atom, and a meaning is the truth table over the atoms.
The conclusions therefore hold for every concrete function in place of an atom.
"""
from ir import AnalysisBroken, PTR
from ai import State, Interp, UNDEF


class Malformed(Exception):
    pass


class World:
    """fields of the manager are resolved by name from debug info"""

    def __init__(self, prog, atoms, order=None):
        self.p = prog
        self.atoms = list(atoms)
        self.n = len(self.atoms)
        self.size = 1 << self.n
        self.full = (1 << self.size) - 1
        self.tt = {}           # node name -> tt (regular phase)
        self.id = {}           # node name -> variable id
        self.child = {}        # node name -> (thenH, elseH)
        self.st = State()
        self.B = prog.fields.get("Cal_BddStruct")
        if not self.B:
            raise AnalysisBroken("handle structure not found")
        self.atomtt = {}
        self.M = ("M",)
        self.req = {}          # request object -> tt (meaning of an unresolved request)
        self.off = prog.off
        self.nvars = 0
        self.consts()

    # ---- truth tables
    def atom(self, a):
        r = self.atomtt.get(a)
        if r is None:
            r = self.atomtt[a] = self._atom(a)
        return r

    def _atom(self, a):
        i = self.atoms.index(a)
        # bit j of the table is set iff bit i of j is set
        blk = (1 << (1 << i)) - 1
        period = 1 << (i + 1)
        t = 0
        for s in range(1 << i, self.size, period):
            t |= blk << s
        return t

    def neg(self, t):
        return self.full & ~t

    def ite(self, f, g, h):
        return (f & g) | (self.neg(f) & h)

    # ---- memory set-up
    def put(self, obj, off, v, size):
        self.st.mem[(obj, off)] = (v, size)

    def field(self, obj, struct, name, v, base=0):
        o, s = self.p.fields[struct][name] if name in self.p.fields.get(struct, {}) else (self.p.off(struct, name), 8)
        self.put(obj, base + o, v, s)

    def mfield(self, name, v):
        self.field(self.M, "Cal_BddManagerStruct", name, v)

    def mhandle(self, name, h):
        o = self.p.off("Cal_BddManagerStruct", name)
        self.puthandle(self.M, o, h)

    def puthandle(self, obj, off, h):
        self.put(obj, off + self.B["bddId"][0], h[0], self.B["bddId"][1])
        self.put(obj, off + self.B["bddNode"][0], h[1], 8)

    def consts(self):
        self.tt["one"] = self.full
        self.id["one"] = 0
        self.mhandle("bddOne", (0, ("p", ("n", "one"), 0)))
        self.mhandle("bddZero", (0, ("p", ("n", "one"), 1)))
        self.mhandle("bddNull", (0xFFFF, ("p", ("n", "null"), 0)))
        self.id["null"] = 0xFFFF
        # the constant's node: its branches are the constant itself
        self.setnode("one", (0, ("p", ("n", "one"), 0)), (0, ("p", ("n", "one"), 0)), 255)

    def setorder(self, index_of):
        """index_of: {id: position}"""
        self.index = dict(index_of)
        self.index[0] = 0xFFFF
        self.nvars = max(self.nvars, len(index_of))
        self.mfield("idToIndex", ("p", ("arr", "idToIndex"), 0))
        self.mfield("indexToId", ("p", ("arr", "indexToId"), 0))
        self.put(("arr", "idToIndex"), 0, 0xFFFF, 2)
        for i, ix in index_of.items():
            self.put(("arr", "idToIndex"), 2 * i, ix, 2)
            self.put(("arr", "indexToId"), 2 * ix, i, 2)
        self.mfield("numVars", len(index_of))

    def setnode(self, name, t=None, e=None, ref=1, next=0):
        N = self.p.fields["CalBddNodeStruct"]
        o = ("n", name)
        # reference count is packed in the low bits (see layout in calInt.h)
        nx, tb, eb = packref(ref)
        if isinstance(next, int):
            nv = next | nx
        else:
            nv = ("p", next[1], next[2] + nx)
        self.put(o, N["nextBddNode"][0], nv, 8)
        if t is not None:
            self.child[name] = (t, e)
            self.put(o, N["thenBddId"][0], t[0], 2)
            self.put(o, N["elseBddId"][0], e[0], 2)
            self.put(o, N["thenBddNode"][0], addbits(t[1], tb), 8)
            self.put(o, N["elseBddNode"][0], addbits(e[1], eb), 8)

    def leaf(self, name, id, tt):
        """opaque node: branches are never looked at (reading them is an error of the world)"""
        self.tt[name] = tt
        self.id[name] = id
        return self.h(name)

    def node(self, name, id, t, e, ref=1, tt=None):
        """node with known branches; t/e are handles"""
        v = self.atom("v%d" % id) if tt is None else None
        self.id[name] = id
        self.tt[name] = tt if tt is not None else self.ite(v, self.den(t), self.den(e))
        self.setnode(name, t, e, ref)
        return self.h(name)

    def h(self, name, neg=0):
        if name == "1":
            return (0, ("p", ("n", "one"), neg))
        if name == "0":
            return (0, ("p", ("n", "one"), 1 ^ neg))
        if name.startswith("!"):
            return self.h(name[1:], 1 ^ neg)
        return (self.id[name], ("p", ("n", name), neg))

    # ---- denotation
    def den(self, h, st=None, checkid=True, req=None):
        i, p = h
        if not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int) and p[2] in (0, 1)):
            raise Malformed("result is not a diagram handle: %r" % (p,))
        o = p[1]
        neg = p[2] & 1
        if o[0] == "n" and o[1] in self.tt:
            if checkid and i != self.id[o[1]]:
                raise Malformed("handle of %s carries variable id %r instead of %r" % (o[1], i, self.id[o[1]]))
            t = self.tt[o[1]]
        else:
            r = (req or self.req).get(o)
            if r is None:
                raise Malformed("result refers to unknown object %r" % (o,))
            rid, t = r
            if checkid and rid is not None and i != rid:
                raise Malformed("request handle carries variable id %r instead of %r" % (i, rid))
        return self.neg(t) if neg else t

    def name(self, h):
        i, p = h
        try:
            o = p[1]
            return ("!" if p[2] & 1 else "") + ({"one": "1"}.get(o[1], str(o[1])))
        except Exception:
            return repr(h)

    def args(self, *hs):
        out = []
        for h in hs:
            out += [h[0], h[1]]
        return out

    def pack(self, fn, vals):
        """vals: handles (pairs tagged 'H') and plain values in source order -> IR argument list"""
        vals = list(vals)
        out = []
        P = fn.params
        i = 0
        while i < len(P):
            t, reg, al = P[i]
            if not vals:
                raise AnalysisBroken("signature of %s changed (too many parameters)" % fn.name)
            v = vals.pop(0)
            ish = isinstance(v, tuple) and len(v) == 2 and not isinstance(v[0], str)
            if "byval" in al:
                if not ish:
                    raise AnalysisBroken("signature of %s changed" % fn.name)
                o = ("argv", reg)
                self.puthandle(o, 0, v)
                out.append(("p", o, 0))
            elif ish:
                if not (t.k == "i" and t.n == 16 and i + 1 < len(P) and P[i + 1][0].k == "ptr"):
                    raise AnalysisBroken("signature of %s changed" % fn.name)
                out += [v[0], v[1]]
                i += 1
            else:
                out.append(v)
            i += 1
        if vals:
            raise AnalysisBroken("signature of %s changed (too few parameters)" % fn.name)
        return out

    def rethandle(self, s):
        v = s.retval
        if isinstance(v, tuple) and v[0] == "struct":
            return (v[1][0], v[1][1])
        raise Malformed("no diagram handle is returned")

    def result(self, st, obj, off=0):
        a = st.mem.get((obj, off + self.B["bddId"][0]))
        b = st.mem.get((obj, off + self.B["bddNode"][0]))
        if a is None or b is None:
            raise Malformed("no result was stored")
        return (a[0], b[0])


def packref(r):
    return r & 0xf, (r >> 7 & 1) << 1, (r >> 4 & 7) << 1


def addbits(p, b):
    if isinstance(p, int):
        return p | b
    return ("p", p[1], p[2] | b)


def getref(st, p, obj):
    """reference count of a node object, from its packed fields"""
    N = p.fields["CalBddNodeStruct"]

    def low(f, m):
        c = st.mem.get((obj, N[f][0]))
        if c is None:
            return None
        v = c[0]
        if isinstance(v, int):
            return v & m
        if isinstance(v, tuple) and v[0] == "p" and isinstance(v[2], int):
            return v[2] & m
        return None
    a, b, c = low("nextBddNode", 0xf), low("elseBddNode", 0xe), low("thenBddNode", 0x2)
    if a is None or b is None or c is None:
        return None
    return a | b << 3 | c << 6


def unpack(ai, st, fn, args):
    """IR arguments -> source-level arguments (handles as pairs)"""
    out = []
    i = 0
    P = fn.params
    while i < len(P):
        t, reg, al = P[i]
        if "byval" in al:
            out.append((ai.load(st, args[i], 2), ai.load(st, ai.ptradd(args[i], 8), 8, PTR)))
        elif reg.endswith(".coerce0") and i + 1 < len(P) and P[i + 1][1] == reg[:-1] + "1":
            out.append((args[i], args[i + 1]))
            i += 1
        else:
            out.append(args[i])
        i += 1
    return out


def storeh(ai, st, p, h):
    """store a handle through a result pointer"""
    ai.store(st, p, h[0], 2)
    ai.store(st, ai.ptradd(p, 8), h[1], 8)
