"""Canonical worlds: whole operations on structured diagrams with opaque bottoms.

Every diagram node of the world is identified with the function it denotes: a
truth table over opaque leaf functions (variable id LEAF, below everything else
in the order) and the variables 1..n.  Handles are interned, so two handles are
equal exactly when the functions are equal - the invariant C04 establishes.
Unique tables, the result cache and if-then-else are contracts; request queues
are real lists in the abstract memory, so the kernels (whatever functions they
are made of) are interpreted as they are.
"""
from ir import AnalysisBroken, PTR
from ai import INLINE
from world import Malformed, unpack, storeh, getref, packref, addbits
from bddw import HW, T_neg, notp, show, show_obj, Canon
from api import API, Stale, Own, Leak, Over, Null

ONE = ("n", "one")


class Ref(Malformed):
    tag = "ref"


class Lst(Malformed):
    tag = "list"


class Cache(Malformed):
    tag = "cache"


class Mark(Malformed):
    tag = "mark"


class CW(API):
    """order: {id: index} of the structured variables; the leaf variable comes last"""

    def __init__(self, prog, leaves, order, stages=6, addr=0, present="absent", itemode="node", cache="opaque"):
        self.LEAF = max(order) + 1
        self.tops = {}
        od = dict(order)
        od[self.LEAF] = len(order)
        self.struct, self.uobj, self.uref, self.ops = {}, {}, {}, {}
        HW.__init__(self, prog, list(leaves) + ["v%d" % i for i in sorted(order)], od, stages)
        self.addr = addr
        self.leaves = list(leaves)
        self.vars = sorted(order)
        self.present, self.itemode, self.cachemode = present, itemode, cache
        self.over = "never"
        self.warn_ok = False
        self.r0 = 3
        self.vt = {i: self.atom("v%d" % i) for i in self.vars}
        self.vbit = {i: self.atoms.index("v%d" % i) for i in self.vars}
        d = self.st.d
        d.update(epoch=0, nodes={}, obj={}, points=(), uden={}, umap={}, cache={}, rq={}, ireq={}, created=(), edges=(),
                 userfree=())
        self.utt = {}
        self.mk(("u", "one"), self.h("1"), self.h("1"), 255)
        self.uobj[("u", "one")] = "1"
        self.mfield("userOneBdd", ("p", ("u", "one"), 0))
        self.mfield("userZeroBdd", ("p", ("u", "one"), 1))
        self.nn0 = 1000
        self.mfield("numNodes", self.nn0)
        self.mfield("gcCheck", 500)
        self.mfield("nodeLimit", 0)
        self.mfield("numPeakNodes", 100000)
        self.mfield("varBdds", ("p", ("arr", "varBdds"), 0))
        self.mfield("requestNodeListArray", ("p", ("arr", "rnl"), 0))
        self.mfield("maxDepth", stages)
        self.st.fill[("arr", "rnl")] = ((0, None, 0),)
        for dd in range(stages):
            for i in od:
                self.rtable(("rq", dd, i))
        self.stages = stages
        self.opsem = {}
        self.tempop = 0xFFF0
        self.mfield("tempOpCode", self.tempop)
        c = prog.const("CAL_OP_NAND", "CAL_OP_OR", "CAL_OP_AND")
        self.opsem[c[0]] = lambda f, g: self.neg(f & g)
        self.opsem[c[1]] = lambda f, g: f | g
        self.opsem[c[2]] = lambda f, g: f & g
        self.optop = False         # disjunctions etc. of opaque operands count as terminal
        self.leafreq = None        # meaning of a request on opaque operands
        self.leafrec = None        # meaning of a recursive call on opaque operands

    def rtable(self, o):
        arr = ("arr", "bins") + o
        T = "CalHashTableStruct"
        self.field(o, T, "numBins", 1)
        self.field(o, T, "bins", ("p", arr, 0))
        self.field(o, T, "numEntries", 0)
        self.put(arr, 0, 0, 8)

    # -- functions
    def restrict(self, t, bit, val):
        blk = 1 << bit
        a = self.atom(self.atoms[bit])
        if val:
            x = t & a
            return x | x >> blk
        x = t & self.neg(a)
        return x | x << blk

    def dep(self, t, i):
        b = self.vbit[i]
        return (t ^ t >> (1 << b)) & self.neg(self.atom(self.atoms[b])) != 0

    def topvar(self, t):
        if t in (0, self.full):
            return 0
        best = self.tops.get(t)
        if best is None:
            best = self.LEAF
            for i in sorted(self.vars, key=self.index.get):
                if self.dep(t, i):
                    best = i
                    break
            self.tops[t] = best
        return best

    def exists(self, t, i):
        b = self.vbit[i]
        return self.restrict(t, b, 1) | self.restrict(t, b, 0)

    def compose(self, t, i, g):
        b = self.vbit[i]
        return self.ite(g, self.restrict(t, b, 1), self.restrict(t, b, 0))

    def subst(self, t, m):
        """simultaneous substitution, m: {var: tt}"""
        def rec(t, vs):
            if not vs:
                return t
            b = self.vbit[vs[0]]
            return self.ite(m[vs[0]], rec(self.restrict(t, b, 1), vs[1:]), rec(self.restrict(t, b, 0), vs[1:]))
        # restrict all substituted variables first, then combine
        return rec(t, sorted(m))

    def F(self, e):
        """function from a nested tuple: name, '!name', 'v1', (i, then, else)"""
        if isinstance(e, int):
            return e
        if callable(e):
            return e(self)
        if isinstance(e, tuple):
            return self.ite(self.vt[e[0]], self.F(e[1]), self.F(e[2]))
        if e[0] == "!":
            return self.neg(self.F(e[1:]))
        if e == "1":
            return self.full
        if e == "0":
            return 0
        return self.atom(e)

    def phase(self, t):
        """1 if the handle of t is complemented"""
        return 0 if t >> (self.size - 1) & 1 else 1

    # -- node identity
    def intern(self, st, t):
        """handle of the (existing or now materialised) node of function t"""
        if t == self.full:
            return self.h("1")
        if t == 0:
            return self.h("0")
        neg = self.phase(t)
        r = self.neg(t) if neg else t
        o = st.d["nodes"].get(r)
        id = self.topvar(r)
        if o is None:
            if id == self.LEAF:
                o = ("k", st.fresh())
                self.addobj(st, o, r, id)
                self.opaque_in(st, o, self.r0)
            else:
                b = self.vbit[id]
                T = self.intern(st, self.restrict(r, b, 1))
                E = self.intern(st, self.restrict(r, b, 0))
                o = ("k", st.fresh())
                self.addobj(st, o, r, id)
                # the projection functions belong to the manager and have saturated counts
                r0 = 255 if T[1] == self.h("1")[1] and E[1] == self.h("0")[1] else self.r0
                a, b2, c = packref(r0)
                N = self.N
                st.mem[(o, N["nextBddNode"][0])] = (("p", ("opq", o, "next"), a), 8)
                st.mem[(o, N["thenBddId"][0])] = (T[0], 2)
                st.mem[(o, N["elseBddId"][0])] = (E[0], 2)
                st.mem[(o, N["thenBddNode"][0])] = (addbits(T[1], b2), 8)
                st.mem[(o, N["elseBddNode"][0])] = (addbits(E[1], c), 8)
            st.d["ref0"] = dict(st.d.get("ref0", {}))
            st.d["ref0"][o] = self.r0 if id == self.LEAF else r0
        return (id, ("p", o, neg))

    def addobj(self, st, o, r, id):
        st.d = dict(st.d)
        st.d["nodes"] = dict(st.d["nodes"])
        st.d["nodes"][r] = o
        st.d["obj"] = dict(st.d["obj"])
        st.d["obj"][o] = (r, id, st.d["epoch"])

    def denote(self, st, h, checkid=True):
        i, p = h
        if not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int) and p[2] in (0, 1)):
            raise Malformed("not a well-formed diagram handle: %s" % (show(h),))
        o = p[1]
        if o == ONE:
            return 0 if p[2] else self.full
        if o == ("n", "null"):
            raise Malformed("the null diagram is used as an operand or result")
        k = st.d["obj"].get(o)
        if k is None:
            raise Malformed("something that is not a diagram node is used as one: %s" % show(h))
        if k[2] != st.d["epoch"]:
            raise Stale("an internal handle obtained before a collection point is used after it")
        if checkid and i != k[1]:
            raise Malformed("a handle carries variable id %s instead of %s" % (i, k[1]))
        return self.neg(k[0]) if p[2] else k[0]

    def isnode(self, st, h):
        o = h[1][1]
        return o == ONE or o in st.d["obj"]

    def idof(self, st, h):
        o = h[1][1]
        if o == ONE:
            return 0
        k = st.d["obj"].get(o)
        return k[1] if k else None

    def born(self, st, o):
        k = st.d["obj"].get(o)
        return k[2] if k else None

    def on_load(self, ai, st, obj, off, size, ty):
        if isinstance(obj, tuple):
            k = st.d["obj"].get(obj)
            if k is not None:
                if k[2] != st.d["epoch"]:
                    ai.report(st, "stale", "a node obtained before a collection point is read after it")
                    st.status = "dead"
                    return (None,)
                return None
            if obj in st.d.get("gone", ()):
                ai.report(st, "leak", "memory is read after it was released")
        return None

    assocs = {}

    def association(self, name, id, m, current=True):
        """m: {var: tt}; variables absent from m are not associated"""
        A = "CalAssociationStruct"
        o = ("assoc", name)
        self.assocs = dict(self.assocs)
        self.assocs[name] = dict(id=id, map=m)
        self.field(o, A, "id", id & 0xffffffff)
        last = max([self.index[i] for i in m], default=-1)
        self.field(o, A, "lastBddIndex", last & 0xffffffff)
        self.field(o, A, "varAssociation", ("p", ("assoc_va", name), 0))
        if current:
            self.mfield("currentAssociation", ("p", o, 0))
        return ("p", o, 0)

    # -- user diagrams
    def U(self, t, ref=3):
        """user diagram denoting t"""
        if t == self.full:
            return ("p", ("u", "one"), 0)
        if t == 0:
            return ("p", ("u", "one"), 1)
        neg = self.phase(t)
        r = self.neg(t) if neg else t
        o = ("u", "f%x" % r)
        if o not in self.uobj:
            self.uobj[o] = r
            self.mk(o, (self.topvar(r), ("p", ("opq", o, "node"), 0)), self.h("1"), ref)
            self.st.d["umap"] = dict(self.st.d["umap"])
            self.st.d["umap"][r] = o
        return ("p", o, neg)

    def uden(self, st, p):
        if not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int) and p[2] in (0, 1)):
            raise Malformed("the result is not a diagram")
        o = p[1]
        if o == ("u", "one"):
            t = self.full
        elif o in self.uobj:
            t = self.uobj[o]
        elif o in st.d["uden"]:
            t = st.d["uden"][o]
        else:
            raise Malformed("the result is not a diagram")
        return self.neg(t) if p[2] else t

    def uref0(self, o):
        return self.refinit[o] if o in self.uobj else 0

    def m_internal(self, ai, st, args):
        p = args[1]
        if p == 0:
            raise Null("the null diagram is dereferenced")
        t = self.uden(st, p)
        o = p[1]
        if self.udelta(st, o) is not None and self.uref0(o) + self.udelta(st, o) <= 0:
            raise Own("a user diagram is used after its last reference was released")
        return ("struct", self.intern(st, t))

    def m_external(self, ai, st, args):
        fn = self.p.fn("CalBddGetExternalBdd")
        bm, h = unpack(ai, st, fn, args)
        t = self.denote(st, h)
        if t == self.full:
            return ("p", ("u", "one"), 0)
        if t == 0:
            return ("p", ("u", "one"), 1)
        neg = self.phase(t)
        r = self.neg(t) if neg else t
        o = st.d["umap"].get(r)
        st.d = dict(st.d)
        N = self.N
        if o is None:
            o = ("ue", st.fresh())
            st.d["umap"] = dict(st.d["umap"])
            st.d["umap"][r] = o
            st.d["uden"] = dict(st.d["uden"])
            st.d["uden"][o] = r
            st.mem[(o, N["nextBddNode"][0])] = (1, 8)
            st.mem[(o, N["thenBddId"][0])] = (h[0], 2)
            st.mem[(o, N["thenBddNode"][0])] = (("p", ("opq", o, "node"), 0), 8)
            st.mem[(o, N["elseBddId"][0])] = (0, 2)
            st.mem[(o, N["elseBddNode"][0])] = (("p", ONE, 0), 8)
        else:
            k = (o, N["nextBddNode"][0])
            v, z = st.mem[k]
            st.mem[k] = (v + 1 if isinstance(v, int) else ("p", v[1], v[2] + 1), z)
        return ("p", o, neg)

    def m_pre(self, ai, st, args):
        n = args[1]
        if not isinstance(n, int):
            raise AnalysisBroken("pre-processing with an unknown number of operands")
        if len(args) - 2 < n:
            raise Null("pre-processing is told %d operands but given %d" % (n, len(args) - 2))
        args = args[:2 + n]         # the rest is never looked at
        for a in args[2:]:
            if a == 0:
                st.trace = (st.trace, "pre-processing: null operand")
                return 0
        for a in args[2:]:
            self.m_internal(ai, st, [None, a])
        self.point(st, "pre")
        return 1

    rearm = True      # False: a collection point directly after another one cannot collect (the countdown was just reset)

    def point(self, st, what):
        self.check_epoch(st)
        if not self.rearm and what != "gc" and st.d["points"] and not st.d["created"] and not st.d["ireq"]:
            return
        st.d = dict(st.d)
        st.d["epoch"] += 1
        st.d["points"] = st.d["points"] + (what,)
        st.d["nodes"] = {}
        st.d["ncreated"] = st.d.get("ncreated", 0) + len(st.d["created"])
        st.d["created"] = ()
        st.d["absent"] = frozenset()
        for k, v in st.d["cache"].items():
            if v[1][1] not in st.d["obj"] and v[1][1] != ONE:
                raise Cache("a cached result still refers to a request when the operation ends")
        st.d["cache"] = {}
        self.refresh(st)

    def refresh(self, st):
        """handles kept in manager tables are forwarded by a collection"""
        B = self.B
        for name, a in self.assocs.items():
            for i in [0] + sorted(self.vars) + [self.LEAF]:
                t = a["map"].get(i)
                h = self.intern(st, t) if t is not None else (0xFFFF, ("p", ("n", "null"), 0))
                st.mem[(("assoc_va", name), 16 * i + B["bddId"][0])] = (h[0], 2)
                st.mem[(("assoc_va", name), 16 * i + B["bddNode"][0])] = (h[1], 8)
        for i in self.vars:
            h = self.intern(st, self.vt[i])
            st.mem[(("arr", "varBdds"), 16 * i + B["bddId"][0])] = (h[0], 2)
            st.mem[(("arr", "varBdds"), 16 * i + B["bddNode"][0])] = (h[1], 8)

    # -- tables
    def _find(self, ai, st, t, T, E, rp, add):
        id = self.tableid(t, ("ut",))
        for h in (T, E):
            if not (isinstance(h[1], tuple) and h[1][0] == "p" and self.isnode(st, h)):
                raise Malformed("an unresolved request is used as a branch of a diagram node")
        tt, te = self.denote(st, T), self.denote(st, E)
        if T[1] == E[1]:
            raise Canon("a node with two equal branches is looked up or created")
        ix = self.index[id]
        if self.topindex(st, T) <= ix or self.topindex(st, E) <= ix:
            raise Malformed("a node of variable %d gets a branch whose variable is not below it" % id)
        den = self.ite(self.varatom(id), tt, te)
        neg = self.phase(den)
        r = self.neg(den) if neg else den
        if r in st.d["nodes"] or self.present == "present":
            h = self.intern(st, den)
            storeh(ai, st, rp, h)
            return 1
        outs = []
        if self.present == "fork":
            s1 = st.copy()
            s1.trace = (s1.trace, "node already present")
            storeh(ai, s1, rp, self.intern(s1, den))
            outs.append((s1, 1))
            st.trace = (st.trace, "node not present")
        st.d = dict(st.d)
        if add:
            o = ("k", st.fresh())
            Tn, En = (notp(T), notp(E)) if neg else (T, E)
            self.addobj(st, o, r, id)
            st.d["ref0"] = dict(st.d.get("ref0", {}))
            st.d["ref0"][o] = 0
            N = self.N
            for f, v, z in (("nextBddNode", 0, 8), ("thenBddId", Tn[0], 2), ("elseBddId", En[0], 2),
                            ("thenBddNode", Tn[1], 8), ("elseBddNode", En[1], 8)):
                st.mem[(o, N[f][0])] = (v, z)
            st.d["created"] = st.d["created"] + ((o, id, Tn, En),)
            st.d["bump"] = st.d.get("bump", 0) + 1
            k = (self.M, self.p.off("Cal_BddManagerStruct", "numNodes"))
            if isinstance(st.mem[k][0], int) and ai.call_name != "raw":
                st.mem[k] = (st.mem[k][0] + 1, 8)
            storeh(ai, st, rp, (id, ("p", o, neg)))
        else:
            st.d["absent"] = st.d["absent"] | {r}
        if outs:
            return outs + [(st, 0)]
        return 0

    def m_adddirect(self, ai, st, args):
        t, n = args
        if isinstance(t, tuple) and t[1][0] == "rq":
            nb, bins = self.bins_of(ai, st, t[1])
            head = ai.read(st, bins[1], bins[2], 8, PTR)
            r = getref(st, self.p, n[1])
            if r is None:
                raise Ref("the reference count of a request is destroyed")
            ai.write(st, n[1], self.N["nextBddNode"][0], addbits(head, r & 0xf), 8)
            ai.write(st, bins[1], bins[2], n, 8)
            ne = self.p.off("CalHashTableStruct", "numEntries")
            ai.write(st, t[1], ne, ai.read(st, t[1], ne, 8) + 1, 8)
            return None
        id = self.tableid(t, ("ut",))
        if not (isinstance(n, tuple) and n[0] == "p" and n[2] == 0):
            raise Malformed("a malformed node is inserted in a unique table")
        o = n[1]
        T, E = self.readh(ai, st, o, "then"), self.readh(ai, st, o, "else")
        if self.isfwd(E):
            raise Malformed("a forwarded request is inserted in a unique table")
        for h in (T, E):
            if not (isinstance(h[1], tuple) and h[1][0] == "p" and self.isnode(st, h)):
                raise Malformed("an unresolved request is used as a branch of a diagram node")
        if T_neg(T):
            raise Canon("a node with a complemented positive branch is inserted in a unique table")
        if T[1] == E[1]:
            raise Canon("a node with two equal branches is inserted in a unique table")
        tt, te = self.denote(st, T), self.denote(st, E)
        ix = self.index[id]
        if self.topindex(st, T) <= ix or self.topindex(st, E) <= ix:
            raise Malformed("a node of variable %d gets a branch whose variable is not below it" % id)
        r = self.ite(self.varatom(id), tt, te)
        if r in st.d["nodes"]:
            raise Canon("a second node with the same variable and branches is inserted")
        if o in st.d["obj"]:
            raise Canon("a node is inserted twice")
        if r not in st.d["absent"]:
            ai.report(st, "canon", "a node is inserted in a unique table without having established that no equal node exists")
        self.addobj(st, o, r, id)
        st.d["ref0"] = dict(st.d.get("ref0", {}))
        st.d["ref0"][o] = 0
        st.d["created"] = st.d["created"] + ((o, id, T, E),)
        if o in st.d["rq"]:
            st.d["kept"] = st.d.get("kept", ()) + (o,)
        return None

    def bins_of(self, ai, st, tb):
        n = ai.read(st, tb, self.p.off("CalHashTableStruct", "numBins"), 8)
        b = ai.read(st, tb, self.p.off("CalHashTableStruct", "bins"), 8, PTR)
        if not (isinstance(n, int) and isinstance(b, tuple) and b[0] == "p" and isinstance(b[2], int) and 0 < n <= 64):
            raise AnalysisBroken("the bins of a request queue are not known")
        if b[1] in st.d.get("gone", ()):
            raise Leak("released bins of a request queue are used")
        return n, b

    def chain(self, ai, st, head):
        """request nodes of one bin"""
        seen = []
        while head != 0:
            if not (isinstance(head, tuple) and head[0] == "p" and isinstance(head[2], int)):
                raise Lst("a bin of a request queue is corrupted")
            o = head[1]
            if o in seen:
                raise Lst("a bin of a request queue is cyclic")
            seen.append(o)
            head = ai.read(st, o, self.N["nextBddNode"][0], 8, PTR)
            if isinstance(head, tuple) and head[0] == "p" and isinstance(head[2], int):
                head = ("p", head[1], head[2] & ~0xf)
            elif isinstance(head, int):
                head &= ~0xf
        return seen

    def requests(self, ai, st, tb):
        n, b = self.bins_of(ai, st, tb)
        out = []
        for i in range(n):
            out += self.chain(ai, st, ai.read(st, b[1], b[2] + 8 * i, 8, PTR))
        return out

    def on_request(self, ai, st, t, F, G, rp):
        id = self.tableid(t, ("rq",))
        tb = t[1]
        N = self.N
        raw = lambda o, w: (ai.read(st, o, N[w + "BddId"][0], 2), ai.read(st, o, N[w + "BddNode"][0], 8, PTR))
        for h in (F, G):
            if h[1][1] != ("n", "null") and self.topindex(st, h) < self.index[id]:
                raise Malformed("a request is filed at variable %d although an operand starts above it" % id)
        if self.leafreq and id == self.LEAF:
            storeh(ai, st, rp, self.intern(st, self.leafreq(self.denote(st, F), self.denote(st, G))))
            return 1
        k = 0
        for o in self.requests(ai, st, tb):
            k += 1
            # the packed reference count shares the words of the operands
            a, c = self.readh(ai, st, o, "then"), self.readh(ai, st, o, "else")
            if a[1] == F[1] and c[1] == G[1]:
                storeh(ai, st, rp, (id, ("p", o, 0)))
                return 1
        nm = ai.read(st, tb, self.p.off("CalHashTableStruct", "nodeManager"), 8, PTR)
        fo = self.p.off("CalNodeManagerStruct", "freeNodeList")
        n = ai.read(st, nm[1], fo, 8, PTR)
        if not (isinstance(n, tuple) and n[0] == "p" and n[2] == 0):
            raise AnalysisBroken("no free node")
        o = n[1]
        nxt = ai.read(st, o, N["nextBddNode"][0], 8, PTR)
        ai.write(st, nm[1], fo, nxt, 8)
        nb, bins = self.bins_of(ai, st, tb)
        boff = bins[2] + 8 * (k % nb)
        head = ai.read(st, bins[1], boff, 8, PTR)
        for f, v, z in (("nextBddNode", head, 8), ("thenBddId", F[0], 2), ("elseBddId", G[0], 2),
                        ("thenBddNode", F[1], 8), ("elseBddNode", G[1], 8)):
            ai.write(st, o, N[f][0], v, z)
        ai.write(st, bins[1], boff, n, 8)
        ne = self.p.off("CalHashTableStruct", "numEntries")
        ai.write(st, tb, ne, ai.read(st, tb, ne, 8) + 1, 8)
        st.d = dict(st.d)
        st.d["rq"] = dict(st.d["rq"])
        st.d["rq"][tb] = st.d["rq"].get(tb, ()) + (o,)
        st.d["rqkey"] = dict(st.d.get("rqkey", {}))
        st.d["rqkey"][o] = (F, G)
        storeh(ai, st, rp, (id, ("p", o, 0)))
        return 0

    # -- if-then-else and binary contracts
    def m_ite(self, ai, st, args):
        fn = self.p.fn("CalOpITE")
        bm, f, g, h, q = unpack(ai, st, fn, args)
        t = self.ite(*[self.denote(st, x) for x in (f, g, h)])
        neg = self.phase(t)
        if self.itemode == "node" or t in (0, self.full) or (self.neg(t) if neg else t) in st.d["nodes"]:
            return ("struct", self.intern(st, t))
        id = min([self.idof(st, x) for x in (f, g, h) if self.idof(st, x)], key=lambda i: self.index[i])
        tb = ai.read(st, q[1], (q[2] if len(q) > 2 else 0) + 8 * id, 8, PTR)
        if not (isinstance(tb, tuple) and tb[1][0] == "rq"):
            raise Malformed("an if-then-else request is filed in something that is not a request queue")
        st.d = dict(st.d)
        for o, (t2, tb2, id2) in st.d["ireq"].items():
            if tb2 == tb[1] and t2 == (f, g, h):
                return ("struct", (id, ("p", o, 0)))
        o = ("rqn", "ite%d" % st.fresh())
        st.d["ireq"] = dict(st.d["ireq"])
        st.d["ireq"][o] = ((f, g, h), tb[1], id)
        st.d["ireqt"] = dict(st.d.get("ireqt", {}))
        st.d["ireqt"][o] = t
        self.opaque_in(st, o, 0)
        ne = self.p.off("CalHashTableStruct", "numEntries")
        ai.write(st, tb[1], ne, ai.read(st, tb[1], ne, 8) + 1, 8)
        return ("struct", (id, ("p", o, 0)))

    def m_iteapply(self, ai, st, args):
        t, arr = args[1], args[2]
        if not any(x[1] == t[1] for x in st.d["ireq"].values()):
            return INLINE
        st.d = dict(st.d)
        st.d["iteapplied"] = st.d.get("iteapplied", frozenset()) | {t[1]}
        return None

    def m_reduce(self, ai, st, args):
        t, ut = args[1], args[2]
        mine = [(o, x) for o, x in st.d["ireq"].items() if x[1] == t[1]]
        if not mine:
            return INLINE
        id, uid = self.tableid(t, ("rq",)), self.tableid(ut, ("ut",))
        if id != uid:
            raise Malformed("the requests of variable %d are placed in the table of variable %d" % (id, uid))
        if t[1] not in st.d.get("iteapplied", ()):
            raise Malformed("if-then-else requests are reduced before they are expanded")
        st.d = dict(st.d)
        N = self.N
        for o, x in mine:
            tt = st.d["ireqt"][o]
            h = self.intern(st, tt)
            r = getref(st, self.p, o)
            if r is None:
                raise Ref("the reference count of a request is destroyed")
            self.addref(st, h[1][1], r)
            st.mem[(o, N["thenBddId"][0])] = (h[0], 2)
            st.mem[(o, N["thenBddNode"][0])] = (h[1], 8)
            st.mem[(o, N["elseBddNode"][0])] = (0, 8)
            st.d["ireq"] = {k: v for k, v in st.d["ireq"].items() if k != o}
        st.d["iteapplied"] = st.d["iteapplied"] - {t[1]}
        ne = self.p.off("CalHashTableStruct", "numEntries")
        ai.write(st, t[1], ne, 0, 8)
        return None

    def addref(self, st, o, n):
        if o == ONE or n == 0:
            return
        r = getref(st, self.p, o)
        self.setref(st, o, r + n)

    def setref(self, st, o, r):
        a, b, c = packref(r)
        N = self.N
        for f, bits, m in (("nextBddNode", a, 0xf), ("thenBddNode", b, 2), ("elseBddNode", c, 0xe)):
            k = (o, N[f][0])
            v, z = st.mem[k]
            st.mem[k] = ((v & ~m) | bits if isinstance(v, int) else ("p", v[1], (v[2] & ~m) | bits), z)

    def m_op2(self, sem):
        def op(ai, st, args):
            F, G, rp = (args[1], args[2]), (args[3], args[4]), args[5]
            tf, tg = self.denote(st, F), self.denote(st, G)
            t = sem(self, tf, tg)
            if tf in (0, self.full) or tg in (0, self.full) or tf == tg or tf == self.neg(tg) or \
                    (self.optop and self.opaque(tf) and self.opaque(tg)):
                storeh(ai, st, rp, self.intern(st, t))
                return 1
            return 0
        return op

    def opaque(self, t):
        return self.topvar(t) == self.LEAF

    def m_cofactor(self, ai, st, args):
        """generalised cofactor of opaque operands: any function that agrees on the care set"""
        F, G, rp = (args[1], args[2]), (args[3], args[4]), args[5]
        if G[1] == ("p", ONE, 1) or G[1][1] == ONE or F[1][1] == ONE:
            return INLINE
        tf, tg = self.denote(st, F), self.denote(st, G)
        if self.opaque(tf) and self.opaque(tg):
            storeh(ai, st, rp, self.intern(st, self.agree(tf, tg)))
            return 1
        return INLINE

    def agree(self, f, c):
        return (f & c) | (self.atom(self.leaves[-1]) & self.neg(c))

    def leafstep(self, ai, st, args, fn):
        """recursive call on opaque operands"""
        hs = [x for x in unpack(ai, st, fn, args) if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], str)]
        if self.leafrec is None or not hs:
            return INLINE
        ts = [self.denote(st, h) for h in hs]
        if all(self.opaque(t) or t in (0, self.full) for t in ts) and any(self.opaque(t) for t in ts):
            return ("struct", self.intern(st, self.leafrec(*ts)))
        return INLINE

    def m_opbf(self, ai, st, args):
        from api import SEM
        fn = self.p.fn("CalBddOpBF")
        bm, op, F, G = unpack(ai, st, fn, args)
        nm = op[1].split("/")[-1].split(":")[-1] if isinstance(op, tuple) and op[0] == "fn" else None
        if nm not in SEM:
            raise Malformed("unknown operation %r" % (op,))
        return ("struct", self.intern(st, SEM[nm](self, self.denote(st, F), self.denote(st, G))))

    def m_itebf(self, ai, st, args):
        fn = self.p.fn("CalBddOpITEBF")
        bm, F, G, H = unpack(ai, st, fn, args)
        return ("struct", self.intern(st, self.ite(*[self.denote(st, x) for x in (F, G, H)])))

    # -- result cache
    def ckey(self, F, G, op):
        a, b = sorted([F[1], G[1]], key=repr)
        return (op, a, b)

    def m_cachelook(self, ai, st, args):
        fn = self.p.fn("CalCacheTableTwoLookup")
        bm, F, G, op, rp = unpack(ai, st, fn, args)
        if not isinstance(op, int):
            raise AnalysisBroken("cache look-up with an unknown operation code")
        op &= 0xffff
        v = st.d["cache"].get(self.ckey(F, G, op))
        if v is not None:
            storeh(ai, st, rp, v)
            return 1
        tf, tg = self.denote(st, F), self.denote(st, G)
        sem = self.opsem.get(op)
        if sem is None:
            raise Cache("a look-up uses an operation code that no operation owns (%#x)" % op)
        opaque = self.topvar(tf) in (0, self.LEAF) and self.topvar(tg) in (0, self.LEAF)
        if (self.cachemode == "opaque" and opaque) or self.cachemode == "hit":
            st.trace = (st.trace, "cached result")
            storeh(ai, st, rp, self.intern(st, sem(tf, tg)))
            return 1
        storeh(ai, st, rp, (0xFFFF, ("p", ("n", "null"), 0)))
        return 0

    def m_cacheins(self, ai, st, args):
        fn = self.p.fn("CalCacheTableTwoInsert")
        bm, F, G, R, op, lev = unpack(ai, st, fn, args)
        if not isinstance(op, int):
            raise AnalysisBroken("cache insertion with an unknown operation code")
        op &= 0xffff
        sem = self.opsem.get(op)
        if sem is None:
            raise Cache("an insertion uses an operation code that no operation owns (%#x)" % op)
        tf, tg = self.denote(st, F), self.denote(st, G)
        p = R[1]
        if not (isinstance(p, tuple) and p[0] == "p"):
            raise Cache("something that is not a diagram is put in the result cache")
        if p[1] in st.d.get("rqkey", {}) and p[1] not in st.d["obj"]:
            if lev == 0:
                raise Cache("an unresolved request is put in the result cache as a final result")
            kf, kg = st.d["rqkey"][p[1]]
            const = lambda x: x[1][1] in (ONE, ("n", "null"))
            if {x[1] for x in (kf, kg) if not const(x)} != {x[1] for x in (F, G) if not const(x)} or p[2] & 1:
                raise Cache("the cached request does not belong to the operands it is stored for")
            tb = [t for t, os in st.d["rq"].items() if p[1] in os]
            self.bindop(st, tb[0], op)
        else:
            t = self.denote(st, R)
            if t != sem(tf, tg):
                raise Cache("the cached result is not the operation on the operands it is stored for")
        st.d = dict(st.d)
        st.d["cache"] = dict(st.d["cache"])
        st.d["cache"][self.ckey(F, G, op)] = R
        return None

    def bindop(self, st, tb, op):
        """all requests of one stage are cached under one operation"""
        m = st.d.get("stageop", {})
        if m.get(tb[1], op) != op:
            raise Cache("requests of one queue are cached under two operation codes")
        st.d = dict(st.d)
        st.d["stageop"] = dict(m)
        st.d["stageop"][tb[1]] = op

    def m_cachefix(self, ai, st, args):
        st.d = dict(st.d)
        c = dict(st.d["cache"])
        N = self.N
        for k, h in c.items():
            o = h[1][1]
            if o in st.d["obj"] or o == ONE:
                continue
            e = ai.read(st, o, N["elseBddNode"][0], 8, PTR)
            if isinstance(e, int) and e & ~0xe == 0:
                T = self.readh(ai, st, o, "then")
                T = notp(T) if h[1][2] & 1 else T
                c[k] = T
                op = self.opsem[k[0]]
            else:
                raise Cache("cached requests are settled before they are resolved")
        st.d["cache"] = c
        return None

    def checkcache(self, st):
        """every entry denotes its operation on its operands"""
        inv = {}
        for (op, a, b), h in st.d["cache"].items():
            if h[1][1] not in st.d["obj"] and h[1][1] != ONE:
                raise Cache("a cached result still refers to a request when the operation ends")
            ta, tb, tr = [self.denote(st, (0, x), False) for x in (a, b, h[1])]
            s = self.opsem[op]
            if tr not in (s(ta, tb), s(tb, ta)):
                raise Cache("the cached result is not the operation on the operands it is stored for")

    def canonmodels(self):
        from api import SEM
        m = self.apimodels()
        m.update({"CalOpITE": self.m_ite, "CalHashTableITEApply": self.m_iteapply, "CalHashTableReduce": self.m_reduce,
                  "CalCacheTableTwoLookup": self.m_cachelook, "CalCacheTableTwoInsert": self.m_cacheins,
                  "CalCacheTableTwoFixResultPointers": self.m_cachefix, "CalOpCofactor": self.m_cofactor})
        for k, s in SEM.items():
            m[k] = self.m_op2(s)
        return m

    def full_ai(self, models=None, **kw):
        m = self.canonmodels()
        if models:
            m.update(models)
        kw.setdefault("unroll", 8)
        ai = self.interp(m, **kw)
        ai.on_load = self.on_load
        ai.maxrec = 12
        if self.leafrec:
            ai.recursion = self.leafstep
        return ai

    def m_opq(self):
        pass

    def nmhook(self, ai, st, obj, off, size, ty):
        return HW.nmhook(self, ai, st, obj, off, size, ty)

    # -- final checks
    def check_epoch(self, st):
        """reference counts of every node of this epoch account for the edges added in it"""
        want = {}
        N = self.N
        for (o, id, T, E) in st.d["created"]:
            for which, h in (("then", T), ("else", E)):
                now = (st.mem[(o, N[which + "BddId"][0])][0], self.rawp(st, o, which))
                if now != (h[0], h[1]):
                    raise Ref("a branch of a new node is overwritten")
                want[h[1][1]] = want.get(h[1][1], 0) + 1
        made = {o for (o, _, _, _) in st.d["created"]}
        for o, (r, id, ep) in st.d["obj"].items():
            if ep != st.d["epoch"]:
                continue
            c = getref(st, self.p, o)
            if c is None:
                raise Ref("the reference count of a node is destroyed")
            v = st.mem[(o, N["thenBddNode"][0])][0]
            if (v if isinstance(v, int) else v[2]) & 0xc:
                raise Mark("a traversal mark is left on a node")
            d = c - st.d["ref0"].get(o, self.r0)
            if st.d["ref0"].get(o, self.r0) == 255:
                if d:
                    raise Ref("a saturated reference count changes")
            elif d != want.get(o, 0):
                raise Ref("the reference count of a node changes by %+d although it gains %d parents" % (d, want.get(o, 0)))

    def rawp(self, st, o, which):
        p = st.mem[(o, self.N[which + "BddNode"][0])][0]
        if isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int):
            return ("p", p[1], p[2] & ~0xe)
        return p

    def check_queues(self, st):
        ne = self.p.off("CalHashTableStruct", "numEntries")
        bo = self.p.off("CalHashTableStruct", "bins")
        for dd in range(self.stages):
            for i in list(self.vars) + [self.LEAF]:
                o = ("rq", dd, i)
                if st.mem[(o, ne)][0] != 0:
                    raise Lst("a request queue is left non-empty")
                b = st.mem[(o, bo)][0]
                n = st.mem[(o, self.p.off("CalHashTableStruct", "numBins"))][0]
                if b[1] in st.d.get("gone", ()):
                    raise Leak("released bins are left in a request queue")
                for i in range(n):
                    c = st.mem.get((b[1], b[2] + 8 * i))
                    if c is not None and c[0] != 0:
                        raise Lst("requests are left in the bins of a queue")
        if st.d["ireq"]:
            raise Lst("if-then-else requests are left unresolved")
        self.check_nodes(st)

    def check_nodes(self, s):
        made = set()
        s.d = dict(s.d)
        s.d["dyn"] = {o: 1 for o in s.d["obj"]}
        API.check_nodes(self, s)

    def check_count(self, st, fresh=True):
        k = (self.M, self.p.off("Cal_BddManagerStruct", "numNodes"))
        v = st.mem[k][0]
        if isinstance(v, int) and v != self.nn0 + st.d.get("ncreated", 0) + len(st.d["created"]):
            raise Ref("the node count changes by %d for %d new nodes" % (v - self.nn0, len(st.d["created"])))
