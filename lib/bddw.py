"""Heap worlds for the diagram kernels: manager, unique tables, request queues,
node managers, and contracts (models) of the table and cache primitives.

Contracts state what callers may rely on; the primitives themselves are decided
separately (C24 for tables, C10 for the cache)."""
from ir import AnalysisBroken, PTR
from ai import Interp, State, UNDEF, INLINE
from world import World, Malformed, unpack, storeh, getref, packref, addbits


class HW(World):
    def __init__(self, prog, atoms, order, depth=1):
        """order: {id: index}"""
        World.__init__(self, prog, atoms)
        self.refinit = {}
        self.addr = None
        self.generic = None        # objects whose look-ups are analysed both ways (None: all)
        self.setorder(order)
        self.N = prog.fields["CalBddNodeStruct"]
        self.HT = prog.fields["CalHashTableStruct"]
        self.st.d = {"dyn": {}, "absent": frozenset(), "warn": 0, "inserted": ()}
        self.refinit[("n", "one")] = 255
        self.mfield("uniqueTable", ("p", ("arr", "uniqueTable"), 0))
        self.mfield("nodeManagerArray", ("p", ("arr", "nodeManagerArray"), 0))
        self.mfield("reqQue", ("p", ("arr", "reqQue"), 0))
        self.mfield("depth", depth)
        for i in [0] + list(order):
            self.put(("arr", "uniqueTable"), 8 * i, ("p", ("ut", i), 0), 8)
            self.put(("arr", "nodeManagerArray"), 8 * i, ("p", ("nm", i), 0), 8)
            self.table(("ut", i), i)
        for d in range(max(depth, 4)):
            self.put(("arr", "reqQue"), 8 * d, ("p", ("arr", "rq%d" % d), 0), 8)
            for i in [0] + list(order):
                self.put(("arr", "rq%d" % d), 8 * i, ("p", ("rq", d, i), 0), 8)
                self.table(("rq", d, i), i)

    # -- construction
    def table(self, obj, id):
        T = "CalHashTableStruct"
        self.field(obj, T, "bddId", id)
        self.field(obj, T, "nodeManager", ("p", ("nm", id), 0))
        self.field(obj, T, "requestNodeList", 0)
        s = self.p.off(T, "startNode")
        self.put(obj, s, 0, 8)
        self.field(obj, T, "endNode", ("p", obj, s))

    def leaf(self, name, id, tt=None, ref=3):
        """opaque diagram node of variable id denoting the atom of the same name"""
        self.tt[name] = self.atom(name) if tt is None else tt
        self.id[name] = id
        o = ("n", name)
        a, b, c = packref(ref)
        N = self.N
        self.put(o, N["nextBddNode"][0], ("p", ("opq", name, "next"), a), 8)
        self.put(o, N["thenBddNode"][0], ("p", ("opq", name, "then"), b), 8)
        self.put(o, N["elseBddNode"][0], ("p", ("opq", name, "else"), c), 8)
        self.put(o, N["thenBddId"][0], ("s", ("opqid", name, "then")), 2)
        self.put(o, N["elseBddId"][0], ("s", ("opqid", name, "else")), 2)
        self.refinit[o] = ref
        return self.h(name)

    def bnode(self, name, id, t, e, ref=3, var=None, next=0):
        """diagram node with known branches"""
        self.id[name] = id
        v = self.atom(var or ("v%d" % id))
        self.tt[name] = self.ite(v, self.den(t), self.den(e))
        self.mk(("n", name), t, e, ref, next)
        return self.h(name)

    def mk(self, o, t, e, ref, next=0):
        """write the fields of node object o"""
        a, b, c = packref(ref)
        N = self.N
        self.put(o, N["nextBddNode"][0], (a | next) if isinstance(next, int) else addbits(next, a), 8)
        self.put(o, N["thenBddId"][0], t[0], 2)
        self.put(o, N["elseBddId"][0], e[0], 2)
        self.put(o, N["thenBddNode"][0], addbits(t[1], b), 8)
        self.put(o, N["elseBddNode"][0], addbits(e[1], c), 8)
        self.refinit[o] = ref

    def request(self, name, t, e, ref=3, next=0):
        """request node (not yet a diagram node); fields hold operands or child requests"""
        o = ("rqn", name)
        self.mk(o, t, e, ref, next)
        return ("p", o, 0)

    def forwarded(self, name, target, id=None):
        """a request already resolved to `target`"""
        o = ("rqn", name)
        N = self.N
        self.put(o, N["nextBddNode"][0], ("p", ("opq", name, "next"), 0), 8)
        self.put(o, N["thenBddId"][0], target[0], 2)
        self.put(o, N["thenBddNode"][0], target[1], 8)
        self.put(o, N["elseBddNode"][0], 0, 8)
        self.put(o, N["elseBddId"][0], 0, 2)
        self.refinit[o] = 0
        return (id if id is not None else target[0], ("p", o, 0))

    def bins(self, tobj, chains, key="bins"):
        """table bins: list of chains, each a list of node objects (their next fields are linked here)"""
        T = "CalHashTableStruct"
        arr = ("arr", key) + tobj
        self.field(tobj, T, "numBins", len(chains))
        self.field(tobj, T, "bins", ("p", arr, 0))
        n = 0
        for i, ch in enumerate(chains):
            self.put(arr, 8 * i, ("p", ch[0], 0) if ch else 0, 8)
            for j, o in enumerate(ch):
                n += 1
                nxt = ("p", ch[j + 1], 0) if j + 1 < len(ch) else 0
                a, _, _ = packref(self.refinit[o])
                self.put(o, self.N["nextBddNode"][0], addbits(nxt, a), 8)
        self.field(tobj, T, "numEntries", n)

    # -- denotation with objects created along the path
    def denote(self, st, h, checkid=True):
        i, p = h
        if not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int) and p[2] in (0, 1)):
            raise Malformed("not a well-formed diagram handle: %s" % (show(h),))
        dyn = st.d["dyn"]
        if p[1] in dyn:
            rid, t, kind = dyn[p[1]]
            if checkid and i != rid:
                raise Malformed("handle carries variable id %s instead of %s" % (i, rid))
            return self.neg(t) if p[2] else t
        return self.den(h, st, checkid)

    def isnode(self, st, h):
        o = h[1][1]
        if o in st.d["dyn"]:
            return st.d["dyn"][o][2] == "node"
        return o[0] == "n"

    def idof(self, st, h):
        o = h[1][1]
        if o in st.d["dyn"]:
            return st.d["dyn"][o][0]
        return self.id.get(o[1])

    def topindex(self, st, h):
        return self.index.get(self.idof(st, h), 0xFFFF)

    def readh(self, ai, st, obj, which):
        """current then/else handle of a node object (reference-count bits masked)"""
        N = self.N
        i = ai.read(st, obj, N[which + "BddId"][0], 2)
        p = ai.read(st, obj, N[which + "BddNode"][0], 8, PTR)
        if isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int):
            p = ("p", p[1], p[2] & ~0xe)
        elif isinstance(p, int):
            p &= ~0xe
        return (i, p)

    def ref(self, st, obj):
        return getref(st, self.p, obj)

    def delta(self, st, obj):
        r = self.ref(st, obj)
        r0 = self.refinit.get(obj)
        if r0 is None:
            r0 = st.d.get("ref0", {}).get(obj)
        if r is None or r0 is None:
            raise Malformed("reference count of %s is destroyed" % (show_obj(obj),))
        if r0 == 255:
            if r != 255:
                raise Malformed("a saturated reference count of %s is changed" % show_obj(obj))
            return None
        return r - r0

    def setdyn(self, st, obj, id, tt, kind, ref0=None):
        st.d = dict(st.d)
        d = dict(st.d["dyn"])
        d[obj] = (id, tt, kind)
        st.d["dyn"] = d
        if ref0 is not None:
            r = dict(st.d.get("ref0", {}))
            r[obj] = ref0
            st.d["ref0"] = r

    def put_st(self, st, obj, off, v, size):
        st.mem[(obj, off)] = (v, size)

    def opaque_in(self, st, obj, ref):
        """give a freshly introduced opaque node readable count fields"""
        a, b, c = packref(ref)
        N = self.N
        st.mem[(obj, N["nextBddNode"][0])] = (("p", ("opq", obj, "next"), a), 8)
        st.mem[(obj, N["thenBddNode"][0])] = (("p", ("opq", obj, "then"), b), 8)
        st.mem[(obj, N["elseBddNode"][0])] = (("p", ("opq", obj, "else"), c), 8)
        st.mem[(obj, N["thenBddId"][0])] = (("s", ("opqid", obj, "then")), 2)
        st.mem[(obj, N["elseBddId"][0])] = (("s", ("opqid", obj, "else")), 2)

    def tableid(self, t, kinds=("ut", "rq")):
        if not (isinstance(t, tuple) and t[0] == "p" and t[2] == 0 and t[1][0] in kinds):
            raise Malformed("a lookup uses something that is not the expected table: %s" % show(t))
        return t[1][-1]

    def varatom(self, id):
        return self.atom(self.vname(id))

    def vname(self, id):
        return "v%d" % id

    # -- contracts
    def m_lookup(self, ai, st, args):
        fn = self.p.fn("CalUniqueTableForIdLookup")
        bm, t, T, E, rp = unpack(ai, st, fn, args)
        return self._find(ai, st, t, T, E, rp, False)

    def m_findoradd(self, ai, st, args):
        fn = self.p.fn("CalUniqueTableForIdFindOrAdd")
        bm, t, T, E, rp = unpack(ai, st, fn, args)
        if T[1] == E[1]:
            storeh(ai, st, rp, T)
            return 1
        return self._find(ai, st, t, T, E, rp, True)

    def m_ht_findoradd(self, ai, st, args):
        """CalHashTableFindOrAdd on a unique table (positive then branch) or on a request queue"""
        fn = self.p.fn("CalHashTableFindOrAdd")
        t, F, G, rp = unpack(ai, st, fn, args)
        if isinstance(t, tuple) and t[0] == "p" and t[1][0] == "ut":
            if T_neg(F):
                raise Canon("a node with a complemented positive branch is put in a unique table")
            return self._find(ai, st, t, F, G, rp, True)
        return self.on_request(ai, st, t, F, G, rp)

    def m_ht_lookup(self, ai, st, args):
        fn = self.p.fn("CalHashTableLookup")
        t, F, G, rp = unpack(ai, st, fn, args)
        if isinstance(t, tuple) and t[0] == "p" and t[1][0] == "ut":
            if T_neg(F):
                return 0
            return self._find(ai, st, t, F, G, rp, False)
        raise Malformed("unexpected lookup")

    def _find(self, ai, st, t, T, E, rp, add):
        id = self.tableid(t, ("ut",))
        tt, te = self.denote(st, T), self.denote(st, E)
        if not (self.isnode(st, T) and self.isnode(st, E)):
            raise Malformed("an unresolved request is used as a branch of a diagram node")
        if T[1] == E[1]:
            raise Canon("a node with two equal branches is looked up or created")
        ix = self.index[id]
        if self.topindex(st, T) <= ix or self.topindex(st, E) <= ix:
            raise Malformed("a node of variable %d gets a branch whose variable is not below it" % id)
        tt, te, neg = (self.neg(tt), self.neg(te), 1) if T_neg(T) else (tt, te, 0)
        den = self.ite(self.varatom(id), tt, te)
        key = (id, T[1], E[1])
        outs = []
        fork = self.generic is None or T[1][1] in self.generic or E[1][1] in self.generic
        s1 = st.copy() if fork else st
        o = ("old", s1.fresh())
        self.setdyn(s1, o, id, den, "node", 3)
        self.opaque_in(s1, o, 3)
        s1.d["found"] = s1.d.get("found", ()) + (key,)
        s1.trace = (s1.trace, "node already present")
        storeh(ai, s1, rp, (id, ("p", o, neg)))
        if not fork:
            return 1
        outs.append((s1, 1))
        s2 = st
        s2.trace = (s2.trace, "node not present")
        s2.d = dict(s2.d)
        if add:
            o = ("new", s2.fresh())
            tn, en = (notp(T), notp(E)) if neg else (T, E)
            self.setdyn(s2, o, id, den, "node", 0)
            N = self.N
            for f, v, z in (("nextBddNode", 0, 8), ("thenBddId", tn[0], 2), ("elseBddId", en[0], 2),
                            ("thenBddNode", tn[1], 8), ("elseBddNode", en[1], 8)):
                s2.mem[(o, N[f][0])] = (v, z)
            s2.d["created"] = s2.d.get("created", ()) + ((o, id, tn, en),)
            if ai.call_name != "CalHashTableFindOrAdd" and False:
                pass
            storeh(ai, s2, rp, (id, ("p", o, neg)))
        else:
            s2.d["absent"] = s2.d["absent"] | {key}
        outs.append((s2, 0))
        return outs

    def m_adddirect(self, ai, st, args):
        t, n = args
        id = self.tableid(t, ("ut",))
        if not (isinstance(n, tuple) and n[0] == "p" and n[2] == 0):
            raise Malformed("a malformed node is inserted in a unique table")
        o = n[1]
        T, E = self.readh(ai, st, o, "then"), self.readh(ai, st, o, "else")
        if self.isfwd(E):
            raise Malformed("a forwarded request is inserted in a unique table")
        if T_neg(T):
            raise Canon("a node with a complemented positive branch is inserted in a unique table")
        if T[1] == E[1]:
            raise Canon("a node with two equal branches is inserted in a unique table")
        tt, te = self.denote(st, T), self.denote(st, E)
        if not (self.isnode(st, T) and self.isnode(st, E)):
            raise Malformed("an unresolved request is used as a branch of a diagram node")
        ix = self.index[id]
        if self.topindex(st, T) <= ix or self.topindex(st, E) <= ix:
            raise Malformed("a node of variable %d gets a branch whose variable is not below it" % id)
        k1, k2 = (id, T[1], E[1]), (id, notp(T)[1], notp(E)[1])
        if k1 not in st.d["absent"] and k2 not in st.d["absent"]:
            ai.report(st, "canon", "a node is inserted in a unique table without having established that no equal node exists")
        for (o2, id2, T2, E2) in st.d.get("created", ()):
            if o2 == o:
                raise Canon("a node is inserted twice")
            if (id2, T2, E2) == (id, T, E):
                raise Canon("a second node with the same variable and branches is inserted")
        self.setdyn(st, o, id, self.ite(self.varatom(id), tt, te), "node")
        st.d["created"] = st.d.get("created", ()) + ((o, id, T, E),)
        st.d["direct"] = st.d.get("direct", ()) + (o,)
        return None

    def isfwd(self, E):
        return E[1] == 0

    def on_request(self, ai, st, t, F, G, rp):
        raise Malformed("unexpected request")

    def tablemodels(self):
        return {"CalUniqueTableForIdLookup": self.m_lookup,
                "CalUniqueTableForIdFindOrAdd": self.m_findoradd,
                "CalHashTableFindOrAdd": self.m_ht_findoradd,
                "CalHashTableLookup": self.m_ht_lookup,
                "CalHashTableAddDirect": self.m_adddirect,
                "CalPageManagerAllocPage": lambda ai, st, a: ("p", ("page", st.fresh()), 0),
                "CalBddWarningMessage": self.m_warn,
                "CalBddFatalMessage": self.m_fatal}

    def m_warn(self, ai, st, args):
        raise Malformed("a warning is raised: " + strarg(ai, args))

    def m_fatal(self, ai, st, args):
        raise Malformed("a fatal error is raised: " + strarg(ai, args))

    def interp(self, models=None, **kw):
        m = self.tablemodels()
        if models:
            m.update(models)
        ai = HInterp(self.p, m, **kw)
        ai.W = self
        ai.call_name = None
        ai.hooks["nm"] = self.nmhook
        ai.hooks["fr"] = self.frhook
        if self.addr is not None:
            # addresses of distinct objects are in an arbitrary but fixed order per world
            ai.ordhook = lambda st, a, b: (rank(a) < rank(b)) != bool(self.addr)
        return ai

    # free node lists: unbounded supply of distinct fresh nodes
    def nmhook(self, ai, st, obj, off, size, ty):
        if off == self.p.off("CalNodeManagerStruct", "freeNodeList"):
            return ("p", ("fr", obj[1], 0), 0)
        return NotImplemented

    def frhook(self, ai, st, obj, off, size, ty):
        if off == self.N["nextBddNode"][0]:
            return ("p", ("fr", obj[1], obj[2] + 1), 0)
        return 0

    def objs_touched(self, st):
        return {o for (o, k) in st.mem if isinstance(o, tuple) and o[0] in ("n", "old", "new", "rqn", "fr")}


class Canon(Malformed):
    tag = "canon"


class HInterp(Interp):
    """turns contract breaches (Malformed) into reports on the current path instead of aborting the analysis"""

    def domodel(self, st, I, m, args, extra):
        try:
            return Interp.domodel(self, st, I, m, args, extra)
        except Malformed as e:
            self.report(st, getattr(e, "tag", "den"), str(e))
            st.status = "dead"
            return []


def rank(o):
    r = repr(o)
    return (hash_(r), r)


def hash_(r):
    h = 5381
    for c in r:
        h = (h * 33 + ord(c)) & 0xffffffff
    return h


def T_neg(h):
    p = h[1]
    if isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int):
        return p[2] & 1
    raise Malformed("phase of %s is not known" % show(h))


def notp(h):
    return (h[0], ("p", h[1][1], h[1][2] ^ 1))


def show_obj(o):
    if isinstance(o, tuple):
        if o[0] == "n":
            return str(o[1])
        return " ".join(str(x) for x in o)
    return str(o)


def show(h):
    if isinstance(h, tuple) and len(h) == 2 and not isinstance(h[0], str):
        p = h[1]
        if isinstance(p, tuple) and p[0] == "p":
            return "%s%s" % ("!" if isinstance(p[2], int) and p[2] & 1 else "", show_obj(p[1]))
        return "(%r, %r)" % h
    return repr(h)


def strarg(ai, args):
    a = args[0] if args else None
    try:
        if isinstance(a, tuple) and a[0] == "p" and a[1][0] == "g":
            m = ai.prog.mods[a[1][1]]
            return m.globals[a[1][2]][1][1]
    except Exception:
        pass
    return "?"
