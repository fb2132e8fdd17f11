"""World of the public interface: user diagrams, collection points, ownership.

Every public operation is analysed on abstract user diagrams.  The contracts of
pre-/post-processing are the vulnerable moments: after each of them every
internal (uncounted) handle obtained before is stale.  One run decides several
properties, told apart by the tag of a finding: den (value), own (user
references), stale (handle used across a collection point), null (null
arguments), over (node limit), leak (temporary memory)."""
from ir import AnalysisBroken, PTR
from ai import Interp, UNDEF
from world import Malformed, unpack, storeh, getref, packref, addbits
from bddw import HW, T_neg, notp, show, show_obj, Canon


class Stale(Malformed):
    tag = "stale"


class Own(Malformed):
    tag = "own"


class Leak(Malformed):
    tag = "leak"


class Over(Malformed):
    tag = "over"


class Null(Malformed):
    tag = "null"


OVERFLOWED = None


class API(HW):
    def __init__(self, prog, atoms, order, depth=1, maxdepth=6):
        HW.__init__(self, prog, atoms, order, depth)
        self.struct = {}
        self.uobj = {}
        d = self.st.d
        d["epoch"] = 0
        d["born"] = {}
        d["uden"] = {}
        d["points"] = ()
        self.uref = {}
        self.mk(("u", "one"), self.h("1"), self.h("1"), 255)
        self.uobj[("u", "one")] = "1"
        self.mfield("userOneBdd", ("p", ("u", "one"), 0))
        self.mfield("userZeroBdd", ("p", ("u", "one"), 1))
        self.mfield("numNodes", ("s", "numNodes0"))
        self.mfield("varBdds", ("p", ("arr", "varBdds"), 0))
        self.mfield("requestNodeListArray", ("p", ("arr", "rnl"), 0))
        self.mfield("maxDepth", maxdepth)
        self.mfield("nodeLimit", ("s", "nodeLimit"))
        self.mfield("gcCheck", ("s", "gcCheck"))
        self.st.fill[("arr", "rnl")] = ((0, None, 0),)
        for i in order:
            if "v%d" % i in self.atoms:
                self.bnode("pv%d" % i, i, self.h("1"), self.h("0"), 255)
        self.reg()
        self.r0 = 3
        self.addr = 0
        self.warn_ok = False
        self.over = "never"     # or 'fork', 'always'
        self.ops = {}
        self.pre_calls = 0

    def reg(self):
        pass

    # -- construction
    def leaf(self, name, id, tt=None, ref=3):
        h = HW.leaf(self, name, id, tt, ref)
        self.struct[name] = (None, id, ref)
        return h

    def bnode(self, name, id, t, e, ref=3, var=None, next=0):
        h = HW.bnode(self, name, id, t, e, ref, var, next)
        self.struct[name] = ((t, e), id, ref)
        return h

    def user(self, name, neg=0, ref=3):
        """user diagram for internal handle `name` ('1','0' allowed)"""
        if name.startswith("!"):
            return self.user(name[1:], neg ^ 1, ref)
        if name == "1":
            return ("p", ("u", "one"), neg)
        if name == "0":
            return ("p", ("u", "one"), neg ^ 1)
        o = ("u", name)
        if o not in self.uobj:
            self.uobj[o] = name
            self.mk(o, self.h(name), self.h("1"), ref)
        return ("p", o, neg)

    def uarray(self, names):
        o = ("arr", "uarg")
        for i, n in enumerate(names):
            self.put(o, 8 * i, self.user(n) if n else 0, 8)
        self.put(o, 8 * len(names), 0, 8)
        return ("p", o, 0)

    # -- epochs
    def epoch(self, st):
        return st.d["epoch"]

    def at(self, st, name, k):
        """internal handle of `name` as re-read in epoch k"""
        if name in ("one", "null") or k == 0:
            return self.h(name) if name != "one" else self.h("1")
        nn = "%s@%d" % (name, k)
        o = ("n", nn)
        if nn not in self.tt:
            self.tt[nn] = self.tt[name]
            self.id[nn] = self.id[name]
        if (o, self.N["thenBddNode"][0]) not in st.mem:
            ch, id, ref = self.struct[name]
            if ch is None:
                self.opaque_in(st, o, ref)
            else:
                t, e = [self.move(st, x, k) for x in ch]
                a, b, c = packref(ref)
                N = self.N
                st.mem[(o, N["nextBddNode"][0])] = (a, 8)
                st.mem[(o, N["thenBddId"][0])] = (t[0], 2)
                st.mem[(o, N["elseBddId"][0])] = (e[0], 2)
                st.mem[(o, N["thenBddNode"][0])] = (addbits(t[1], b), 8)
                st.mem[(o, N["elseBddNode"][0])] = (addbits(e[1], c), 8)
            self.refinit[o] = ref
        return (self.id[name], ("p", o, 0))

    def move(self, st, h, k):
        n = h[1][1][1]
        r = self.at(st, n.split("@")[0], k)
        return notp(r) if h[1][2] & 1 else r

    def born(self, st, o):
        if o[0] == "n":
            if o[1] in ("one", "null"):
                return None
            return int(o[1].split("@")[1]) if "@" in o[1] else 0
        return st.d["born"].get(o)

    def stale(self, st, o):
        b = self.born(st, o)
        return b is not None and b < st.d["epoch"]

    def setdyn(self, st, obj, id, tt, kind, ref0=None):
        HW.setdyn(self, st, obj, id, tt, kind, ref0)
        st.d["born"] = dict(st.d["born"])
        st.d["born"][obj] = st.d["epoch"]

    def denote(self, st, h, checkid=True):
        p = h[1]
        if isinstance(p, tuple) and p[0] == "p" and p[1] == ("n", "null"):
            raise Malformed("the null diagram is used as an operand or result")
        if isinstance(p, tuple) and p[0] == "p" and self.stale(st, p[1]):
            raise Stale("an internal handle of %s obtained before a collection point is used after it" % show_obj(p[1]))
        return HW.denote(self, st, h, checkid)

    def on_load(self, ai, st, obj, off, size, ty):
        if isinstance(obj, tuple) and obj[0] in ("n", "old", "new", "rqn") and self.stale(st, obj):
            ai.report(st, "stale", "a node obtained before a collection point is read after it")
            st.status = "dead"
            return (None,)
        if obj == ("arr", "varBdds") and isinstance(off, int):
            B = self.B
            i, f = divmod(off, 16)
            n = "pv%d" % i
            if n in self.tt:
                h = self.at(st, n, st.d["epoch"])
                if f == B["bddId"][0]:
                    return (h[0],)
                if f == B["bddNode"][0]:
                    return (h[1],)
        if isinstance(obj, tuple) and obj in st.d.get("gone", ()):
            ai.report(st, "leak", "memory is read after it was released")
        if getattr(self, "more_load", None):
            return self.more_load(ai, st, obj, off, size, ty)
        return None

    def point(self, st, what):
        st.d = dict(st.d)
        st.d["epoch"] += 1
        st.d["points"] = st.d["points"] + (what,)

    # -- contracts of the interface layer
    def uden(self, st, p):
        """meaning of a user diagram"""
        if not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int) and p[2] in (0, 1)):
            raise Malformed("the result is not a diagram")
        o = p[1]
        if o in self.uobj:
            n = self.uobj[o]
            t = self.full if n == "1" else self.tt[n]
        elif o in st.d["uden"]:
            t = st.d["uden"][o]
        else:
            raise Malformed("the result is not a diagram")
        return self.neg(t) if p[2] else t

    def m_internal(self, ai, st, args):
        p = args[1]
        if p == 0:
            raise Null("the null diagram is dereferenced")
        if not (isinstance(p, tuple) and p[0] == "p" and p[2] in (0, 1)):
            raise Malformed("something that is not a diagram is used as one")
        o = p[1]
        k = st.d["epoch"]
        if o in self.uobj:
            n = self.uobj[o]
            h = self.h("1") if n == "1" else self.at(st, n, k)
        elif o in st.d["uden"]:
            # re-reading a result: a fresh opaque node
            n = ("old", st.fresh())
            self.setdyn(st, n, st.d["uid"][o], st.d["uden"][o], "node", 3)
            self.opaque_in(st, n, 3)
            h = (st.d["uid"][o], ("p", n, 0))
        else:
            raise Malformed("something that is not a diagram is used as one")
        if self.udelta(st, o) is not None and self.uref0(o) + self.udelta(st, o) <= 0:
            raise Own("a user diagram is used after its last reference was released")
        h = notp(h) if p[2] else h
        return ("struct", h)

    def uref0(self, o):
        return self.refinit[o] if o in self.uobj else 0

    def udelta(self, st, o):
        r = getref(st, self.p, o)
        r0 = self.uref0(o)
        if r is None:
            raise Own("the reference count of a user diagram is destroyed")
        if r0 == 255:
            if r != 255:
                raise Own("the saturated reference count of a constant is changed")
            return None
        return r - r0

    def m_external(self, ai, st, args):
        fn = self.p.fn("CalBddGetExternalBdd")
        bm, h = unpack(ai, st, fn, args)
        t = self.denote(st, h)
        if not self.isnode(st, h):
            raise Malformed("an unresolved request is given to the user")
        if h[1][1] == ("n", "one"):
            return ("p", ("u", "one"), h[1][2])
        neg = h[1][2]
        o = ("ue", st.fresh())
        st.d = dict(st.d)
        st.d["uden"] = dict(st.d["uden"])
        st.d["uden"][o] = self.neg(t) if neg else t
        st.d["uid"] = dict(st.d.get("uid", {}))
        st.d["uid"][o] = h[0]
        N = self.N
        st.mem[(o, N["nextBddNode"][0])] = (1, 8)
        st.mem[(o, N["thenBddId"][0])] = (h[0], 2)
        st.mem[(o, N["thenBddNode"][0])] = (("p", h[1][1], 0), 8)
        st.mem[(o, N["elseBddId"][0])] = (0, 2)
        st.mem[(o, N["elseBddNode"][0])] = (("p", ("n", "one"), 0), 8)
        return ("p", o, neg)

    def m_pre(self, ai, st, args):
        n = args[1]
        if not isinstance(n, int):
            raise AnalysisBroken("pre-processing with an unknown number of operands")
        if len(args) - 2 < n:
            raise Null("pre-processing is told %d operands but given %d" % (n, len(args) - 2))
        args = args[:2 + n]         # the rest is never looked at
        for a in args[2:]:
            if a == 0:
                st.trace = (st.trace, "pre-processing: null operand")
                return 0
        for a in args[2:]:
            if not (isinstance(a, tuple) and a[0] == "p" and (a[1] in self.uobj or a[1] in st.d["uden"])):
                raise Malformed("pre-processing of something that is not a diagram")
            self.m_internal(ai, st, [None, a])
        self.point(st, "pre")
        return 1

    def m_post(self, ai, st, args):
        self.point(st, "post")
        ok, ov = self.codes()
        outs = []
        if self.over in ("fork", "never"):
            s = st if self.over == "never" else st.copy()
            outs.append((s, ok))
        if self.over in ("fork", "always"):
            st.d = dict(st.d)
            st.d["over"] = True
            st.trace = (st.trace, "node limit exceeded")
            outs.append((st, ov))
        return outs

    def codes(self):
        return self.p.const("CAL_BDD_OK", "CAL_BDD_OVERFLOWED")

    def m_gc(self, ai, st, args):
        self.point(st, "gc")
        # references still held by unreturned results are lost work; recorded
        live = tuple(o for o in st.d["uden"] if self.udelta(st, o) and self.udelta(st, o) > 0)
        st.d["gclive"] = st.d.get("gclive", ()) + (live,)
        return 0

    def m_malloc(self, ai, st, a):
        o = ("h", st.fresh())
        st.objs[o] = ("alloc", ai.where(st), a[0])
        return ("p", o, 0)

    def m_calloc(self, ai, st, a):
        n = a[0] * a[1] if isinstance(a[0], int) and isinstance(a[1], int) else None
        p = self.m_malloc(ai, st, [n])
        st.fill[p[1]] = ((0, None, 0),)
        return p

    def m_free(self, ai, st, a):
        p = a[0]
        if p == 0:
            return None
        if not (isinstance(p, tuple) and p[0] == "p" and p[2] == 0):
            raise Leak("something that is not an allocated block is released")
        o = p[1]
        if o in st.d.get("gone", ()):
            raise Leak("a block is released twice")
        st.d = dict(st.d)
        st.d["gone"] = st.d.get("gone", ()) + (o,)
        return None

    def m_realloc(self, ai, st, a):
        p = self.m_malloc(ai, st, a[1:])
        q = a[0]
        if q == 0:
            return p
        for (o, k) in list(st.mem):
            if o == q[1] and not (isinstance(k, int) and isinstance(a[1], int) and k >= a[1]):
                st.mem[(p[1], k)] = st.mem[(o, k)]
        if q[1] in st.fill:
            st.fill[p[1]] = st.fill[q[1]]
        self.m_free(ai, st, [q])
        return p

    def m_opbf(self, ai, st, args):
        fn = self.p.fn("CalBddOpBF")
        bm, op, F, G = unpack(ai, st, fn, args)
        if not (isinstance(op, tuple) and op[0] == "fn" and op[1].split("/")[-1].split(":")[-1] in SEM):
            raise Malformed("unknown operation %r" % (op,))
        t = SEM[op[1].split("/")[-1].split(":")[-1]](self, self.denote(st, F), self.denote(st, G))
        return self.res(st, t, [F, G])

    def m_itebf(self, ai, st, args):
        fn = self.p.fn("CalBddOpITEBF")
        bm, F, G, H = unpack(ai, st, fn, args)
        return self.res(st, self.ite(*[self.denote(st, x) for x in (F, G, H)]), [F, G, H])

    def res(self, st, t, ops, id=None, check=True):
        if check:
            for x in ops:
                if not self.isnode(st, x):
                    raise Malformed("an unresolved request is used as an operand")
        if t in (0, self.full):
            h = self.h("1" if t else "0")
            return ("struct", h)
        ids = [self.idof(st, x) for x in ops if self.idof(st, x) != 0]
        i = id or (min(ids, key=lambda i: self.index[i]) if ids else 1)
        n = ("old", st.fresh())
        self.setdyn(st, n, i, t, "node", 3)
        self.opaque_in(st, n, 3)
        return ("struct", (i, ("p", n, 0)))

    def m_size(self, ai, st, args):
        if args[1] == 0:
            return 0
        self.m_pre(ai, st, [args[0], 1, args[1]])
        return ("s", ("size", args[1]))

    def m_warn(self, ai, st, args):
        if self.warn_ok:
            return None
        return HW.m_warn(self, ai, st, args)

    def apimodels(self):
        m = {"CalBddPreProcessing": self.m_pre, "CalBddPostProcessing": self.m_post,
             "CalBddGetInternalBdd": self.m_internal, "CalBddGetExternalBdd": self.m_external,
             "Cal_BddManagerGC": self.m_gc, "malloc": self.m_malloc, "free": self.m_free,
             "realloc": self.m_realloc, "calloc": self.m_calloc,
             "CalBddOpBF": self.m_opbf, "CalBddOpITEBF": self.m_itebf, "Cal_BddSize": self.m_size}
        return m

    def api(self, models=None, skip=(), **kw):
        m = self.apimodels()
        if models:
            m.update(models)
        for k in skip:
            m.pop(k, None)
        ai = self.interp(m, **kw)
        ai.on_load = self.on_load
        return ai

    # -- checks at return
    def check_own(self, s, returned):
        """returned: list of user pointers handed to the caller"""
        want = {}
        for p in returned:
            if isinstance(p, tuple) and p[0] == "p":
                want[p[1]] = want.get(p[1], 0) + 1
        for o in list(self.uobj) + list(s.d["uden"]):
            d = self.udelta(s, o)
            if d is None:
                continue
            w = want.get(o, 0)
            if d != w:
                kind = "an argument" if o in self.uobj else "a result"
                raise Own("the user references of %s change by %+d where %+d is due" % (kind, d, w))

    def check_mem(self, s, returned=()):
        gone = s.d.get("gone", ())
        for o, inf in s.objs.items():
            if isinstance(inf, tuple) and inf[0] == "alloc" and o not in gone and o not in returned:
                if self.reach(s, o):
                    continue
                raise Leak("memory allocated at %s is not released" % inf[1])
        self.check_nodes(s)

    def reach(self, s, o):
        """stored in a manager-level object"""
        for (ob, k), (v, z) in s.mem.items():
            if isinstance(v, tuple) and v[0] == "p" and v[1] == o and ob != o:
                if ob == self.M or (isinstance(ob, tuple) and ob[0] in ("arr", "ut", "rq", "nm")):
                    return True
                if isinstance(ob, tuple) and ob[0] == "h" and ob not in s.d.get("gone", ()) and self.reach(s, ob):
                    return True
        return False

    def check_nodes(self, s):
        """nodes taken from a free list are back on it unless they became part of a table"""
        N = self.N
        taken = {}
        for (o, k) in s.mem:
            if isinstance(o, tuple) and o[0] == "fr" and o not in s.d.get("dynfr", ()):
                taken.setdefault(o[1], set()).add(o[2])
        for id in list(self.index):
            off = self.p.off("CalNodeManagerStruct", "freeNodeList")
            c = s.mem.get((("nm", id), off))
            head = c[0] if c else ("p", ("fr", id, 0), 0)
            seen = set()
            n = 0
            while isinstance(head, tuple) and head[1][0] == "fr" and n < 200:
                o = head[1]
                if o in seen:
                    raise Leak("a node is put on the free list twice")
                seen.add(o)
                c = s.mem.get((o, N["nextBddNode"][0]))
                if c is None:
                    break
                head = c[0]
                n += 1
            if isinstance(head, tuple) and head[1][0] not in ("fr",):
                raise Leak("the free list contains something that is not a free node")
            last = max([o[2] for o in seen], default=0)
            have = {o[2] for o in seen}
            used = {k for k in range(last) if k not in have}
            for k in used:
                if ("fr", id, k) not in s.d["dyn"] and ("fr", id, k) not in s.d.get("kept", ()):
                    raise Leak("a request node is not returned to its node manager")


SEM = {"CalOpAnd": lambda W, f, g: f & g, "CalOpNand": lambda W, f, g: W.neg(f & g),
       "CalOpOr": lambda W, f, g: f | g, "CalOpXor": lambda W, f, g: f ^ g}
