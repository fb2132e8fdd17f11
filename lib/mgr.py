"""A whole manager as an abstract heap: real tables, pages, chains, packed counts, associations, cache and block tree.

Addresses are opaque (page objects without order), the hash of a key is an uninterpreted function, freed pages and
blocks are poisoned.  Functions below the explicit variables are represented by variables at the bottom of the order,
which the code can only tell apart by identity."""
from wholeops import m_qsort
from ir import AnalysisBroken, Budget
from world import World, Malformed, addbits
from bddw import rank, strarg
from api import Leak, Stale
from heap import HashInterp, again
from queries import i32
from kernels import loc
from ai import State


class Bad(Malformed):
    tag = "mgr"


class Val(Malformed):
    tag = "den"


class CanonE(Malformed):
    tag = "canon"


class Ref(Malformed):
    tag = "ref"


class Order(Malformed):
    tag = "order"


class Cover(Malformed):
    tag = "cover"


class Dead(Malformed):
    tag = "dead"


class Marks(Malformed):
    tag = "mark"


class Move(Malformed):
    tag = "move"


class CacheBad(Malformed):
    tag = "cache"


class Stop(Exception):
    """violations were reported"""


PAGE = 4096
PRINTS = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fflush", "fwrite", "vfprintf", "vprintf", "perror"}
NODE = 32


class MInterp(HashInterp):
    pass


class Mgr:
    def __init__(self, prog, digits=((0, 1, 2, 0, 3, 1, 1, 2, 0),), addr=0, realpages=False):
        self.p = prog
        self.N = prog.fields["CalBddNodeStruct"]
        self.B = prog.fields["Cal_BddStruct"]
        self.H = {k: prog.fields["CalHashTableStruct"][k] for k in ("numBins", "sizeIndex", "maxCapacity", "bins", "bddId", "numEntries", "nodeManager")}
        self.addr = addr
        self.realpages = realpages
        m = {"malloc": self.m_malloc, "calloc": self.m_calloc, "free": self.m_free, "realloc": self.m_realloc,
             "aligned_alloc": self.m_aligned, "CalBddWarningMessage": self.m_warn, "CalBddFatalMessage": self.m_fatal, "qsort": m_qsort,
             "<extern>": self.m_extern}
        self.outside = set()
        if not realpages:
            m["CalPageManagerAllocPage"] = self.m_allocpage
            m["CalPageManagerFreePage"] = self.m_freepage
        ai = MInterp(prog, m, unroll=2, maxsteps=6000000)
        ai.W = self
        ai.strict_truncate = True
        ai.maxrec = 60
        ai.maxdepth = 150
        ai.digits = digits
        ai.ordhook = lambda st, a, b: (rank(a) < rank(b)) != bool(addr)
        ai.on_load = self.on_load
        ai.on_store = None
        self.ai = ai
        self.s = State()
        self.s.d["gone"] = ()
        self.s.d["pool"] = ()
        self.s.d["reused"] = ()
        self.blockstruct = [k for k, v in prog.fields.items() if "numChildren" in v and "lastIndex" in v][0]
        self.M = None
        self.fnlast = None
        self.warnok = False
        self.phantom = []

    # ---- memory models
    def blk(self, st, kind, size, ai):
        o = ("h", st.fresh())
        st.objs[o] = (kind, ai.where(st), size)
        return o

    def m_malloc(self, ai, st, a):
        return ("p", self.blk(st, "alloc", a[0], ai), 0)

    def m_calloc(self, ai, st, a):
        n = a[0] * a[1] if isinstance(a[0], int) and isinstance(a[1], int) else None
        o = self.blk(st, "alloc", n, ai)
        st.fill[o] = ((0, None, 0),)
        return ("p", o, 0)

    def m_aligned(self, ai, st, a):
        return ("p", self.blk(st, "alloc", a[1], ai), 0)

    def m_free(self, ai, st, a):
        p = a[0]
        if p == 0:
            return None
        if not (isinstance(p, tuple) and p[0] == "p" and p[2] == 0 and st.objs.get(p[1], ("",))[0] == "alloc"):
            raise Leak("something that is not an allocated block is released")
        if p[1] in st.d["gone"]:
            raise Leak("a block is released twice")
        st.d = dict(st.d)
        st.d["gone"] = st.d["gone"] + (p[1],)
        return None

    def m_realloc(self, ai, st, a):
        q = a[0]
        if q == 0:
            return self.m_malloc(ai, st, a[1:])
        if not (isinstance(q, tuple) and q[0] == "p" and q[2] == 0) or q[1] in st.d["gone"]:
            raise Leak("something that is not an allocated block is resized")
        p = self.m_malloc(ai, st, a[1:])
        n = a[1]
        for (o, k) in list(st.mem):
            if o == q[1] and not (isinstance(k, int) and isinstance(n, int) and k >= n):
                st.mem[(p[1], k)] = st.mem[(o, k)]
        if q[1] in st.fill:
            st.fill[p[1]] = st.fill[q[1]]
            old = st.objs[q[1]][2]
            if isinstance(old, int) and isinstance(n, int) and n > old:
                st.fill[p[1]] = tuple((lo, old if hi is None else min(hi, old), v) for lo, hi, v in st.fill[q[1]])
        self.m_free(ai, st, [q])
        return p

    def m_allocpage(self, ai, st, a):
        """a page is aligned; a recycled one still has its old contents"""
        pool = st.d["pool"]
        key = a[0]
        o = self.blk(st, "page", PAGE, ai)
        st.d = dict(st.d)
        mine = [i for i, x in enumerate(pool) if x[0] == key]
        if mine:
            i = mine[-1]
            old = pool[i][1]
            st.d["pool"] = pool[:i] + pool[i + 1:]
            st.d["reused"] = st.d["reused"] + (old,)
            for (ob, k), c in list(st.mem.items()):
                if ob == old:
                    st.mem[(o, k)] = c
            st.fill[o] = st.fill.get(old, ())
        else:
            st.fill[o] = ((0, None, 0),)
        return ("p", o, 0)

    def m_freepage(self, ai, st, a):
        p = a[1]
        if not (isinstance(p, tuple) and p[0] == "p" and p[2] == 0 and st.objs.get(p[1], ("",))[0] == "page"):
            raise Leak("something that is not a page is given back")
        if p[1] in st.d["gone"]:
            raise Leak("a page is given back twice")
        st.d = dict(st.d)
        st.d["gone"] = st.d["gone"] + (p[1],)
        st.d["pool"] = st.d["pool"] + ((a[0], p[1]),)
        # the first word links the free pages
        st.mem[(p[1], 0)] = (("p", ("free", "pages"), 0), 8)
        return None

    def m_warn(self, ai, st, a):
        if self.warnok:
            return None
        raise Bad("a warning is raised: " + strarg(ai, a))

    def m_fatal(self, ai, st, a):
        raise Bad("a fatal error is raised: " + strarg(ai, a))

    def on_load(self, ai, st, obj, off, size, ty):
        if isinstance(obj, tuple) and obj[0] == "h" and obj in st.d["gone"]:
            if st.objs[obj][0] == "page":
                if obj in st.d["reused"]:
                    ai.report(st, "move", "a node is read in a page that was given back and serves another variable now")
            else:
                ai.report(st, "leak", "memory is read after it was released")
        return None

    def m_extern(self, ai, st, args, name):
        if not name.startswith("llvm.") and name not in PRINTS:
            self.outside.add(name)
        return ai.unknown(st, ai.curinstr)

    # ---- calls
    def call(self, name, *args, s=None):
        """one path in, one path out"""
        fn = self.p.fn(name)
        self.fnlast = fn
        st = again(s or self.s)
        self.s = st
        flat = self.pack(fn, list(args))
        fin = self.ai.run(fn, flat, st)
        if len(fin) != 1:
            if self.ai.violations:
                raise Stop()
            if not self.outside:
                # nothing but memory that was never written is undetermined here
                raise Bad("what %s does depends on a value that was never set" % name)
            raise AnalysisBroken("%s has %d outcomes (after %s)" % (name, len(fin), ", ".join(sorted(self.outside))))
        if fin[0].status == "abort":
            raise Bad("%s aborts the program" % name)
        if self.ai.violations:
            raise Stop()
        self.s = fin[0]
        return self.s.retval

    pack = World.pack

    def put(self, obj, off, v, size):
        self.s.mem[(obj, off)] = (v, size)

    def puthandle(self, obj, off, h):
        self.put(obj, off + self.B["bddId"][0], h[0], self.B["bddId"][1])
        self.put(obj, off + self.B["bddNode"][0], h[1], 8)

    # ---- reading
    def rd(self, o, off, size=8):
        return self.ai.read(self.s, o, off, size)

    def f(self, o, struct, name, base=0):
        off, size = self.p.fields[struct][name] if name in self.p.fields.get(struct, {}) else (self.p.off(struct, name), 8)
        return self.rd(o, base + off, size)

    def mf(self, name):
        return self.f(self.M, "Cal_BddManagerStruct", name)

    def setf(self, o, struct, name, v):
        off, size = self.p.fields[struct][name]
        self.s.mem[(o, off)] = (v, size)

    def setm(self, name, v):
        self.setf(self.M, "Cal_BddManagerStruct", name, v)

    def arr(self, p, i, size):
        return self.rd(p[1], p[2] + i * size, size)

    def node(self, p):
        """(obj, aligned offset) of a node pointer"""
        if not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int)):
            raise Val("a branch does not refer to a node: %r" % (p,))
        return (p[1], p[2] & ~1)

    def nf(self, n, name):
        off, size = self.N[name]
        return self.rd(n[0], n[1] + off, size)

    def bits(self, v):
        if isinstance(v, int):
            return v & 0xf
        if isinstance(v, tuple) and v[0] == "p" and isinstance(v[2], int):
            return v[2] & 0xf
        raise Ref("a node field is not a tagged pointer: %r" % (v,))

    def strip(self, v, mask):
        if isinstance(v, int):
            return v & ~mask
        return ("p", v[1], v[2] & ~mask)

    def refcount(self, n):
        a = self.bits(self.nf(n, "nextBddNode"))
        b = self.bits(self.nf(n, "thenBddNode"))
        c = self.bits(self.nf(n, "elseBddNode"))
        return (a & 0xf) | ((c & 0xe) << 3) | ((b & 2) << 6)

    def then(self, n):
        return (self.nf(n, "thenBddId"), self.strip(self.nf(n, "thenBddNode"), 0xe))

    def els(self, n):
        return (self.nf(n, "elseBddId"), self.strip(self.nf(n, "elseBddNode"), 0xe))

    def nxt(self, n):
        return self.strip(self.nf(n, "nextBddNode"), 0xf)

    def handle(self, name):
        o = self.p.off("Cal_BddManagerStruct", name)
        return (self.rd(self.M, o + self.B["bddId"][0], 2), self.rd(self.M, o + self.B["bddNode"][0], 8))



    # ---- construction by the library's own functions
    def start(self, p=None):
        p = p or self.call("Cal_BddManagerInit")
        if not (isinstance(p, tuple) and p[0] == "p" and p[2] == 0):
            raise AnalysisBroken("no manager is made")
        self.M = p[1]
        self.bm = p
        self.users = {}
        self.vars = {}
        # a small cache
        c = self.mf("cacheTable")[1]
        off = self.p.fields["CalCacheTableStruct"]
        self.s.mem[(c, off["numBins"][0])] = (4, off["numBins"][1])
        self.s.mem[(c, off["sizeIndex"][0])] = (2, off["sizeIndex"][1])
        self.shrink(self.table(0))
        return self

    def table(self, id):
        return self.arr(self.mf("uniqueTable"), id, 8)[1]

    def shrink(self, t, n=4, cap=100):
        """fewer bins; the entries are put back in place"""
        H = self.H
        b = self.rd(t, H["bins"][0], 8)[1]
        nodes = []
        for (o, k), (v, z) in list(self.s.mem.items()):
            if o == b:
                while v != 0:
                    nodes.append((v[1], v[2]))
                    v = self.nxt(nodes[-1])
                del self.s.mem[(o, k)]
        kind, where, size = self.s.objs[b]
        self.s.objs[b] = (kind, where, 8 * n)
        self.s.fill[b] = ((0, None, 0),)
        for k, v in (("numBins", n), ("sizeIndex", n.bit_length() - 1), ("maxCapacity", cap), ("numEntries", 0)):
            self.s.mem[(t, H[k][0])] = (v, H[k][1])
        for nd in nodes:
            self.call("CalHashTableAddDirect", ("p", t, 0), ("p", nd[0], nd[1]))

    def newvar(self, how="Last", ref=None, name=None):
        fn = "Cal_BddManagerCreateNewVar" + how
        u = self.call(fn, self.bm, *([self.users[ref][0]] if ref else []))
        id = i32(self.mf("numVars"))
        self.vars[id] = u
        self.shrink(self.table(id))
        if name:
            self.users[name] = (u, None)
        return id

    def var(self, id):
        a = self.mf("varBdds")
        return (self.rd(a[1], a[2] + 16 * id + self.B["bddId"][0], 2), self.rd(a[1], a[2] + 16 * id + self.B["bddNode"][0], 8))

    def one(self):
        return self.handle("bddOne")

    def mk(self, id, t, e):
        """the diagram node (id, t, e)"""
        if t == e:
            return t
        r = ("arr", "res")
        if not i32(self.call("CalUniqueTableForIdFindOrAdd", self.bm, ("p", self.table(id), 0), t, e, ("p", r, 0))):
            self.addref(t)
            self.addref(e)
        return (self.rd(r, self.B["bddId"][0], 2), self.rd(r, self.B["bddNode"][0], 8))

    def build(self, tt, order):
        """diagram of a truth table over the ids in order (first is the top)"""
        n = len(order)
        key = (tt, tuple(order))
        one = self.one()
        if n == 0:
            return one if tt & 1 else neg(one)
        half = 1 << (n - 1)
        lo, hi = tt & ((1 << half) - 1), tt >> half
        t, e = self.build(hi, order[1:]), self.build(lo, order[1:])
        return self.mk(order[0], t, e)

    def setref(self, n, r):
        st = self.s
        for f, keep, b in (("nextBddNode", 0, r & 0xf), ("thenBddNode", 0xd, (r >> 7 & 1) << 1), ("elseBddNode", 1, (r >> 4 & 7) << 1)):
            off, z = self.N[f]
            v = self.nf(n, f)
            if isinstance(v, int):
                v = (v & ~0xf) | (v & keep) | b
            else:
                v = ("p", v[1], (v[2] & ~0xf) | (v[2] & keep) | b)
            st.mem[(n[0], n[1] + off)] = (v, z)

    def addref(self, h, k=1):
        n = self.node(h[1])
        r = self.refcount(n)
        if r < 255:
            self.setref(n, min(255, r + k))

    def user(self, name, h):
        u = self.call("CalBddGetExternalBdd", self.bm, h)
        self.users[name] = (u, None)
        return u

    def userarray(self, us):
        """a list of user diagrams, ended by a null"""
        o = ("arr", "list%d" % self.s.fresh())
        for i, u in enumerate(us):
            self.put(o, 8 * i, u, 8)
        self.put(o, 8 * len(us), 0, 8)
        return ("p", o, 0)

    def internal(self, u):
        h = self.then((u[1], u[2] & ~1))
        return neg(h) if u[2] & 1 else h


def neg(h):
    p = h[1]
    return (h[0], ("p", p[1], p[2] ^ 1))


class View:
    """the contents of a manager; construction checks its invariants"""

    def __init__(self, m, lookups=True):
        self.m = m
        self.n = i32(m.mf("numVars"))
        self.onenode = m.node(m.handle("bddOne")[1])
        self.nullnode = m.node(m.handle("bddNull")[1])
        self.order()
        self.tables()
        self.edges()
        self.users()
        self.vars()
        self.assocs()
        self.cache()
        self.count()
        self.pages()
        self.blocks()
        self.numnodes = i32(m.mf("numNodes"))
        self.freed = i32(m.mf("numNodesFreed"))
        if lookups:
            self.lookups()

    # ---- variable order
    def order(self):
        m, n = self.m, self.n
        a, b = m.mf("idToIndex"), m.mf("indexToId")
        self.sizes()
        self.index = {0: i32(m.arr(a, 0, 2))}
        if self.index[0] != 0xFFFF:
            raise Order("the constant's position is no longer below every variable")
        for i in range(1, n + 1):
            self.index[i] = m.arr(a, i, 2)
        self.ids = [m.arr(b, i, 2) for i in range(n)]
        for i, id in enumerate(self.ids):
            if self.index.get(id) != i:
                raise Order("position %d holds variable %s, whose position is %s" % (i, id, self.index.get(id)))
        if sorted(self.ids) != list(range(1, n + 1)):
            raise Order("positions hold the variables %s" % (self.ids,))

    def sizes(self):
        m, n = self.m, self.n
        for f, k, z in (("idToIndex", n + 1, 2), ("indexToId", n, 2), ("uniqueTable", n + 1, 8), ("nodeManagerArray", n + 1, 8), ("varBdds", n + 1, 16)):
            p = m.mf(f)
            if not (isinstance(p, tuple) and p[0] == "p"):
                raise Cover("%s is not a table" % f)
            inf = m.s.objs.get(p[1])
            if p[1] in m.s.d["gone"]:
                raise Leak("%s was released" % f)
            if isinstance(inf[2], int) and inf[2] < k * z:
                raise Cover("%s has %d bytes for %d entries" % (f, inf[2], k))
        p = m.mf("reqQue")
        for i in range(i32(m.mf("maxDepth"))):
            q = m.arr(p, i, 8)
            inf = m.s.objs.get(q[1])
            if isinstance(inf[2], int) and inf[2] < 8 * (n + 1):
                raise Cover("the request queue of depth %d has %d bytes for %d entries" % (i, inf[2], n + 1))
            for j in range(n + 1):
                t = m.arr(q, j, 8)
                if not (isinstance(t, tuple) and t[0] == "p" and t[2] == 0 and t[1] not in m.s.d["gone"]):
                    raise Cover("there is no request table for variable %d at depth %d" % (j, i))
                if m.f(t[1], "CalHashTableStruct", "bddId") != j or m.f(t[1], "CalHashTableStruct", "nodeManager") != m.arr(m.mf("nodeManagerArray"), j, 8):
                    raise Cover("the request table of variable %d at depth %d belongs to another variable" % (j, i))
                if m.f(t[1], "CalHashTableStruct", "numEntries") != 0:
                    raise Leak("requests are left in the table of variable %d at depth %d" % (j, i))

    # ---- tables
    def chain(self, t, id):
        m = self.m
        out = []
        nb = i32(m.f(t, "CalHashTableStruct", "numBins"))
        bins = m.f(t, "CalHashTableStruct", "bins")
        inf = m.s.objs.get(bins[1])
        if bins[1] in m.s.d["gone"]:
            raise Leak("the bins of variable %d are released" % id)
        if isinstance(inf[2], int) and inf[2] != 8 * nb:
            raise Bad("the table of variable %d has %d bins in %d bytes" % (id, nb, inf[2]))
        fill0 = m.s.fill.get(bins[1])
        cells = range(nb)
        if nb > 64 and fill0:
            cells = sorted(k // 8 for (o, k) in m.s.mem if o == bins[1] and isinstance(k, int))
        for i in cells:
            p = m.arr(bins, i, 8)
            k = 0
            while p != 0:
                if not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int) and p[2] % NODE == 0):
                    raise Bad("a chain of the table of variable %d contains %r" % (id, p))
                nd = (p[1], p[2])
                if nd[0] in m.s.d["gone"]:
                    raise Move("the table of variable %d lists a node in a page that was given back" % id)
                if nd in self.where:
                    raise Bad("a node is listed twice in the tables (variable %d)" % id)
                self.where[nd] = id
                out.append(nd)
                p = m.nxt(nd)
                k += 1
                if k > 3000:
                    raise Bad("a chain of the table of variable %d is cyclic" % id)
        e = m.f(t, "CalHashTableStruct", "numEntries")
        if e != len(out):
            raise TableBad("the table of variable %d counts %s entries and has %d" % (id, e, len(out)))
        return out

    def tables(self):
        m = self.m
        self.where = {}
        self.nodes = {}
        ut, nm = m.mf("uniqueTable"), m.mf("nodeManagerArray")
        for id in range(self.n + 1):
            t = m.arr(ut, id, 8)
            if not (isinstance(t, tuple) and t[0] == "p" and t[2] == 0):
                raise Cover("there is no table for variable %d" % id)
            if m.f(t[1], "CalHashTableStruct", "bddId") != id:
                raise Cover("the table of variable %d belongs to variable %r" % (id, m.f(t[1], "CalHashTableStruct", "bddId")))
            if m.f(t[1], "CalHashTableStruct", "nodeManager") != m.arr(nm, id, 8):
                raise Cover("the table of variable %d uses the node manager of another one" % id)
            self.nodes[id] = self.chain(t[1], id)

    def child(self, nd, id, h):
        c, p = h
        if not isinstance(c, int) or not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int)):
            raise Val("a branch of a node of variable %d is %r" % (id, h))
        q = (p[1], p[2] & ~1)
        if q == self.onenode:
            if c != 0:
                raise Val("a branch to the constant carries variable %d" % c)
            return
        if q not in self.where:
            if q[0] in self.m.s.d["gone"]:
                raise Move("a branch of a node of variable %d refers to a page that was given back" % id)
            raise Move("a branch of a node of variable %d refers to a node that is in no table" % id)
        if self.where[q] != c:
            raise Val("a branch of a node of variable %d carries variable %d but refers to a node of variable %d" % (id, c, self.where[q]))
        if self.index[c] <= self.index[id]:
            raise CanonE("a branch of a node of variable %d leads to variable %d, which is not below it" % (id, c))

    def edges(self):
        m = self.m
        self.te = {}
        for id in range(1, self.n + 1):
            seen = {}
            for nd in self.nodes[id]:
                t, e = m.then(nd), m.els(nd)
                if m.bits(m.nf(nd, "thenBddNode")) & 0xc:
                    raise Marks("a node of variable %d is left marked" % id)
                if e[1] == 0:
                    raise Move("the table of variable %d contains a node that was moved away" % id)
                self.te[nd] = (t, e)
                self.child(nd, id, t)
                self.child(nd, id, e)
                if t[1][2] & 1:
                    raise CanonE("the positive branch of a node of variable %d is complemented" % id)
                if t == e:
                    raise CanonE("both branches of a node of variable %d are the same" % id)
                if (t, e) in seen:
                    raise CanonE("two nodes of variable %d have the same branches" % id)
                seen[(t, e)] = nd
        self.den = {self.onenode: -1}
        self.atoms = {}
        # with many variables a function is represented by its diagram, which is the same only while the order is
        self.shape = self.n > 9
        self.full = True if self.shape else (1 << (1 << self.n)) - 1
        for i in range(1, self.n + 1):
            self.atoms[i] = (i, (0, True), (1, True)) if self.shape else atom(i - 1, self.n)

    def tt(self, h):
        p = h[1]
        nd = (p[1], p[2] & ~1)
        r = self.val(nd)
        if self.shape:
            return (p[2] & 1, r)
        return (self.full & ~r) if p[2] & 1 else r

    def val(self, nd):
        if nd == self.onenode:
            return self.full
        r = self.den.get(nd)
        if r is None:
            if nd not in self.te:
                if nd[0] in self.m.s.d["gone"]:
                    raise Move("a reference leads to a page that was given back")
                raise Move("a reference leads to a node that is in no table")
            t, e = self.te[nd]
            if self.shape:
                r = self.den[nd] = (self.where[nd], self.tt(t), self.tt(e))
                return r
            v = self.atoms[self.where[nd]]
            r = self.den[nd] = (v & self.tt(t)) | (self.full & ~v & self.tt(e))
        return r

    def href(self, h, what):
        """a handle: its node is in the table it names"""
        c, p = h
        if not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int)) or not isinstance(c, int):
            raise Move("%s is not a reference to a node: %r" % (what, h))
        nd = (p[1], p[2] & ~1)
        if nd == self.onenode:
            if c != 0:
                raise Move("%s refers to the constant as variable %d" % (what, c))
            return self.tt(h)
        if nd not in self.where or self.where[nd] == 0:
            if nd[0] in self.m.s.d["gone"]:
                raise Move("%s refers to a page that was given back" % what)
            raise Move("%s refers to a node that is in no table" % what)
        if self.where[nd] != c:
            raise Move("%s names variable %d but refers to a node of variable %d" % (what, c, self.where[nd]))
        return self.tt(h)

    def isnull(self, h):
        return h[0] == 0xFFFF or (isinstance(h[1], tuple) and (h[1][1], h[1][2] & ~1) == self.nullnode)

    # ---- holders
    def users(self):
        m = self.m
        self.uval = {}
        self.uholds = {}
        for nd in self.nodes[0]:
            if (nd[0], nd[1]) == m.node(m.mf("userOneBdd")):
                continue
            h = m.then(nd)
            h = (h[0], h[1])
            self.uval[nd] = (self.href(h, "a user diagram"), m.refcount(nd))
            q = (h[1][1], h[1][2] & ~1)
            self.uholds[q] = self.uholds.get(q, 0) + 1
            if q[1] is None or h[1][2] & 1:
                raise Val("a user diagram holds a complemented node")

    def vars(self):
        m = self.m
        for i in range(1, self.n + 1):
            h = m.var(i)
            a = (0, self.atoms[i]) if self.shape else self.atoms[i]
            if self.href(h, "the projection diagram of variable %d" % i) != a:
                raise Val("the projection diagram of variable %d is another function" % i)
            if m.refcount(m.node(h[1])) != 255:
                raise Ref("the projection diagram of variable %d lost its permanent reference" % i)

    def assocs(self):
        m = self.m
        A = "CalAssociationStruct"
        self.assoc = {}
        self.aholds = {}
        p = m.mf("associationList")
        l = [("temp", m.mf("tempAssociation"))]
        k = 0
        while p != 0 and k < 20:
            l.append((None, p))
            p = m.f(p[1], A, "next")
            k += 1
        cap = i32(m.mf("maxNumVars"))
        for name, p in l:
            if p[1] in m.s.d["gone"]:
                raise Leak("an association in use is released")
            id = i32(m.f(p[1], A, "id"))
            v = m.f(p[1], A, "varAssociation")
            inf = m.s.objs[v[1]]
            if isinstance(inf[2], int) and inf[2] < 16 * (self.n + 1):
                raise Cover("an association has %d bytes for %d entries" % (inf[2], self.n + 1))
            d, last = {}, -1
            for i in range(1, self.n + 1):
                h = (m.rd(v[1], v[2] + 16 * i + m.B["bddId"][0], 2), m.rd(v[1], v[2] + 16 * i + m.B["bddNode"][0], 8))
                if not isinstance(h[0], int):
                    raise Cover("the entry of an association for variable %d is not initialised" % i)
                if self.isnull(h):
                    continue
                d[i] = self.href(h, "the entry of an association for variable %d" % i)
                q = (h[1][1], h[1][2] & ~1)
                self.aholds[q] = self.aholds.get(q, 0) + 1
                last = max(last, self.index[i])
            lb = i32(m.f(p[1], A, "lastBddIndex"))
            if lb != last:
                raise Order("the last position of an association is recorded as %d but is %d" % (lb, last))
            self.assoc[(name, id)] = d

    def cache(self):
        m = self.m
        c = m.mf("cacheTable")[1]
        off = m.p.fields["CalCacheTableStruct"]
        E = m.p.fields["CacheEntryStruct"]
        n = m.rd(c, off["numBins"][0], 8)
        b = m.rd(c, off["bins"][0], 8)
        self.entries = []
        for i in range(n):
            g = lambda f: m.rd(b[1], b[2] + 32 * i + E[f][0], E[f][1])
            if g("opCode") == 0:
                continue
            o1, o2 = g("operand1"), g("operand2")
            try:
                ops = []
                for o in (o1, o2):
                    o = (o[0], o[1], o[2] & ~2)
                    if (o[1], o[2] & ~1) not in self.where and (o[1], o[2] & ~1) != self.onenode:
                        raise CacheBad("a cached result mentions an operand that is no longer a diagram")
                    ops.append(self.tt((0, o)))
                r = (g("resultBddId"), g("resultBddNode"))
                if (r[1][1], r[1][2] & ~1) not in self.where and (r[1][1], r[1][2] & ~1) != self.onenode:
                    raise CacheBad("a cached result is no longer a diagram")
                self.entries.append((g("opCode"), frozenset(ops) if True else None, self.href(r, "a cached result")))
            except Move as e:
                raise CacheBad(str(e))

    # ---- counts
    def count(self):
        m = self.m
        par = {}
        for nd, (t, e) in self.te.items():
            for h in (t, e):
                q = (h[1][1], h[1][2] & ~1)
                par[q] = par.get(q, 0) + 1
        self.ref = {}
        self.extra = {}
        for nd in self.te:
            r = m.refcount(nd)
            self.ref[nd] = r
            if r == 255:
                continue
            x = r - par.get(nd, 0) - self.uholds.get(nd, 0) - self.aholds.get(nd, 0)
            if x < 0:
                raise Ref("a node of variable %d has %d references but is referred to %d times" % (self.where[nd], r, r - x))
            if x:
                self.extra[self.val(nd)] = x
        self.par = par

    def full_at(self, val):
        """the node of this function has the count that stays"""
        return any(self.ref[nd] == 255 and self.val(nd) == val for nd in self.ref)

    # ---- pages and free lists
    def pages(self):
        m = self.m
        owner = {}
        self.free = {}
        X = "CalNodeManagerStruct"
        kind = "alloc" if m.realpages else "page"
        for id in range(self.n + 1):
            nm = m.arr(m.mf("nodeManagerArray"), id, 8)[1]
            pl = m.f(nm, X, "pageList")
            np_, mx = i32(m.f(nm, X, "numPages")), i32(m.f(nm, X, "maxNumPages"))
            if pl[1] in m.s.d["gone"]:
                raise Leak("the page list of variable %d is released" % id)
            inf = m.s.objs.get(pl[1])
            if isinstance(inf[2], int) and inf[2] < 8 * max(np_, mx):
                raise Cover("the page list of variable %d has %d bytes for %d pages" % (id, inf[2], mx))
            for i in range(np_):
                p = m.arr(pl, i, 8)
                if not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int) and p[2] % PAGE == 0 and m.s.objs.get(p[1], ("",))[0] == kind):
                    raise Leak("page %d of variable %d is not a page: %r" % (i, id, p))
                if p[1] in m.s.d["gone"]:
                    raise Move("page %d of variable %d was given back" % (i, id))
                g = (p[1], p[2] // PAGE)
                if g in owner:
                    raise Move("two node managers own the same page")
                owner[g] = id
            q = m.f(nm, X, "freeNodeList")
            seen = set()
            while q != 0:
                if not (isinstance(q, tuple) and q[0] == "p" and isinstance(q[2], int) and q[2] % NODE == 0):
                    raise Leak("the free list of variable %d contains %r" % (id, q))
                nd = (q[1], q[2])
                if nd in seen:
                    raise Leak("the free list of variable %d contains a node twice" % id)
                if nd in self.where:
                    raise Dead("the free list of variable %d contains a node that is in the table of variable %d" % (id, self.where[nd]))
                if owner.get((nd[0], nd[1] // PAGE)) != id:
                    raise Move("the free list of variable %d contains a node of a page it does not own" % id)
                seen.add(nd)
                q = m.nf(nd, "nextBddNode")
            self.free[id] = len(seen)
        for nd, id in self.where.items():
            if owner.get((nd[0], nd[1] // PAGE)) != id and nd[0] in m.s.objs and m.s.objs[nd[0]][0] == kind:
                raise Move("a node of variable %d lies in a page that variable does not own" % id)
        self.npages = len(owner)
        self.lost = {}
        for id in range(self.n + 1):
            k = sum(1 for g in owner if owner[g] == id) * (PAGE // NODE) - self.free[id] - len([1 for nd in self.nodes[id] if (nd[0], nd[1] // PAGE) in owner])
            if id and k:
                raise Leak("%d nodes of variable %d are neither in its table nor free" % (k, id))
        for o, inf in m.s.objs.items():
            if inf[0] == "page" and o not in m.s.d["gone"] and (o, 0) not in owner:
                raise Leak("a page taken at %s is neither used nor given back" % inf[1])
        if m.realpages:
            self.segments(owner)

    def segments(self, owner):
        """every page of every segment is owned by one node manager or free"""
        m = self.m
        X = "CalPageManagerStruct"
        pages = dict.fromkeys(owner, 1)
        for k in ("pageManager1", "pageManager2"):
            pm = m.mf(k)[1]
            all = set()
            n = i32(m.f(pm, X, "numSegments"))
            sa, na = m.f(pm, X, "pageSegmentArray"), m.f(pm, X, "numPagesArray")
            mx = i32(m.f(pm, X, "maxNumSegments"))
            for a, z in ((sa, 8), (na, 4)):
                if a[1] in m.s.d["gone"]:
                    raise Leak("a list of segments is released")
                inf = m.s.objs[a[1]]
                if isinstance(inf[2], int) and inf[2] < z * mx:
                    raise Cover("a list of segments has %d bytes for %d segments" % (inf[2], mx))
            for i in range(n):
                sg, c = m.arr(sa, i, 8), i32(m.arr(na, i, 4))
                if sg[1] in m.s.d["gone"]:
                    raise Leak("a segment of pages in use was released")
                all |= {(sg[1], j) for j in range(c)}
            q = m.f(pm, X, "freePageList")
            while q != 0:
                g = (q[1], q[2] // PAGE)
                if q[2] % PAGE or g not in all:
                    raise Leak("the list of free pages contains %r" % (q,))
                if g in pages:
                    raise Move("a page is free and in use, or listed twice")
                pages[g] = 0
                q = m.rd(q[1], q[2])
            for g in all:
                if g not in pages:
                    raise Leak("a page is neither used nor free")
                del pages[g]
        if pages:
            raise Leak("a page in use belongs to no segment")

    def blocks(self):
        m = self.m
        self.blk = self.block(m.mf("superBlock"), 0)
        if self.n and self.blk[4]:
            c = self.blk[4]
            if c[0][1] != 0 or c[-1][2] != self.n - 1:
                raise Order("the variable blocks cover the positions %d to %d of %d variables" % (c[0][1], c[-1][2], self.n))

    def block(self, p, d):
        """(address, first, last, reorderable, children); the children of a block partition it"""
        m = self.m
        if d > 10:
            raise Order("the block structure is cyclic")
        if p[1] in m.s.d["gone"]:
            raise Leak("a variable block in use is released")
        K = m.blockstruct
        n = i32(m.f(p[1], K, "numChildren"))
        ch = m.f(p[1], K, "children")
        lo, hi = sl(m.f(p[1], K, "firstIndex")), sl(m.f(p[1], K, "lastIndex"))
        out = tuple(self.block(m.arr(ch, i, 8), d + 1) for i in range(n))
        for x, y in zip(out, out[1:]):
            if y[1] != x[2] + 1:
                raise Order("neighbouring variable blocks cover the positions up to %d and from %d" % (x[2], y[1]))
        if out and d and (out[0][1] != lo or out[-1][2] != hi):
            raise Order("the parts of a variable block cover %d to %d instead of %d to %d" % (out[0][1], out[-1][2], lo, hi))
        if d and not 0 <= lo <= hi < self.n:
            raise Order("a variable block covers the positions %d to %d of %d variables" % (lo, hi, self.n))
        return (p[1], lo, hi, i32(m.f(p[1], K, "reorderable")), out)

    def lookups(self):
        """every stored node is found under its branches"""
        m = self.m
        keep, last = m.s, m.fnlast
        m.s = keep.copy()
        r = ("arr", "probe")
        for id in range(1, self.n + 1):
            t = ("p", m.arr(m.mf("uniqueTable"), id, 8)[1], 0)
            for nd in self.nodes[id]:
                th, el = self.te[nd]
                ok = i32(m.call("CalUniqueTableForIdLookup", m.bm, t, th, el, ("p", r, 0)))
                m.fnlast = last
                if not ok or m.rd(r, m.B["bddNode"][0], 8) != ("p", nd[0], nd[1]):
                    m.s = keep
                    raise CanonE("a node of variable %d is not found under its own branches" % id)
        m.s = keep


class TableBad(Malformed):
    tag = "table"


def sl(v):
    return v - (1 << 64) if isinstance(v, int) and v >> 63 else v


def atom(i, n):
    t = 0
    blk = (1 << (1 << i)) - 1
    for s in range(1 << i, 1 << n, 1 << (i + 1)):
        t |= blk << s
    return t


SATURATE = 225


def compare(m, a, b, gone=(), gc=False, samenodes=False):
    """what must survive: a, b are views before and after; gone: user diagrams that may disappear"""
    for nd, (v, r) in a.uval.items():
        if nd not in b.uval:
            if r:
                raise Dead("a user diagram with %d references disappears" % r)
            continue
        w, r2 = b.uval[nd]
        if v != w:
            raise Val("a user diagram denotes another function afterwards")
        if r != r2:
            raise Ref("the reference count of a user diagram changes from %d to %d" % (r, r2))
    for nd in b.uval:
        if nd not in a.uval:
            raise Ref("a user diagram appears that nobody asked for")
    if a.assoc.keys() != b.assoc.keys():
        raise Move("variable associations are lost or duplicated")
    for k, d in a.assoc.items():
        if d != b.assoc[k]:
            raise Move("a variable association maps to other functions afterwards: %s, %s before" % (hexes(b.assoc[k]), hexes(d)))
    live = {k: v for k, v in a.extra.items() if k in b.extra or not (v >= SATURATE and b.full_at(k))}
    if live != b.extra:
        raise Ref("references held outside of diagrams are lost or gained: %s before, %s after" % (hexes(live), hexes(b.extra)))
    have = [x for x in a.entries]
    for x in b.entries:
        if x not in have:
            raise CacheBad("a cached result stands for something else afterwards")
    da = a.numnodes - sum(len(x) for i, x in a.nodes.items() if i)
    db = b.numnodes - sum(len(x) for i, x in b.nodes.items() if i)
    if da != db:
        raise Dead("the manager counts %d nodes too %s afterwards" % (abs(da - db), "many" if db > da else "few"))
    if gc:
        for nd, r in b.ref.items():
            if r == 0:
                raise Dead("a node of variable %d without references survives a collection" % b.where[nd])
        for nd, (v, r) in b.uval.items():
            if r == 0:
                raise Dead("a user diagram without references survives a collection")
        if a.freed is not None and b.freed is not None:
            n = sum(len(x) for i, x in a.nodes.items() if i) - sum(len(x) for i, x in b.nodes.items() if i)
            if b.freed - a.freed != n:
                raise Dead("%d nodes are collected but %d are recorded" % (n, b.freed - a.freed))


def hexes(d):
    return {k if isinstance(k, tuple) else hex(k): v for k, v in list(d.items())[:4]}


def reachable(m):
    """blocks that nothing in the manager refers to"""
    out = {}
    for (o, k), (v, z) in m.s.mem.items():
        if isinstance(v, tuple) and v[0] == "p":
            out.setdefault(o, set()).add(v[1])
    seen = set()
    work = [m.M]
    while work:
        o = work.pop()
        if o in seen or o in m.s.d["gone"]:
            continue
        seen.add(o)
        work += list(out.get(o, ()))
    for o, inf in m.s.objs.items():
        if inf[0] == "alloc" and o not in m.s.d["gone"] and o not in seen:
            raise Leak("memory allocated at %s is neither released nor reachable" % inf[1])


def quiet(m):
    """everything is released when the manager is closed"""
    m.call("Cal_BddManagerQuit", m.bm)
    for o, inf in m.s.objs.items():
        if inf[0] == "alloc" and o not in m.s.d["gone"]:
            raise Leak("memory allocated at %s is not released when the manager is closed" % inf[1])
        if inf[0] == "page" and o not in m.s.d["gone"]:
            raise Leak("a page taken at %s is not given back when the manager is closed" % inf[1])
