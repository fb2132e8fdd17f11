"""Path-partitioned abstract interpreter over the IR of ir.py.

Abstract values
  int                     a known machine integer (unsigned representation)
  ('p', obj, off)         address obj+off; off is an int or a linear term
  ('l', c, ((s,k),...))   linear integer term c + sum k*s over opaque symbols
  ('t', op, a, b, ...)    opaque term, compared structurally (hash consing)
  ('c', pred, a, b)       undecided comparison
  ('fn', name)            function address
  ('f', x)                floating constant
  None                    unknown (top)

Memory is a map from (object, offset) to value.  Objects that the analysis did
not set up are materialised lazily: reading an unwritten cell asks the object's
hook, or yields a fresh opaque symbol/object named after the access path, so an
object stands for every concrete object with that access path.  Branches on
undecided comparisons are analysed both ways under the corresponding fact.
Loops whose bound is not known are analysed for up to `unroll` undecided
iterations per path.  Calls are inlined unless a summary (model) is given.
"""
import sys
from ir import Budget, Instr, size_of, fields, layout, real, AnalysisBroken, PTR, ity

M64 = (1 << 64) - 1


class Violation:
    def __init__(self, rule, msg, loc, trace=()):
        self.rule, self.msg, self.loc, self.trace = rule, msg, loc, list(trace)

    def key(self):
        return (self.rule, self.msg, self.loc)

    def __str__(self):
        return "[%s] %s: %s" % (self.rule, self.loc, self.msg)


class Frame:
    __slots__ = ("fn", "regs", "blk", "idx", "prev", "ret", "nalloca", "forks", "id", "call", "onret")

    def __init__(self, fn, id):
        self.fn = fn
        self.regs = {}
        self.blk = fn.order[0]
        self.idx = 0
        self.prev = None
        self.ret = None
        self.forks = {}
        self.id = id
        self.nalloca = 0
        self.call = None
        self.onret = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.blk, f.idx, f.prev, f.ret = self.fn, dict(self.regs), self.blk, self.idx, self.prev, self.ret
        f.forks, f.id, f.call, f.onret = dict(self.forks), self.id, self.call, self.onret
        f.nalloca = self.nalloca
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.fill = {}      # obj -> list of (lo, hi, val)
        self.facts = {}
        self.frames = ()    # immutable outer frames (shared), innermost last
        self.top = None
        self.ev = ()        # events (tuples), linked (prev, ev)
        self.trace = ()     # linked (prev, str)
        self.objs = {}      # per-path object info: obj -> dict (copied on write)
        self.d = {}         # property specific data (immutable values)
        self.n = 0
        self.sym = set()    # objects with cells at symbolic offsets (shared by all copies)
        self.retval = None
        self.status = None  # 'ret' | 'dead' | 'abort'

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.fill = dict(self.fill)
        s.facts = dict(self.facts)
        s.frames = self.frames
        s.top = self.top.copy() if self.top else None
        s.ev, s.trace = self.ev, self.trace
        s.objs = dict(self.objs)
        s.d = dict(self.d)
        s.n, s.sym = self.n, self.sym
        s.retval, s.status = self.retval, self.status
        return s

    def emit(self, e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        x = self.ev
        while x:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out

    def tracelist(self, limit=60):
        out = []
        x = self.trace
        while x and len(out) < limit:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out

    def fresh(self):
        self.n += 1
        return self.n


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "uge": "ule", "ule": "uge",
        "slt": "sgt", "sgt": "slt", "sge": "sle", "sle": "sge"}


def sx(t, v):
    """index operand as a 64-bit value"""
    if isinstance(v, int) and t is not None and t.k == "i" and t.n < 64 and v >> (t.n - 1) & 1:
        return (v - (1 << t.n)) & M64
    return v


def mentions(v, name):
    if not isinstance(v, (tuple, list)):
        return False
    if len(v) == 2 and v[0] == "g":
        return v[1] == name
    return any(mentions(x, name) for x in v)


def frozen(mod, name):
    """a file-local variable that keeps its initial value: its address is only used for loads"""
    c = mod.__dict__.setdefault("_frozen", {}) if hasattr(mod, "__dict__") else {}
    if name in c:
        return c[name]
    g = mod.globals[name]
    ok = bool(g[2])
    if ok:
        for k, o in mod.globals.items():
            if k != name and mentions(o[1], name):
                ok = False
    if ok:
        for fn in mod.fns.values():
            regs = set()
            changed = True
            while changed and ok:
                changed = False
                for b in fn.blocks.values():
                    for I in list(b.phis) + list(b.ins):
                        ops = I.a if isinstance(I.a, tuple) else ()
                        if I.op == "phi":
                            ops = tuple(v for v, _ in I.x)
                        used = [x for x in ops if mentions(x, name) or (isinstance(x, tuple) and x and x[0] == "r" and x[1] in regs)]
                        if I.op == "call" and mentions(I.x, name):
                            ok = False
                        if not used:
                            continue
                        if I.op == "load":
                            continue
                        if I.op == "getelementptr" and (mentions(I.a[0], name) or (isinstance(I.a[0], tuple) and I.a[0][0] == "r" and I.a[0][1] in regs)):
                            if I.res not in regs:
                                regs.add(I.res)
                                changed = True
                            continue
                        if I.op == "icmp":
                            continue
                        ok = False
            if not ok:
                break
    c[name] = ok
    return ok


def lin(v):
    """value -> (c, terms tuple) or None"""
    if isinstance(v, int):
        return (v, ())
    if isinstance(v, tuple):
        if v[0] == "l":
            return (v[1], v[2])
        if v[0] in ("s", "t", "p"):
            return (0, ((v, 1),))
    return None


def mklin(c, terms):
    terms = tuple(sorted(((s, k) for s, k in terms if k), key=repr))
    if not terms:
        return c
    if c == 0 and len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0]
    return ("l", c, terms)


def linadd(a, b, k=1):
    la, lb = lin(a), lin(b)
    if la is None or lb is None:
        return None
    d = dict(la[1])
    for s, q in lb[1]:
        d[s] = d.get(s, 0) + k * q
    return mklin(la[0] + k * lb[0], d.items())


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = ("undef",)


class Interp:
    stuck = 0

    def __init__(self, prog, models=None, unroll=2, maxsteps=400000, maxdepth=40, maxstates=20000,
                 null_deref=True, opaque=None):
        self.prog = prog
        self.models = dict(BASE_MODELS)
        if models:
            self.models.update(models)
        self.unroll = unroll
        self.maxsteps = maxsteps
        self.maxstates = maxstates
        self.maxdepth = maxdepth
        self.violations = []
        self.null_deref = null_deref
        self.hooks = {}            # obj -> hook(st, obj, off, size, ty) ; or prefix kinds
        self.lazy_hook = None      # fallback hook(st,obj,off,size,ty) -> value or NotImplemented
        self.opaque = opaque       # predicate fn -> bool: do not inline
        self.steps = 0
        self.paths = 0
        self.fnseen = set()
        self.on_store = None
        self.on_load = None
        self.on_call = None
        self.align = 64
        self.truncated = 0
        self.strict_truncate = False
        self.recursion = None      # handler for recursive calls (fn already on stack)
        self.ndelta = 0
        self.maxrec = 2            # activations of one function that are inlined

    # ---------------------------------------------------------------- reports
    def where(self, st):
        if st.top:
            I = st.top.fn.blocks[st.top.blk].ins[min(st.top.idx, len(st.top.fn.blocks[st.top.blk].ins) - 1)]
            s = I.loc() + " in " + st.top.fn.name
            chain = [f.fn.name for f in st.frames if f]
            if chain:
                s += " (called from %s)" % " <- ".join(reversed(chain))
            return s
        return "?"

    def report(self, st, rule, msg, loc=None):
        v = Violation(rule, msg, loc or self.where(st), st.tracelist())
        if v.key() not in {x.key() for x in self.violations}:
            self.violations.append(v)

    # ---------------------------------------------------------------- operands
    def val(self, st, v, regs):
        if isinstance(v, int):
            return v
        k = v[0]
        if k == "r":
            return regs.get(v[1])
        if k == "g":
            return self.global_addr(st, v[1])
        if k == "u":
            return UNDEF
        if k == "f":
            return v
        if k == "zero":
            return 0
        if k == "ce":
            if v[1] == "gep":
                base = self.val(st, v[3], regs)
                return self.gep(st, v[2], base, [sx(t, self.val(st, x, regs)) for t, x in v[4]])
            if v[1] in ("inttoptr", "ptrtoint", "bitcast", "zext", "trunc", "sext"):
                return self.val(st, v[3], regs)
            return None
        return None

    def global_addr(self, st, name):
        mod = st.top.fn.mod
        if name in mod.fns or name in mod.decls:
            f = mod.fns.get(name)
            return ("fn", f.key if f else name)
        g = mod.globals.get(name)
        if g and g[2]:
            return ("p", ("g", mod.name, name), 0)
        return ("p", ("g", "", name), 0)

    def gep(self, st, bt, base, idx):
        off = 0
        t = bt
        first = True
        for i in idx:
            if first:
                d = self.mulc(i, size_of(t), True)
                first = False
            else:
                if t.k in ("s", "st"):
                    offs, _ = layout(t)
                    d = offs[i]
                    t = real(t).el[i]
                else:
                    t = t.el
                    d = self.mulc(i, size_of(t), True)
            if d is None:
                off = None
                break
            off = linadd(off, d) if not (isinstance(off, int) and isinstance(d, int)) else off + d
        return self.ptradd(base, off)

    def mulc(self, v, k, signed=False):
        if isinstance(v, int):
            if signed and v >> 63:
                v -= 1 << 64
            return v * k
        l = lin(v)
        if l is None:
            return None
        return mklin(l[0] * k, [(s, q * k) for s, q in l[1]])

    def ptradd(self, base, off):
        if off is None:
            return None
        if isinstance(base, tuple):
            if base[0] == "p":
                if isinstance(base[2], int) and isinstance(off, int):
                    return ("p", base[1], base[2] + off)
                o = linadd(base[2], off)
                return ("p", base[1], o) if o is not None else None
            if base[0] in ("s", "t", "l"):
                if off == 0:
                    return base
                return ("p", ("at", base), off)
        if isinstance(base, int):
            return (base + off) & M64 if isinstance(off, int) else linadd(base, off)
        if base is None or base == UNDEF:
            return None
        return None

    # ---------------------------------------------------------------- memory
    def deref(self, st, p, size, write):
        """-> (obj, off) or None"""
        if isinstance(p, tuple):
            if p[0] == "p":
                if isinstance(p[1], tuple) and p[1][0] == "h":
                    self.bounds(st, p[1], p[2], size, write)
                return (p[1], p[2])
            if p[0] in ("s", "t", "l"):
                return (("at", p), 0)
            return None
        if isinstance(p, int):
            if p < 4096 or p > M64 - 4096:
                if self.null_deref:
                    self.report(st, "null", "%s through a null pointer" % ("write" if write else "read"))
                st.status = "dead"
            return None
        return None

    def bounds(self, st, o, off, size, write):
        inf = st.objs.get(o)
        if inf is not None and len(inf) > 2 and isinstance(inf[2], int) and isinstance(off, int):
            if off < 0 or off + size > inf[2]:
                self.report(st, "oob", "%s outside the block allocated at %s" % ("write" if write else "read", inf[1]))

    def load(self, st, p, size, ty=None):
        d = self.deref(st, p, size, False)
        if d is None:
            return None
        obj, off = d
        if self.on_load:
            r = self.on_load(self, st, obj, off, size, ty)
            if r is not NotImplemented and r is not None:
                return r[0]
        return self.read(st, obj, off, size, ty)

    def read(self, st, obj, off, size, ty=None):
        c = st.mem.get((obj, off))
        if c is not None:
            v, s = c
            if s == size or not isinstance(v, int):
                if s > size and isinstance(v, int):
                    return v & ((1 << 8 * size) - 1)
                return v
            if size < s:
                return v & ((1 << 8 * size) - 1)
            # wider read than written: join if following cells are ints
            tot, o = v, off + s if isinstance(off, int) else None
            while o is not None and o < off + size:
                c2 = st.mem.get((obj, o))
                f2 = None
                if c2 is None:
                    f2 = self.filled(st, obj, o)
                    if f2 is None:
                        return None
                    c2 = (f2, 1)
                if not isinstance(c2[0], int):
                    return None
                tot |= c2[0] << (8 * (o - off))
                o += c2[1]
            return tot
        f = self.filled(st, obj, off)
        if f is not None:
            if f == 0:
                return 0
            if isinstance(f, int):
                return int.from_bytes(bytes([f & 255]) * size, "little")
            return f
        # part of a bigger int cell?
        if isinstance(off, int):
            for back in (1, 2, 3, 4, 5, 6, 7):
                c = st.mem.get((obj, off - back))
                if c is not None:
                    if isinstance(c[0], int) and c[1] >= back + size:
                        return (c[0] >> (8 * back)) & ((1 << 8 * size) - 1)
                    break
        v = self.initial(st, obj, off, size, ty)
        st.mem[(obj, off)] = (v, size)
        if not isinstance(off, int):
            st.sym.add(obj)
        return v

    def filled(self, st, obj, off):
        fl = st.fill.get(obj)
        if fl:
            for lo, hi, v in reversed(fl):
                if hi is None:
                    if isinstance(off, int) or True:
                        return v
                if isinstance(off, int) and isinstance(lo, int) and lo <= off < hi:
                    return v
        return None

    def initial(self, st, obj, off, size, ty):
        h = self.hooks.get(obj)
        if h is None and isinstance(obj, tuple):
            h = self.hooks.get(obj[0])
        if h is not None:
            v = h(self, st, obj, off, size, ty)
            if v is not NotImplemented:
                return v
        if isinstance(obj, tuple):
            if obj[0] == "a":
                return UNDEF
            if obj[0] == "g":
                return self.global_init(st, obj, off, size)
        if self.lazy_hook:
            v = self.lazy_hook(self, st, obj, off, size, ty)
            if v is not NotImplemented:
                return v
        if ty is not None and ty.k == "ptr":
            return ("p", ("L", obj, off), 0)
        return ("s", ("L", obj, off))

    def global_init(self, st, obj, off, size):
        mods = [self.prog.mods[obj[1]]] if obj[1] else list(self.prog.mods.values())
        for m in mods:
            g = m.globals.get(obj[2])
            if g and g[1] is not None:
                if g[3] is False and not getattr(self, "globals_initial", False) and not frozen(m, obj[2]):
                    # mutable global: value unknown
                    return ("s", ("G", obj[2], off))
                return self.const_at(g[0], g[1], off, size, m)
        return ("s", ("G", obj[2], off))

    def const_at(self, t, init, off, size, mod):
        if init == ("zero",):
            return 0
        if isinstance(init, int):
            return init
        if isinstance(init, tuple):
            if init[0] == "str":
                b = re_bytes(init[1])
                if isinstance(off, int) and 0 <= off < len(b):
                    return int.from_bytes(b[off:off + size], "little")
                return None
            if init[0] == "agg":
                if not isinstance(off, int):
                    return None
                if t.k == "arr":
                    es = size_of(t.el)
                    i = off // es
                    if 0 <= i < len(init[1]):
                        return self.const_at(t.el, init[1][i][1], off - i * es, size, mod)
                    return None
                offs, _ = layout(t)
                for i in range(len(offs) - 1, -1, -1):
                    if offs[i] <= off:
                        return self.const_at(real(t).el[i], init[1][i][1], off - offs[i], size, mod)
            if init[0] == "g":
                if init[1] in mod.fns:
                    return ("fn", mod.fns[init[1]].key)
                if init[1] in mod.decls:
                    return ("fn", init[1])
                g = mod.globals.get(init[1])
                return ("p", ("g", mod.name if g and g[2] else "", init[1]), 0)
            if init[0] == "f":
                return init
        return None

    def store(self, st, p, v, size):
        d = self.deref(st, p, size, True)
        if d is None:
            return
        obj, off = d
        if self.on_store:
            r = self.on_store(self, st, obj, off, v, size)
            if r is False:
                return
            if isinstance(r, tuple) and r and r[0] == "value":
                v = r[1]
        self.write(st, obj, off, v, size)

    def write(self, st, obj, off, v, size):
        if isinstance(off, int):
            for o in range(off + 1, off + size):
                st.mem.pop((obj, o), None)
            # concrete store may alias symbolic cells
            for k in () if obj not in st.sym else [k for k in st.mem if k[0] == obj and not isinstance(k[1], int)]:
                if self.mayalias(st, k[1], off):
                    st.mem[k] = (None, st.mem[k][1])
        else:
            st.sym.add(obj)
            for k in [k for k in st.mem if k[0] == obj and k[1] != off]:
                if self.mayalias(st, k[1], off):
                    st.mem[k] = (None, st.mem[k][1])
        st.mem[(obj, off)] = (v, size)

    def mayalias(self, st, a, b):
        d = linadd(a, b, -1)
        if isinstance(d, int):
            return d == 0
        r = self.decide(st, "eq", a, b)
        return r is not False

    def memcopy(self, st, dst, src, n):
        d = self.deref(st, dst, 1, True)
        if d is None:
            return
        s = self.deref(st, src, 1, False)
        if st.status:
            return
        if s is None:
            so = None
        if not isinstance(n, int):
            # symbolic length: copy the known cells
            if s and isinstance(d[1], int) and isinstance(s[1], int):
                for (o, k), (v, sz) in list(st.mem.items()):
                    if o == s[0] and isinstance(k, int) and k >= s[1]:
                        st.mem[(d[0], d[1] + k - s[1])] = (v, sz)
            return
        if not s:
            return
        if not (isinstance(d[1], int) and isinstance(s[1], int)):
            # symbolic bases: copy cell by cell at 8-byte granularity for small n
            for o in range(0, min(n, 64), 8):
                so = linadd(s[1], o)
                do = linadd(d[1], o)
                c = st.mem.get((s[0], so))
                if c is None:
                    c = (self.read(st, s[0], so, 8, PTR if False else None), 8)
                self.store(st, ("p", d[0], do), c[0], c[1])
            return
        # collect source cells
        cells = []
        for o in range(s[1], s[1] + n):
            c = st.mem.get((s[0], o))
            if c is not None:
                cells.append((o - s[1], c))
        if not cells:
            # lazily initialised source: materialise word-wise if small
            if n <= 128:
                cells = []
                lay = self.obj_layout(st, s[0], s[1], n)
                for o, sz, t in lay:
                    cells.append((o, (self.read(st, s[0], s[1] + o, sz, t), sz)))
        for o in range(d[1], d[1] + n):
            st.mem.pop((d[0], o), None)
        for o, (v, sz) in cells:
            self.store(st, ("p", d[0], d[1] + o), v, sz)

    def obj_layout(self, st, obj, off, n):
        h = getattr(self, "layout_of", None)
        if h:
            r = h(obj, off, n)
            if r:
                return r
        if n == 16:
            return [(0, 2, ity(16)), (8, 8, PTR)]      # the only 16-byte aggregate is the handle
        return [(o, 8, PTR) for o in range(0, n - n % 8, 8)]

    # ---------------------------------------------------------------- comparison
    def decide(self, st, pred, a, b, w=64):
        """True/False/None"""
        if a is None or b is None or a == UNDEF or b == UNDEF:
            return None
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            return {"eq": a == b, "ne": a != b}.get(pred) if pred in ("eq", "ne") else \
                {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[1:]]
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "f":
            return None
        if a == b:
            return pred in ("eq", "ule", "uge", "sle", "sge")
        ta = a[0] if isinstance(a, tuple) else "i"
        tb = b[0] if isinstance(b, tuple) else "i"
        if ta == "fn" or tb == "fn":
            return pred == "ne" if pred in ("eq", "ne") else None
        if ta == "p" or tb == "p":
            if ta != "p":
                a, b, ta, tb, pred = b, a, tb, ta, SWAP[pred]
            if tb == "p" and a[1] == b[1]:
                d = linadd(a[2], b[2], -1)
                if isinstance(d, int):
                    return {"eq": d == 0, "ne": d != 0}.get(pred) if pred in ("eq", "ne") else \
                        {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[pred[1:]]
            if tb == "i":
                if isinstance(b, int) and b < 4096:
                    n = self.nullness(st, a)
                    if n is False:
                        if isinstance(b, int) and b < 16:
                            return {"eq": False, "ne": True, "ugt": True, "uge": True, "ult": False, "ule": False,
                                    "sgt": True, "sge": True}.get(pred)
                    if n is True:
                        return self.decide(st, pred, a[2] if isinstance(a[2], int) else 0, b, w)
            if tb == "p" and pred in ("eq", "ne"):
                r = self.distinct(st, a, b)
                if r is not None:
                    return (pred == "ne") == r
            if tb == "p" and isinstance(a[2], int) and isinstance(b[2], int) and pred not in ("eq", "ne"):
                # ordering of different objects only depends on the objects
                oh = getattr(self, "ordhook", None)
                if oh is not None:
                    r = oh(st, a[1], b[1])
                    if r is not None:
                        return r == (pred[1:] in ("lt", "le"))
                key = ("ord", a[1], b[1])
                f = st.facts.get(key)
                if f is None:
                    f2 = st.facts.get(("ord", b[1], a[1]))
                    f = None if f2 is None else not f2
                if f is not None:
                    return f == (pred[1:] in ("lt", "le"))
                return None
        r = self.fact(st, pred, a, b, w)
        return r

    def nullness(self, st, p):
        """True: null, False: non-null, None unknown"""
        f = st.facts.get(("null", p[1]))
        if f is not None:
            return f
        o = p[1]
        if isinstance(o, tuple) and o[0] in ("L", "at"):
            info = self.hooks.get(("nonnull", o))
            if info:
                return False
            if getattr(self, "lazy_nonnull", None) and self.lazy_nonnull(st, o):
                return False
            return None
        return False

    def distinct(self, st, a, b):
        """are two addresses in different objects different? True/False/None"""
        oa, ob = a[1], b[1]
        la = isinstance(oa, tuple) and oa[0] in ("L", "at")
        lb = isinstance(ob, tuple) and ob[0] in ("L", "at")
        na, nb = self.nullness(st, a), self.nullness(st, b)
        if na is True and nb is True:
            return linadd(a[2], b[2], -1) != 0
        if (na is True) != (nb is True) and na is not None and nb is not None:
            return True
        if not la and not lb:
            return True
        if la != lb:
            # lazily found object vs freshly allocated / stack object of this analysis
            fr = oa if not la else ob
            if isinstance(fr, tuple) and fr[0] in ("h", "a"):
                return True
        f = st.facts.get(("same", oa, ob), st.facts.get(("same", ob, oa)))
        if f is False:
            return True
        if f is True:
            d = linadd(a[2], b[2], -1)
            if isinstance(d, int):
                return d != 0
        return None

    def fact(self, st, pred, a, b, w):
        d = linadd(a, b, -1)
        if d is None:
            return st.facts.get(("cmp", pred, a, b))
        if isinstance(d, int):
            return {"eq": d == 0, "ne": d != 0}.get(pred) if pred in ("eq", "ne") else \
                {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[pred[1:]]
        # a - b = c + T ; interval facts are kept for T
        c, T = (d[1], d[2]) if d[0] == "l" else (0, ((d, 1),))
        sign = 1
        if T[0][1] < 0:
            T = tuple((s, -k) for s, k in T)
            sign = -1
        # single unsigned symbol: nonnegative by nature of unsigned comparison with const
        iv = self.interval(st, T)
        lo, hi, ne = iv
        # x = sign*T + c
        if sign > 0:
            xl, xh = lo + c, hi + c
        else:
            xl, xh = c - hi, c - lo
        if isinstance(b, int) and pred[0] == "s":
            sb = sgn(b, w)
            if sb < 0:
                xl += b - sb
                xh += b - sb
        elif isinstance(b, int) and pred in ("eq", "ne") and b >> (w - 1) & 1 and w >= 8:
            # comparison with a negative constant
            xl, xh = min(xl, xl + b - sgn(b, w)), max(xh, xh + b - sgn(b, w))
        if pred in ("eq", "ne"):
            if xl > 0 or xh < 0:
                return pred == "ne"
            t0 = -c if sign > 0 else c
            if t0 in ne:
                return pred == "ne"
            if xl == xh == 0:
                return pred == "eq"
            return None
        q = pred[1:]
        if q == "lt":
            return True if xh < 0 else False if xl >= 0 else None
        if q == "le":
            return True if xh <= 0 else False if xl > 0 else None
        if q == "gt":
            return True if xl > 0 else False if xh <= 0 else None
        if q == "ge":
            return True if xl >= 0 else False if xh < 0 else None

    def interval(self, st, T):
        f = st.facts.get(("iv", T))
        if f is not None:
            return f
        if len(T) == 1 and T[0][1] == 1:
            r = self.symrange(st, T[0][0])
            if r:
                return (r[0], r[1], frozenset())
        else:
            lo = hi = 0
            for s, k in T:
                r = st.facts.get(("iv", ((s, 1),)))
                if r is None:
                    rr = self.symrange(st, s)
                    r = (rr[0], rr[1]) if rr else (-(1 << 64), 1 << 64)
                if k > 0:
                    lo += k * r[0]
                    hi += k * r[1]
                else:
                    lo += k * r[1]
                    hi += k * r[0]
            return (lo, hi, frozenset())
        return (-(1 << 64), 1 << 64, frozenset())

    def symrange(self, st, s):
        h = getattr(self, "ranges", None)
        if h:
            r = h(st, s)
            if r:
                return r
        if isinstance(s, tuple) and s[0] == "t" and s[1] == "and" and isinstance(s[3], int):
            return (0, s[3])
        return None

    def assume(self, st, pred, a, b, w=64):
        """add the fact; returns False if contradictory"""
        r = self.decide(st, pred, a, b, w)
        if r is not None:
            return r
        if a is None or b is None or a == UNDEF or b == UNDEF:
            return True
        ta = a[0] if isinstance(a, tuple) else "i"
        tb = b[0] if isinstance(b, tuple) else "i"
        if ta != "p" and tb == "p":
            a, b, ta, tb, pred = b, a, tb, ta, SWAP[pred]
        if ta == "p":
            if isinstance(b, int) and pred in ("eq", "ne"):
                if b == 0 and a[2] == 0:
                    st.facts[("null", a[1])] = pred == "eq"
                    return True
                return True
            if tb == "p" and pred in ("eq", "ne"):
                st.facts[("same", a[1], b[1])] = pred == "eq"
                return True
            if tb == "p" and isinstance(a[2], int) and isinstance(b[2], int):
                st.facts[("ord", a[1], b[1])] = pred[1:] in ("lt", "le")
                return True
        d = linadd(a, b, -1)
        if d is None or isinstance(d, int):
            st.facts[("cmp", pred, a, b)] = True
            st.facts[("cmp", NEG[pred], a, b)] = False
            return True
        c, T = (d[1], d[2]) if d[0] == "l" else (0, ((d, 1),))
        if isinstance(b, int) and b >> (w - 1) & 1 and (pred[0] == "s" or pred in ("eq", "ne")) and w >= 8:
            c += b - sgn(b, w)
        sign = 1
        if T[0][1] < 0:
            T = tuple((s, -k) for s, k in T)
            sign = -1
        lo, hi, ne = self.interval(st, T)
        # sign*T + c  pred 0   ->  T pred' t0
        t0 = -c if sign > 0 else c
        q = pred if pred in ("eq", "ne") else pred[1:]
        if sign < 0:
            q = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(q, q)
        if q == "eq":
            lo, hi = max(lo, t0), min(hi, t0)
        elif q == "ne":
            ne = ne | {t0}
        elif q == "lt":
            hi = min(hi, t0 - 1)
        elif q == "le":
            hi = min(hi, t0)
        elif q == "gt":
            lo = max(lo, t0 + 1)
        elif q == "ge":
            lo = max(lo, t0)
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return False
        st.facts[("iv", T)] = (lo, hi, ne)
        return True

    # ---------------------------------------------------------------- arithmetic
    def known(self, st, v):
        """fold a symbol that facts pin to one value"""
        if isinstance(v, tuple) and v[0] in ("s", "l", "t"):
            l = lin(v)
            if l and len(l[1]) == 1:
                f = st.facts.get(("iv", ((l[1][0][0], 1),)))
                if f and f[0] == f[1]:
                    return l[0] + l[1][0][1] * f[0]
        return v

    def binop(self, st, op, a, b, w):
        mask = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == "add":
                return (a + b) & mask
            if op == "sub":
                return (a - b) & mask
            if op == "mul":
                return (a * b) & mask
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & mask if b < w else None
            if op == "lshr":
                return a >> b if b < w else None
            if op == "ashr":
                return (sgn(a, w) >> b) & mask if b < w else None
            if op == "udiv":
                return a // b if b else None
            if op == "urem":
                return a % b if b else None
            if op in ("sdiv", "srem"):
                if not b:
                    return None
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == "sdiv" else x - q * y) & mask
        if op in ("add", "mul", "and", "or", "xor") and isinstance(a, int):
            a, b = b, a
        if a == UNDEF or b == UNDEF:
            if op == "or" and a == UNDEF:
                return b
            return UNDEF
        if a is None or b is None:
            if op == "and" and b == 0:
                return 0
            return None
        # booleans
        if isinstance(a, tuple) and a[0] == "c":
            if op == "xor" and b == 1:
                return ("c", NEG[a[1]], a[2], a[3], a[4])
            if op == "and" and isinstance(b, int) and b & 1:
                return a
            if op in ("and", "or") and isinstance(b, tuple) and b[0] == "c":
                return ("cc", op, a, b)
        if isinstance(a, tuple) and a[0] == "p":
            if isinstance(b, int):
                al = self.alignof(st, a[1])
                off = a[2]
                if op == "add":
                    return self.ptradd(a, sgn(b, w))
                if op == "sub":
                    return self.ptradd(a, -sgn(b, w))
                if isinstance(off, int):
                    if op == "and":
                        if b < al:
                            return (off % al) & b if True else None
                        inv = (~b) & M64
                        if inv < al:
                            return ("p", a[1], off - (off & inv) if off >= 0 else off & ~inv)
                    if op in ("xor", "or") and b < al:
                        lowbits = off % al
                        nl = lowbits ^ b if op == "xor" else lowbits | b
                        return ("p", a[1], off - lowbits + nl)
            if isinstance(b, tuple) and b[0] == "p":
                if op == "sub" and a[1] == b[1]:
                    return linadd(a[2], b[2], -1)
                if op == "xor" and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
                    return a[2] ^ b[2]
                if op == "sub":
                    return linadd(a, b, -1)
            if op in ("add", "sub") and lin(b) is not None and not (isinstance(b, tuple) and b[0] == "p"):
                o = linadd(a[2], b, 1 if op == "add" else -1)
                return ("p", a[1], o)
        if op == "add":
            if b == 0:
                return a
            bb = sgn(b, w) if isinstance(b, int) else b
            r = linadd(a, bb)
            return r if r is not None else ("t", op, a, b)
        if op == "sub":
            if b == 0:
                return a
            bb = sgn(b, w) if isinstance(b, int) else b
            aa = sgn(a, w) if isinstance(a, int) else a
            r = linadd(aa, bb, -1)
            if isinstance(r, int):
                return r & mask
            return r if r is not None else ("t", op, a, b)
        if op == "mul" and isinstance(b, int):
            if b == 0:
                return 0
            r = self.mulc(a, b)
            return r if r is not None else ("t", op, a, b)
        if op == "shl" and isinstance(b, int) and b < 32:
            r = self.mulc(a, 1 << b)
            return r if r is not None else ("t", op, a, b)
        if op in ("and",) and b == 0:
            return 0
        if op in ("or", "xor", "lshr", "ashr") and b == 0:
            return a
        if op == "and" and b == mask:
            return a
        if op == "xor" and a == b:
            return 0
        if op in ("mul", "and", "or", "xor") and repr(a) > repr(b) and not isinstance(b, int):
            a, b = b, a
        return ("t", op, a, b)

    def alignof(self, st, obj):
        h = self.hooks.get(("align", obj))
        if h:
            return h
        if isinstance(obj, tuple) and obj[0] == "a":
            return 16
        if isinstance(obj, tuple) and obj[0] == "g":
            return 1
        if isinstance(obj, tuple) and obj[0] in ("L", "at") and getattr(self, "lazy_align", None) is not None:
            return self.lazy_align
        return self.align

    # ---------------------------------------------------------------- running
    def run(self, fn, args, st=None, setup=None):
        """analyse fn from the given abstract pre-state; returns the list of final states"""
        st = st or State()
        if isinstance(fn, str):
            fn = self.prog.fn(fn)
        st.top = self.newframe(st, fn, args)
        work = [st]
        done = []
        steps = 0
        while work:
            if len(done) > self.maxstates:
                self.truncated += 1
                if self.strict_truncate:
                    raise AnalysisBroken("state budget exceeded in " + fn.name)
                break
            s = work.pop()
            while True:
                steps += 1
                if steps > (self.maxsteps >> min(Interp.stuck, 4)):
                    # budgets are 30 times what terminating code needs
                    self.truncated += 1
                    Interp.stuck += 1
                    if self.strict_truncate:
                        raise Budget("step budget exceeded in " + fn.name)
                    self.report(s, "den", "the operation does not come to an end")
                    work = []
                    break
                r = self.step(s)
                if r is None:
                    if s.status is None:
                        continue
                    done.append(s)
                    break
                live = [x for x in r if x.status is None]
                done += [x for x in r if x.status is not None]
                if not live:
                    break
                s = live[0]
                work += live[1:]
        self.steps += steps
        self.paths += len(done)
        return [s for s in done if s.status in ("ret", "abort")]

    def sub(self, st, fv, args):
        """value of a side-effect free call (comparison functions) made by a contract"""
        fn = self.prog.fns.get(fv[1]) if isinstance(fv, tuple) and fv[0] == "fn" else None
        if fn is None:
            raise AnalysisBroken("a contract cannot resolve the function it is given")
        s = st.copy()
        s.frames, s.top, s.status = (), None, None
        r = self.run(fn, args, s)
        if len(r) != 1 or not isinstance(r[0].retval, int):
            raise AnalysisBroken("undecided result of " + fn.name)
        return r[0].retval

    def newframe(self, st, fn, args):
        fr = Frame(fn, st.fresh())
        self.fnseen.add(fn.key)
        for (t, reg, al), v in zip(fn.params, args):
            fr.regs[reg] = v
            if "byval" in al and isinstance(v, tuple) and v[0] == "p":
                # by-value aggregate: the callee works on its own copy
                o = ("a", fr.id, "byval." + reg)
                fr.nalloca = (fr.nalloca or ()) + ((o, 16),)
                self.memcopy(st, ("p", o, 0), v, 16)
                fr.regs[reg] = ("p", o, 0)
        return fr

    def goto(self, st, label):
        fr = st.top
        fr.prev, fr.blk = fr.blk, label
        b = fr.fn.blocks[label]
        if b.phis:
            vals = []
            for I in b.phis:
                for v, l in I.x:
                    if l == fr.prev:
                        vals.append((I.res, self.val(st, v, fr.regs)))
                        break
            for r, v in vals:
                fr.regs[r] = v
        fr.idx = len(b.phis)

    def branch(self, st, cond, instr):
        """-> [(state, bool)]"""
        if isinstance(cond, int):
            return [(st, bool(cond & 1))]
        if isinstance(cond, tuple) and cond[0] == "c":
            r = self.decide(st, cond[1], cond[2], cond[3], cond[4])
            if r is not None:
                return [(st, r)]
        k = (instr.blk, instr.idx)
        c = st.top.forks.get(k, 0) + 1
        st.top.forks[k] = c
        if c > self.unroll + 1:
            st.status = "cut"
            return []
        s2 = st.copy()
        out = []
        if isinstance(cond, tuple) and cond[0] == "c":
            if self.assume(st, cond[1], cond[2], cond[3], cond[4]):
                out.append((st, True))
            if self.assume(s2, NEG[cond[1]], cond[2], cond[3], cond[4]):
                out.append((s2, False))
        elif isinstance(cond, tuple) and cond[0] == "cc":
            return [(st, True), (s2, False)]
        else:
            out = [(st, True), (s2, False)]
        if isinstance(cond, tuple) and cond[0] == "undef" and getattr(self, "report_undef", False):
            self.report(st, "uninit", "branch on an uninitialised value")
        return out

    def step(self, st):
        fr = st.top
        I = fr.fn.blocks[fr.blk].ins[fr.idx]
        op = I.op
        regs = fr.regs
        val = self.val
        if op == "load":
            p = val(st, I.a[0], regs)
            sz = size_of(I.ty)
            if I.ty.k in ("s", "st", "arr"):
                regs[I.res] = ("aggr", p)
            else:
                regs[I.res] = self.load(st, p, sz, I.ty)
            if st.status:
                return None
            fr.idx += 1
            return None
        if op == "store":
            v = val(st, I.a[0], regs)
            p = val(st, I.a[1], regs)
            if I.ty.k in ("s", "st", "arr"):
                if isinstance(v, tuple) and v[0] == "struct":
                    offs, _ = layout(I.ty)
                    for o, e, t in zip(offs, v[1], real(I.ty).el):
                        self.store(st, self.ptradd(p, o), e, size_of(t))
                elif isinstance(v, tuple) and v[0] == "aggr":
                    self.memcopy(st, p, v[1], size_of(I.ty))
                elif v == 0:
                    self.memfill(st, p, 0, size_of(I.ty))
            else:
                self.store(st, p, v, size_of(I.ty))
            if st.status:
                return None
            fr.idx += 1
            return None
        if op == "getelementptr":
            regs[I.res] = self.gep(st, I.x, val(st, I.a[0], regs), [sx(t, val(st, x, regs)) for t, x in zip(I.y, I.a[1:])])
            fr.idx += 1
            return None
        if op == "br":
            if not I.a:
                self.goto(st, I.x[0])
                return None
            c = val(st, I.a[0], regs)
            outs = self.branch(st, c, I)
            for s, b in outs:
                if len(outs) > 1:
                    s.trace = (s.trace, "%s %s" % (I.loc(), "true" if b else "false"))
                self.goto(s, I.x[0] if b else I.x[1])
            if len(outs) == 1 and outs[0][0] is st:
                return None
            return [s for s, _ in outs]
        if op == "icmp":
            a, b = val(st, I.a[0], regs), val(st, I.a[1], regs)
            w = I.y.n if I.y.k == "i" else 64
            regs[I.res] = self.icmp(st, I.x, a, b, w)
            fr.idx += 1
            return None
        if op in BIN:
            w = I.ty.n if I.ty.k == "i" else 64
            a, b = val(st, I.a[0], regs), val(st, I.a[1], regs)
            if op[0] == "f":
                regs[I.res] = self.fop(st, op, a, b)
            else:
                regs[I.res] = self.binop(st, op, self.known(st, a), self.known(st, b), w)
            fr.idx += 1
            return None
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            regs[I.res] = val(st, I.a[0], regs)
            fr.idx += 1
            return None
        if op in ("zext", "sext", "trunc"):
            v = val(st, I.a[0], regs)
            if isinstance(v, int):
                if op == "trunc":
                    v &= (1 << I.ty.n) - 1
                elif op == "sext":
                    v = sgn(v, I.x.n) & ((1 << I.ty.n) - 1) if I.x.n > 1 or True else v
            elif op == "trunc" and I.ty.n < 16 and isinstance(v, tuple) and v[0] != "c":
                v = ("t", "and", v, (1 << I.ty.n) - 1) if I.ty.n > 1 else ("t", "and", v, 1)
            regs[I.res] = v
            fr.idx += 1
            return None
        if op == "alloca":
            o = ("a", fr.id, I.res)
            sz = size_of(I.x) if I.a[0] == 1 else 1 << 20
            fr.nalloca = (fr.nalloca or ()) + ((o, sz),)
            n = I.a[0]
            regs[I.res] = ("p", o, 0)
            vs = getattr(fr.fn, "vars", None)
            fr.idx += 1
            # re-entering the alloca (loop) cannot happen: allocas are in the entry block
            return None
        if op == "call" or op == "invoke":
            return self.call(st, I)
        if op == "ret":
            v = None
            if I.a:
                v = val(st, I.a[0], regs)
                if I.ty.k in ("s", "st") and isinstance(v, tuple) and v[0] == "aggr":
                    v = ("struct", tuple(self.load(st, self.ptradd(v[1], o), size_of(t), t)
                                         for o, t in zip(layout(I.ty)[0], real(I.ty).el)))
                    if st.status:
                        return None
            return self.doret(st, v)
        if op == "phi":
            self.goto_phi(st)
            return None
        if op == "switch":
            v = self.known(st, val(st, I.a[0], regs))
            d, cs = I.x
            if isinstance(v, int):
                for c, l in cs:
                    if c == v:
                        self.goto(st, l)
                        return None
                self.goto(st, d)
                return None
            outs = []
            k = (I.blk, I.idx)
            c = fr.forks.get(k, 0) + 1
            fr.forks[k] = c
            if c > self.unroll + 1:
                st.status = "cut"
                return []
            for c, l in cs:
                s = st.copy()
                if v is None or self.assume(s, "eq", v, c, I.ty.n):
                    s.trace = (s.trace, "%s case %s" % (I.loc(), c))
                    self.goto(s, l)
                    outs.append(s)
            ok = True
            for c, l in cs:
                if v is not None and not self.assume(st, "ne", v, c, I.ty.n):
                    ok = False
                    break
            if ok:
                st.trace = (st.trace, "%s default" % I.loc())
                self.goto(st, d)
                outs.append(st)
            return outs
        if op == "select":
            c = val(st, I.a[0], regs)
            outs = self.branch(st, c, I)
            for s, b in outs:
                s.top.regs[I.res] = val(s, I.a[1] if b else I.a[2], s.top.regs)
                s.top.idx += 1
            if len(outs) == 1 and outs[0][0] is st:
                return None
            return [s for s, _ in outs]
        if op == "extractvalue":
            v = val(st, I.a[0], regs)
            for k in I.y:
                if isinstance(v, tuple) and v[0] == "struct":
                    v = v[1][k]
                elif isinstance(v, tuple) and v[0] == "aggr":
                    offs, _ = layout(I.x)
                    t = real(I.x).el[k]
                    v = self.load(st, self.ptradd(v[1], offs[k]), size_of(t), t)
                else:
                    v = None
            regs[I.res] = v
            fr.idx += 1
            return None
        if op == "insertvalue":
            v, e = val(st, I.a[0], regs), val(st, I.a[1], regs)
            n = len(real(I.x).el)
            els = list(v[1]) if isinstance(v, tuple) and v[0] == "struct" else [None] * n
            els[I.y[0]] = e
            regs[I.res] = ("struct", tuple(els))
            fr.idx += 1
            return None
        if op == "unreachable":
            st.status = "dead"
            return None
        if op == "fcmp":
            regs[I.res] = self.fcmp(st, I, val(st, I.a[0], regs), val(st, I.a[1], regs))
            fr.idx += 1
            return None
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fptrunc", "fpext", "fneg"):
            v = val(st, I.a[0], regs)
            if isinstance(v, int) and op == "sitofp":
                v = ("f", float(sgn(v, I.x.n)))
            elif isinstance(v, int) and op == "uitofp":
                v = ("f", float(v))
            elif isinstance(v, tuple) and v[0] == "f" and op in ("fptrunc", "fpext"):
                pass
            elif isinstance(v, tuple) and v[0] == "f" and v[1] is not None and op == "fneg":
                v = ("f", -v[1])
            elif isinstance(v, tuple) and v[0] == "f" and isinstance(v[1], float) and op in ("fptosi", "fptoui") \
                    and v[1] == v[1] and abs(v[1]) < 1 << (I.ty.n - 1):
                v = int(v[1]) & ((1 << I.ty.n) - 1)
            elif v is not None:
                v = ("t", op, v)
            regs[I.res] = v
            fr.idx += 1
            return None
        raise AnalysisBroken("cannot interpret %s" % op)

    def fop(self, st, op, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "f" and a[1] is not None and b[1] is not None:
            try:
                return ("f", {"fadd": a[1] + b[1], "fsub": a[1] - b[1], "fmul": a[1] * b[1]}.get(op) if op != "fdiv" else a[1] / b[1])
            except ZeroDivisionError:
                return None
        if a is None or b is None:
            return None
        return ("t", op, a, b)

    def fcmp(self, st, I, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "f" and a[1] is not None and b[1] is not None:
            x, y = a[1], b[1]
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[I.x[1:]])
        return None

    def icmp(self, st, pred, a, b, w):
        # comparison of a comparison result with a constant
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "c" and isinstance(y, int):
                if pred in ("eq", "ne"):
                    if y == 0:
                        return x if pred == "ne" else ("c", NEG[x[1]], x[2], x[3], x[4])
                    if y == 1:
                        return x if pred == "eq" else ("c", NEG[x[1]], x[2], x[3], x[4])
                    return int(pred == "ne")
        a, b = self.known(st, a), self.known(st, b)
        if isinstance(a, int) and isinstance(b, tuple):
            a, b, pred = b, a, SWAP[pred]
        # xor / sub compared with zero -> equality
        if b == 0 and pred in ("eq", "ne") and isinstance(a, tuple) and a[0] == "t" and a[1] == "xor":
            return self.icmp(st, pred, a[2], a[3], w)
        r = self.decide(st, pred, a, b, w)
        if r is not None:
            return int(r)
        if a is None or b is None:
            return None
        if a == UNDEF or b == UNDEF:
            return UNDEF
        return ("c", pred, a, b, w)

    def doret(self, st, v):
        fr = st.top
        if not st.frames or st.frames[-1] is None:
            st.retval = v
            st.status = "ret"
            st.lastfn = fr.fn
            st.lastfr = fr
            return None
        onret = fr.onret
        caller = st.frames[-1].copy()
        st.frames = st.frames[:-1]
        # drop the callee's stack cells
        st.top = caller
        dead = fr.id
        if fr.nalloca:
            if sum(z for o, z in fr.nalloca) > 400 or any(o in st.sym for o, z in fr.nalloca):
                for k in [k for k in st.mem if isinstance(k[0], tuple) and k[0][0] == "a" and k[0][1] == dead]:
                    del st.mem[k]
            else:
                for o, z in fr.nalloca:
                    for i in range(z):
                        st.mem.pop((o, i), None)
        I = caller.fn.blocks[caller.blk].ins[caller.idx]
        if onret:
            r = onret(self, st, I, v)
            if r is not NotImplemented:
                v = r
        if I.res is not None:
            caller.regs[I.res] = v
        if I.op == "invoke":
            self.goto(st, I.y[1])
        else:
            caller.idx += 1
        return None

    def callee_name(self, st, I):
        c = I.x
        if isinstance(c, tuple) and c[0] == "g":
            return c[1], self.prog.resolve(st.top.fn.mod, c[1])
        v = self.val(st, c, st.top.regs)
        if isinstance(v, tuple) and v[0] == "fn":
            f = self.prog.fns.get(v[1])
            return (f.name if f else v[1]), f
        return None, None

    def finish_call(self, st, I, v):
        if I.res is not None:
            st.top.regs[I.res] = v
        if I.op == "invoke":
            self.goto(st, I.y[1])
        else:
            st.top.idx += 1

    def call(self, st, I):
        name, fn = self.callee_name(st, I)
        args = [self.val(st, a, st.top.regs) for a in I.a]
        self.curinstr = I
        if name is None:
            fv = self.val(st, I.x, st.top.regs)
            m = self.models.get("<indirect>")
            if m:
                return self.domodel(st, I, m, args, (fv,))
            self.finish_call(st, I, self.unknown(st, I))
            return None
        if self.on_call:
            self.on_call(self, st, name, fn, args, I)
            if st.status:
                return None
        m = self.models.get(fn.key if fn else name) or self.models.get(name)
        if m is not None:
            return self.domodel(st, I, m, args, ())
        if fn is None:
            m = self.models.get("<extern>")
            if m:
                return self.domodel(st, I, m, args, (name,))
            self.finish_call(st, I, self.unknown(st, I))
            return None
        return self.inline(st, I, fn, args)

    def domodel(self, st, I, m, args, extra):
        r = m(self, st, args, *extra)
        if r is INLINE:
            name, fn = self.callee_name(st, I)
            if fn is None:
                self.finish_call(st, I, self.unknown(st, I))
                return None
            return self.inline(st, I, fn, args, force=True)
        if isinstance(r, list):
            outs = []
            for s, v in r:
                if s.status is None:
                    self.finish_call(s, I, v)
                outs.append(s)
            return outs
        if st.status:
            return None
        self.finish_call(st, I, r)
        return None

    def inline(self, st, I, fn, args, force=False):
        depth = len(st.frames) + 1
        onstack = [f.fn.key for f in st.frames if f] + [st.top.fn.key]
        if not force and self.opaque and self.opaque(fn):
            self.finish_call(st, I, self.unknown(st, I))
            return None
        if depth >= self.maxdepth or onstack.count(fn.key) >= (self.maxrec if self.recursion is None or force else 1):
            if self.recursion is not None and fn.key in onstack and not force:
                return self.domodel(st, I, self.recursion, args, (fn,))
            if self.strict_truncate:
                raise Budget("recursion of %s is too deep" % fn.name)
            if __import__("os").environ.get("CUT"):
                print("CUT", fn.name)
            self.finish_call(st, I, self.unknown(st, I))
            return None
        fr = self.newframe(st, fn, args)
        if fn.vararg:
            st.d = dict(st.d)
            st.d[("va", fr.id)] = tuple(args[len(fn.params):])
        st.frames = st.frames + (st.top,)
        st.top = fr
        # byval copies
        for k, ((t, reg, al), v) in enumerate(zip(fn.params, args)):
            pass
        return None

    def unknown(self, st, I):
        t = I.ty
        if t is None or t.k == "void":
            return None
        n = st.fresh()
        if t.k == "ptr":
            return ("p", ("L", "call%d" % n, 0), 0)
        if t.k in ("s", "st"):
            return ("struct", tuple(("p", ("L", "call%d" % n, i), 0) if e.k == "ptr" else ("s", ("call", n, i))
                                    for i, e in enumerate(real(t).el)))
        return ("s", ("call", n))

    def memfill(self, st, p, v, n):
        d = self.deref(st, p, 1, True)
        if d is None:
            return
        obj, off = d
        if isinstance(n, int) and isinstance(obj, tuple) and obj[0] == "h" and n > 0:
            self.bounds(st, obj, off, n, True)
        if isinstance(n, int) and isinstance(off, int):
            if self.on_store and n <= 256:
                for o in range(off, off + n, 8):
                    if (obj, o) in st.mem or self.ndelta:
                        pass
            for k in [k for k in st.mem if k[0] == obj and isinstance(k[1], int) and off <= k[1] < off + n]:
                del st.mem[k]
            st.fill[obj] = st.fill.get(obj, ()) + ((off, off + n, v),)
        else:
            for k in [k for k in st.mem if k[0] == obj]:
                del st.mem[k]
            st.fill[obj] = st.fill.get(obj, ()) + ((off, None, v),)


BIN = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem",
       "fadd", "fsub", "fmul", "fdiv"}


class _Inline:
    pass


INLINE = _Inline()


def re_bytes(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ------------------------------------------------------------------ base models
def m_memcpy(ai, st, a):
    ai.memcopy(st, a[0], a[1], a[2])
    return a[0]


def m_memset(ai, st, a):
    v = a[1]
    ai.memfill(st, a[0], (v & 255) if isinstance(v, int) else v, a[2])
    return a[0]


def m_exit(ai, st, a):
    st.status = "abort"
    return None


def m_zero(ai, st, a):
    return 0


def m_nop(ai, st, a):
    return None


def m_malloc(ai, st, a):
    n = st.fresh()
    o = ("h", n)
    st.objs[o] = ("alloc", ai.where(st), a[0] if a else None)
    st.emit(("alloc", o, ai.where(st)))
    return ("p", o, 0)


def m_free(ai, st, a):
    p = a[0]
    if isinstance(p, int):
        return None
    if isinstance(p, tuple) and p[0] == "p":
        st.emit(("free", p[1], ai.where(st)))
    return None


def m_va_start(ai, st, a):
    va = st.d.get(("va", st.top.id), ())
    p = a[0]
    d = ai.deref(st, p, 8, True)
    o = ("va", st.fresh())
    st.mem[(d[0], d[1])] = (8 * len(st.top.fn.params), 4)            # gp_offset
    st.mem[(d[0], d[1] + 4)] = (48, 4)       # fp_offset
    st.mem[(d[0], d[1] + 8)] = (("p", o, 4096), 8)
    st.mem[(d[0], d[1] + 16)] = (("p", o, 0), 8)
    nfix = len(st.top.fn.params)
    for i, v in enumerate(va):
        k = nfix + i
        st.mem[(o, 8 * k if k < 6 else 4096 + 8 * (k - 6))] = (v, 8)
    return None


def m_fmuladd(ai, st, a):
    p = ai.fop(st, "fmul", a[0], a[1])
    return ai.fop(st, "fadd", p, a[2])


BASE_MODELS = {"llvm.fmuladd.f64": m_fmuladd,
    "llvm.memcpy.p0.p0.i64": m_memcpy,
    "llvm.memmove.p0.p0.i64": m_memcpy,
    "memcpy": m_memcpy, "memmove": m_memcpy,
    "llvm.memset.p0.i64": m_memset, "memset": m_memset,
    "exit": m_exit, "abort": m_exit,
    "__assert_fail": m_exit,
    "llvm.va_start": m_va_start, "llvm.va_end": m_nop,
    "printf": m_zero, "fprintf": m_zero, "fflush": m_zero, "fputs": m_zero, "puts": m_zero, "putchar": m_zero,
}
