"""Front end: compile /repo's current sources to LLVM IR (clang, no optimisation
except mem2reg, so that macros are expanded, types and callees are resolved and
helper variables disappear) and parse the textual IR into Python objects.

Nothing from /repo is executed; clang and opt only translate.
"""
import os, re, sys, subprocess, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("CAL_REPO", "/repo")
OPT = "/usr/lib/llvm-18/bin/opt"


class AnalysisBroken(Exception):
    """An anchor vanished or the source cannot be analysed: neither pass nor violation."""


class Budget(AnalysisBroken):
    """a path did not end within its step budget"""


class Ty:
    __slots__ = ("k", "n", "el", "name", "_lay")

    def __init__(self, k, n=0, el=None, name=None):
        self.k, self.n, self.el, self.name = k, n, el, name
        self._lay = None

    def __repr__(self):
        return {"i": "i%d" % self.n, "ptr": "ptr", "f": self.name, "void": "void"}.get(self.k) or (
            "[%d x %r]" % (self.n, self.el) if self.k == "arr" else
            (self.name or "{%s}" % ",".join(map(repr, self.el or []))))


PTR, VOID = Ty("ptr"), Ty("void")
_ints = {}


def ity(n):
    if n not in _ints:
        _ints[n] = Ty("i", n)
    return _ints[n]


class Instr:
    __slots__ = ("op", "res", "a", "ty", "dbg", "fn", "x", "line", "file", "blk", "idx", "y")

    def __init__(self, op):
        self.op = op
        self.res = None
        self.a = ()
        self.ty = None
        self.dbg = None
        self.x = None
        self.y = None
        self.line = 0
        self.file = ""

    def loc(self):
        return "%s:%d" % (os.path.basename(self.file) if self.file else "?", self.line)

    def __repr__(self):
        return "<%s %s %s @%s>" % (self.res, self.op, self.a, self.loc())


class Block:
    __slots__ = ("name", "ins", "succ", "pred", "phis")

    def __init__(self, name):
        self.name, self.ins, self.succ, self.pred, self.phis = name, [], [], [], []


class Fn:
    def __init__(self, name):
        self.name = name          # as in source
        self.key = name           # unique: file:name for statics
        self.params = []          # [(ty, reg, attrs)]
        self.ret = None
        self.blocks = {}
        self.order = []
        self.static = False
        self.file = ""
        self.line = 0
        self.vararg = False
        self.mod = None
        self.argnames = []

    def entry(self):
        return self.blocks[self.order[0]]

    def instrs(self):
        for b in self.order:
            for i in self.blocks[b].ins:
                yield i

    def __repr__(self):
        return "<fn %s>" % self.key


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.fns = {}
        self.decls = {}
        self.globals = {}
        self.md = {}


RE_DEF = re.compile(r'^define\s+(.*?)@("[^"]*"|[\w.$]+)\((.*)\)([^{]*)\{')
RE_DECL = re.compile(r'^declare\s+(.*?)@("[^"]*"|[\w.$]+)\((.*)\)')
RE_MD = re.compile(r'^!(\d+) = (?:distinct )?!?(.*)$')
RE_DBG = re.compile(r', !dbg !(\d+)')
ATTRS = set("""noundef nonnull signext zeroext nocapture readonly writeonly returned noalias
 inreg immarg dso_local internal private linkonce_odr weak_odr weak local_unnamed_addr unnamed_addr hidden
 noreturn nounwind mustprogress fastcc ccc tail musttail notail available_externally external
 common comdat default protected nofree willreturn nneg volatile dead_on_unwind writable uwtable swiftself
 nosync speculatable nest allocptr nobuiltin builtin inlinehint""".split())


class P:
    """cursor over one line of IR"""

    def __init__(self, s, mod):
        self.s, self.i, self.mod = s, 0, mod

    def ws(self):
        s = self.s
        while self.i < len(s) and s[self.i] == " ":
            self.i += 1

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def acc(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def exp(self, t):
        if not self.acc(t):
            raise AnalysisBroken("IR parse: expected %r at %r" % (t, self.s[self.i:self.i + 60]))

    RE_W = re.compile(r'[\w.$\-]+')

    def word(self):
        self.ws()
        m = self.RE_W.match(self.s, self.i)
        if not m:
            return None
        self.i = m.end()
        return m.group(0)

    def attrs(self):
        out = []
        while True:
            self.ws()
            m = self.RE_W.match(self.s, self.i)
            if m and m.group(0) in ATTRS:
                self.i = m.end()
                out.append(m.group(0))
                continue
            if m and m.group(0) == "align":
                self.i = m.end()
                self.word()
                continue
            if m and m.group(0) in ("byval", "sret", "dereferenceable", "dereferenceable_or_null",
                                     "captures", "range", "elementtype", "memory"):
                w = m.group(0)
                self.i = m.end()
                if self.acc("("):
                    d = 1
                    while d:
                        c = self.s[self.i]
                        d += (c == "(") - (c == ")")
                        self.i += 1
                out.append(w)
                continue
            if self.s.startswith("#", self.i):
                self.i += 1
                self.word()
                continue
            return out

    def type(self):
        self.ws()
        s, i = self.s, self.i
        c = s[i]
        if c == "i" and i + 1 < len(s) and s[i + 1].isdigit():
            m = re.compile(r'i(\d+)').match(s, i)
            self.i = m.end()
            t = ity(int(m.group(1)))
        elif s.startswith("ptr", i):
            self.i += 3
            t = PTR
        elif s.startswith("void", i):
            self.i += 4
            t = VOID
        elif s.startswith("double", i) or s.startswith("float", i) or s.startswith("x86_fp80", i):
            w = self.word()
            t = Ty("f", {"double": 8, "float": 4}.get(w, 16), None, w)
        elif s.startswith("metadata", i):
            self.i += 8
            t = Ty("md")
        elif s.startswith("label", i):
            self.i += 5
            t = Ty("label")
        elif c == "%":
            self.i += 1
            if s[self.i] == '"':
                j = s.index('"', self.i + 1)
                n = s[self.i + 1:j]
                self.i = j + 1
            else:
                n = self.word()
            t = Ty("s", name=n)
            t.el = self.mod
        elif c == "[":
            self.i += 1
            n = int(self.word())
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = Ty("arr", n, e)
        elif c == "{":
            self.i += 1
            els = []
            if not self.acc("}"):
                while True:
                    els.append(self.type())
                    if self.acc("}"):
                        break
                    self.exp(",")
            t = Ty("st", el=els)
        elif c == "<":
            if s[i + 1] == "{":
                self.i += 2
                els = []
                while True:
                    els.append(self.type())
                    if self.acc("}"):
                        break
                    self.exp(",")
                self.exp(">")
                t = Ty("st", el=els)
                t.n = 1
            else:
                self.i += 1
                n = int(self.word())
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = Ty("arr", n, e)
        else:
            raise AnalysisBroken("IR type? %r" % s[i:i + 50])
        # function type suffix
        self.ws()
        if self.i < len(self.s) and self.s[self.i] == "(" and t.k != "label":
            # only used in call function types "i32 (ptr, ...)"
            j = self.i
            d = 0
            while True:
                ch = self.s[j]
                d += (ch == "(") - (ch == ")")
                j += 1
                if d == 0:
                    break
            self.i = j
        return t

    def value(self, ty):
        """operand -> representation:
        ('r',name) register | int | ('g',name) | ('u',) undef | ('f',x) float | ('ce',op,...)"""
        self.ws()
        s = self.s
        c = s[self.i]
        if c == "%":
            self.i += 1
            if s[self.i] == '"':
                j = s.index('"', self.i + 1)
                n = s[self.i + 1:j]
                self.i = j + 1
            else:
                n = self.word()
            return ("r", n)
        if c == "@":
            self.i += 1
            if s[self.i] == '"':
                j = s.index('"', self.i + 1)
                n = s[self.i + 1:j]
                self.i = j + 1
            else:
                n = self.word()
            return ("g", n)
        if c == "c" and s.startswith('c"', self.i):
            j = s.index('"', self.i + 2)
            raw = s[self.i + 2:j]
            self.i = j + 1
            return ("str", raw)
        if c == "[" or c == "{" or c == "<":
            close = {"[": "]", "{": "}", "<": ">"}[c]
            self.i += 1
            els = []
            while not self.acc(close):
                t = self.type()
                els.append((t, self.value(t)))
                self.acc(",")
            return ("agg", els)
        if c == "!":
            self.i += 1
            w = self.word()
            if self.acc("("):
                d = 1
                while d:
                    ch = self.s[self.i]
                    d += (ch == "(") - (ch == ")")
                    self.i += 1
            return ("md", w)
        w = self.word()
        if w is None:
            raise AnalysisBroken("IR value? %r" % s[self.i:self.i + 60])
        if re.fullmatch(r'-?\d+', w):
            v = int(w)
            if ty is not None and ty.k == "i":
                return v & ((1 << ty.n) - 1)
            return v
        if w == "null" or w == "false":
            return 0
        if w == "true":
            return 1
        if w in ("undef", "poison"):
            return ("u",)
        if w == "zeroinitializer":
            return ("zero",)
        if w in ("getelementptr",):
            self.acc("inbounds")
            self.exp("(")
            bt = self.type()
            self.exp(",")
            t = self.type()
            base = self.value(t)
            idx = []
            while self.acc(","):
                t = self.type()
                idx.append((t, self.value(t)))
            self.exp(")")
            return ("ce", "gep", bt, base, idx)
        if w in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext"):
            self.exp("(")
            t = self.type()
            v = self.value(t)
            self.exp("to")
            t2 = self.type()
            self.exp(")")
            return ("ce", w, t, v, t2)
        if w in ("and", "or", "xor", "add", "sub", "mul", "shl"):
            self.exp("(")
            t = self.type()
            v = self.value(t)
            self.exp(",")
            t2 = self.type()
            v2 = self.value(t2)
            self.exp(")")
            return ("ce", w, t, v, v2)
        if w == "icmp":
            raise AnalysisBroken("const icmp")
        if re.match(r'^-?\d', w) or w.startswith("0x"):
            if w.startswith("0x"):
                try:
                    import struct
                    return ("f", struct.unpack(">d", bytes.fromhex(w[2:].zfill(16)))[0])
                except Exception:
                    return ("f", None)
            # floats such as 1.000000e+00 : word() ate 1.000000e, then +00
            m = re.compile(r'[+]\d+').match(s, self.i)
            if m:
                w += m.group(0)
                self.i = m.end()
            return ("f", float(w))
        raise AnalysisBroken("IR value word %r in %r" % (w, s))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


BINOPS = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem",
          "fadd", "fsub", "fmul", "fdiv"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui",
         "fptrunc", "fpext"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "disjoint", "nneg"}


def parse_instr(line, mod):
    dbg = None
    m = RE_DBG.search(line)
    if m:
        dbg = int(m.group(1))
        line = line[:m.start()]
    k = line.find(", !")
    if k >= 0 and "metadata" not in line:
        line = line[:k]
    p = P(line, mod)
    res = None
    if p.peek("%"):
        p.acc("%")
        if p.s[p.i] == '"':
            j = p.s.index('"', p.i + 1)
            res = p.s[p.i + 1:j]
            p.i = j + 1
        else:
            res = p.word()
        p.exp("=")
    op = p.word()
    I = Instr(op)
    I.res, I.dbg = res, dbg
    if op in ("tail", "musttail", "notail"):
        op = p.word()
        I.op = op
    if op in BINOPS:
        while True:
            sv = p.i
            w = p.word()
            if w not in FLAGS:
                p.i = sv
                break
        I.ty = p.type()
        a = p.value(I.ty)
        p.exp(",")
        I.a = (a, p.value(I.ty))
    elif op == "fneg":
        I.ty = p.type()
        I.a = (p.value(I.ty),)
    elif op in CASTS:
        while True:
            sv = p.i
            w = p.word()
            if w not in FLAGS:
                p.i = sv
                break
        t = p.type()
        v = p.value(t)
        p.exp("to")
        I.x = t
        I.ty = p.type()
        I.a = (v,)
    elif op == "icmp" or op == "fcmp":
        I.x = p.word()
        if I.x in FLAGS:
            I.x = p.word()
        I.y = p.type()
        I.ty = ity(1)
        a = p.value(I.y)
        p.exp(",")
        I.a = (a, p.value(I.y))
    elif op == "load":
        p.acc("volatile")
        I.ty = p.type()
        p.exp(",")
        p.type()
        I.a = (p.value(PTR),)
    elif op == "store":
        p.acc("volatile")
        t, v = p.tv()
        p.exp(",")
        p.type()
        I.a = (v, p.value(PTR))
        I.ty = t
    elif op == "getelementptr":
        while True:
            sv = p.i
            w = p.word()
            if w not in FLAGS:
                p.i = sv
                break
        I.x = p.type()
        p.exp(",")
        p.type()
        base = p.value(PTR)
        idx = []
        while p.acc(","):
            t = p.type()
            idx.append((t, p.value(t)))
        I.ty = PTR
        I.a = (base,) + tuple(v for _, v in idx)
        I.y = [t for t, _ in idx]
    elif op == "alloca":
        I.x = p.type()
        I.ty = PTR
        n = 1
        if p.acc(","):
            sv = p.i
            w = p.word()
            if w != "align":
                p.i = sv
                t = p.type()
                n = p.value(t)
        I.a = (n,)
    elif op == "br":
        if p.acc("label"):
            p.exp("%")
            I.a = ()
            I.x = [lab(p)]
        else:
            t = p.type()
            v = p.value(t)
            p.exp(",")
            p.exp("label")
            p.exp("%")
            t1 = lab(p)
            p.exp(",")
            p.exp("label")
            p.exp("%")
            I.a = (v,)
            I.x = [t1, lab(p)]
    elif op == "switch":
        t = p.type()
        v = p.value(t)
        p.exp(",")
        p.exp("label")
        p.exp("%")
        d = lab(p)
        p.exp("[")
        cs = []
        while not p.acc("]"):
            ct = p.type()
            cv = p.value(ct)
            p.exp(",")
            p.exp("label")
            p.exp("%")
            cs.append((cv, lab(p)))
        I.a = (v,)
        I.ty = t
        I.x = (d, cs)
    elif op == "ret":
        if p.acc("void"):
            I.a = ()
        else:
            I.ty = p.type()
            I.a = (p.value(I.ty),)
    elif op == "unreachable":
        pass
    elif op == "phi":
        I.ty = p.type()
        inc = []
        while True:
            p.exp("[")
            v = p.value(I.ty)
            p.exp(",")
            p.exp("%")
            inc.append((v, lab(p)))
            p.exp("]")
            if not p.acc(","):
                break
        I.x = inc
        I.a = tuple(v for v, _ in inc)
    elif op == "select":
        t, c = p.tv()
        p.exp(",")
        t1, a = p.tv()
        p.exp(",")
        t2, b = p.tv()
        I.ty = t1
        I.a = (c, a, b)
    elif op in ("call", "invoke"):
        p.attrs()
        I.ty = p.type()
        callee = p.value(PTR)
        p.exp("(")
        args = []
        at = []
        if not p.acc(")"):
            while True:
                t = p.type()
                al = p.attrs()
                if t.k == "md":
                    if p.peek("i") or p.peek("ptr") or p.peek("double") or p.peek("float") or p.peek("%") and False:
                        t2 = p.type()
                        args.append(p.value(t2))
                    else:
                        args.append(p.value(t))
                else:
                    args.append(p.value(t))
                at.append((t, al))
                if p.acc(")"):
                    break
                p.exp(",")
        I.x = callee
        I.a = tuple(args)
        I.y = at
        if op == "invoke":
            mm = re.search(r'to label %("?[\w.$\-]+"?) unwind label %("?[\w.$\-]+"?)', line)
            I.op = "invoke"
            I.y = (at, mm.group(1).strip('"'), mm.group(2).strip('"')) if mm else (at, None, None)
    elif op == "extractvalue":
        I.x = p.type()
        v = p.value(I.x)
        idx = []
        while p.acc(","):
            idx.append(int(p.word()))
        I.a = (v,)
        I.y = idx
        t = I.x
        for k in idx:
            t = (fields(t)[k]) if t.k in ("s", "st") else t.el
        I.ty = t
    elif op == "insertvalue":
        I.x = p.type()
        v = p.value(I.x)
        p.exp(",")
        t, w = p.tv()
        idx = []
        while p.acc(","):
            idx.append(int(p.word()))
        I.a = (v, w)
        I.y = idx
        I.ty = I.x
    elif op in ("landingpad", "resume", "freeze", "va_arg"):
        if op in ("freeze",):
            I.ty = p.type()
            I.a = (p.value(I.ty),)
        elif op == "va_arg":
            t, v = p.tv()
            p.exp(",")
            I.ty = p.type()
            I.a = (v,)
        pass
    else:
        raise AnalysisBroken("IR instr %r" % line)
    return I


def lab(p):
    if p.s[p.i] == '"':
        j = p.s.index('"', p.i + 1)
        n = p.s[p.i + 1:j]
        p.i = j + 1
        return n
    return p.word()


def fields(t):
    if t.k == "s":
        mod = t.el
        r = mod.types.get(t.name)
        if r is None:
            raise AnalysisBroken("opaque struct " + t.name)
        return fields(r)
    if t.k == "st":
        return t.el
    raise AnalysisBroken("fields of %r" % t)


def align_of(t):
    if t.k == "i":
        return 1 if t.n <= 8 else 2 if t.n <= 16 else 4 if t.n <= 32 else 8 if t.n <= 64 else 16
    if t.k == "ptr":
        return 8
    if t.k == "f":
        return t.n
    if t.k == "arr":
        return align_of(t.el)
    if t.k == "s":
        return align_of(real(t))
    if t.k == "st":
        return 1 if t.n else max([align_of(e) for e in t.el] or [1])
    return 1


def real(t):
    while t.k == "s":
        r = t.el.types.get(t.name)
        if r is None:
            raise AnalysisBroken("opaque struct " + t.name)
        t = r
    return t


def layout(t):
    t = real(t)
    if t._lay:
        return t._lay
    off = 0
    offs = []
    for e in t.el:
        a = 1 if t.n else align_of(e)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(e)
    a = align_of(t)
    t._lay = (offs, (off + a - 1) // a * a)
    return t._lay


def size_of(t):
    if t.k == "i":
        return (t.n + 7) // 8 if t.n <= 8 else 1 << ((t.n + 7) // 8 - 1).bit_length()
    if t.k == "ptr":
        return 8
    if t.k == "f":
        return t.n
    if t.k == "arr":
        return t.n * size_of(t.el)
    if t.k in ("s", "st"):
        return layout(t)[1]
    return 0


def parse_params(s, mod):
    out = []
    p = P(s, mod)
    va = False
    p.ws()
    while p.i < len(s):
        if p.acc("..."):
            va = True
            break
        t = p.type()
        al = p.attrs()
        reg = None
        if p.peek("%"):
            reg = p.value(t)[1]
        out.append((t, reg, al))
        if not p.acc(","):
            break
    return out, va


def parse_module(text, name):
    mod = Module(name)
    cur = None
    blk = None
    lines = text.split("\n")
    n = len(lines)
    k = 0
    mdl = mod.md
    while k < n:
        line = lines[k]
        k += 1
        if cur is not None:
            if line == "}":
                cur = None
                continue
            if not line:
                continue
            if line[0] != " ":
                m = re.match(r'^("[^"]*"|[\w.$\-]+):', line)
                if m:
                    blk = Block(m.group(1).strip('"'))
                    cur.blocks[blk.name] = blk
                    cur.order.append(blk.name)
                continue
            s = line.strip()
            if s.startswith("switch ") and not s.rstrip().endswith("]") and "]" not in s:
                while "]" not in lines[k]:
                    s += " " + lines[k].strip()
                    k += 1
                s += " " + lines[k].strip()
                k += 1
            if "landingpad" in s:
                while k < n and lines[k].startswith("          "):
                    k += 1
            if s.startswith("invoke") or "= invoke" in s:
                s += " " + lines[k].strip()
                k += 1
                d = RE_DBG.search(s)
            if "@llvm.dbg.label" in s:
                continue
            if blk is None:
                blk = Block("0")
                cur.blocks["0"] = blk
                cur.order.append("0")
            I = parse_instr(s, mod)
            I.fn = cur
            I.blk = blk.name
            I.idx = len(blk.ins)
            blk.ins.append(I)
            continue
        if not line:
            continue
        c = line[0]
        if c == "!":
            m = RE_MD.match(line)
            if m:
                mdl[int(m.group(1))] = m.group(2)
            continue
        if c == "%":
            m = re.match(r'^%("[^"]*"|[\w.$:]+) = type (.*)$', line)
            if m:
                nm = m.group(1).strip('"')
                if m.group(2).startswith("opaque"):
                    continue
                mod.types[nm] = P(m.group(2), mod).type()
            continue
        if c == "@":
            m = re.match(r'^@("[^"]*"|[\w.$]+) = (.*)$', line)
            if m:
                rest = m.group(2)
                d = re.search(r'(?:global|constant)\s', rest)
                if d:
                    pre = rest[:d.start()]
                    p = P(rest[d.end():], mod)
                    try:
                        t = p.type()
                        init = None
                        if "external" not in pre:
                            init = p.value(t)
                        mod.globals[m.group(1).strip('"')] = (t, init, "internal" in pre or "private" in pre, "constant" in d.group(0))
                    except AnalysisBroken:
                        mod.globals[m.group(1).strip('"')] = (PTR, None, True, True)
            continue
        if line.startswith("define"):
            m = RE_DEF.match(line)
            f = Fn(m.group(2).strip('"'))
            pre = m.group(1)
            # return type: last type token in pre
            p = P(pre, mod)
            p.attrs()
            f.ret = p.type()
            f.retattrs = pre
            f.static = "internal" in pre.split()
            f.params, f.vararg = parse_params(m.group(3), mod)
            f.mod = mod
            md = re.search(r'!dbg !(\d+)', m.group(4))
            f.dbg = int(md.group(1)) if md else None
            mod.fns[f.name] = f
            cur = f
            blk = None
            continue
        if line.startswith("declare"):
            m = RE_DECL.match(line)
            if m:
                mod.decls[m.group(2).strip('"')] = True
    # resolve debug locs
    _post(mod)
    return mod


RE_LOC = re.compile(r'line: (\d+).*?scope: !(\d+)')


def _post(mod):
    md = mod.md
    filecache = {}

    def file_of(id, depth=0):
        if id in filecache:
            return filecache[id]
        s = md.get(id, "")
        r = ""
        if s.startswith("DIFile"):
            m = re.search(r'filename: "([^"]*)"', s)
            r = m.group(1)
        else:
            m = re.search(r'file: !(\d+)', s)
            if m:
                r = file_of(int(m.group(1)), depth + 1)
            else:
                m = re.search(r'scope: !(\d+)', s)
                if m and depth < 50:
                    r = file_of(int(m.group(1)), depth + 1)
        filecache[id] = r
        return r
    loccache = {}
    for f in mod.fns.values():
        if f.dbg is not None:
            s = md.get(f.dbg, "")
            m = re.search(r'line: (\d+)', s)
            f.line = int(m.group(1)) if m else 0
            f.file = file_of(f.dbg)
            m = re.search(r'\bname: "([^"]*)"', s)
            f.srcname = m.group(1) if m else f.name
        preds = {b: [] for b in f.blocks}
        for b in f.blocks.values():
            keep = []
            for I in b.ins:
                if I.dbg is not None:
                    v = loccache.get(I.dbg)
                    if v is None:
                        m = RE_LOC.search(md.get(I.dbg, ""))
                        v = (int(m.group(1)), file_of(int(m.group(2)))) if m else (0, "")
                        loccache[I.dbg] = v
                    I.line, I.file = v
                    if not I.file:
                        I.file = f.file
                else:
                    I.file = f.file
                if I.op == "call" and isinstance(I.x, tuple) and I.x[0] == "g" and I.x[1].startswith("llvm.dbg"):
                    _varname(f, I, md)
                    continue
                keep.append(I)
            b.ins = keep
            for j, I in enumerate(keep):
                I.idx = j
            b.phis = [I for I in keep if I.op == "phi"]
            t = keep[-1]
            if t.op == "br":
                b.succ = list(dict.fromkeys(t.x))
            elif t.op == "switch":
                b.succ = list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
            elif t.op == "invoke":
                b.succ = [t.y[1], t.y[2]]
            else:
                b.succ = []
            for s in b.succ:
                preds[s].append(b.name)
        for b in f.blocks.values():
            b.pred = preds[b.name]


def _varname(f, I, md):
    if not hasattr(f, "vars"):
        f.vars = {}
    try:
        if I.a[0][0] != "r":
            return
        m = re.search(r'name: "([^"]*)"', md.get(int(I.a[1][1]), ""))
        if m:
            f.vars.setdefault(I.a[0][1], m.group(1))
    except Exception:
        pass


RE_MEM = re.compile(r'DIDerivedType\(tag: DW_TAG_(?:member|inheritance), (?:name: "([^"]*)")?.*?baseType: !(\d+), size: (\d+)(?:, offset: (\d+))?')


def struct_fields(mod):
    """{struct name: {field: (byte offset, byte size)}} from debug info"""
    out = {}
    md = mod.md
    for id, s in md.items():
        if "DICompositeType(tag: DW_TAG_structure_type" in s and "elements:" in s:
            m = re.search(r'name: "([^"]*)"', s)
            if not m:
                continue
            e = int(re.search(r'elements: !(\d+)', s).group(1))
            d = {}
            for x in re.findall(r'!(\d+)', md.get(e, "")):
                t = md.get(int(x), "")
                if "DW_TAG_member" not in t:
                    continue
                n = re.search(r'name: "([^"]*)"', t)
                sz = re.search(r'size: (\d+)', t)
                of = re.search(r'offset: (\d+)', t)
                if n and sz:
                    d[n.group(1)] = ((int(of.group(1)) // 8) if of else 0, int(sz.group(1)) // 8)
            out[m.group(1)] = d
    return out


class Program:
    def __init__(self):
        self.mods = {}
        self.fns = {}         # key -> Fn
        self.byname = {}
        self.consts = {}
        self.fields = {}
        self.gl = {}

    def fn(self, name, required=True, file=None):
        f = self.fns.get(name)
        if f is None:
            c = self.byname.get(name, [])
            if file:
                c = [x for x in c if os.path.basename(x.file) == file or x.mod.name == file]
            if len(c) >= 1:
                return c[0]
            if required:
                raise AnalysisBroken("function %s not found in the sources" % name)
        return f

    def resolve(self, mod, name):
        """callee named @name in module mod -> Fn or None (external)"""
        f = mod.fns.get(name)
        if f is not None:
            return f
        return self.fns.get(name)

    def const(self, *names):
        """values of constant expressions as seen by the library (macros, enumerators, sizes)"""
        need = [n for n in names if n not in self.consts]
        if need:
            tmp = tempfile.mkdtemp(prefix="calir.")
            try:
                src = os.path.join(REPO, "src")
                with open(os.path.join(tmp, "cal_export.h"), "w") as f:
                    f.write(STUB_EXPORT)
                with open(os.path.join(tmp, "k.c"), "w") as f:
                    f.write('#include "calInt.h"\n' + "".join(
                        "long long cal_k%d = (long long)(%s);\n" % (i, n) for i, n in enumerate(need)))
                r = subprocess.run(["clang-18", "-S", "-emit-llvm", "-O0", "-w", "-DPAGE_SIZE=4096", "-DNDEBUG", "-I" + tmp, "-I" + src,
                                    os.path.join(tmp, "k.c"), "-o", os.path.join(tmp, "k.ll")], capture_output=True, text=True)
                if r.returncode:
                    raise AnalysisBroken("constants %s are not available:\n%s" % (need, r.stderr[:600]))
                for m in re.finditer(r"@cal_k(\d+) = .*global i64 (-?\d+)", open(os.path.join(tmp, "k.ll")).read()):
                    self.consts[need[int(m.group(1))]] = int(m.group(2))
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return self.consts[names[0]] if len(names) == 1 else [self.consts[n] for n in names]

    def off(self, struct, field):
        try:
            return self.fields[struct][field][0]
        except KeyError:
            raise AnalysisBroken("field %s.%s not found" % (struct, field))

    def offname(self, struct, off):
        for n, (o, s) in self.fields.get(struct, {}).items():
            if o == off:
                return n
        return "+%d" % off


STUB_EXPORT = "#ifndef CAL_API\n#define CAL_API\n#define CAL_NO_EXPORT\n#endif\n"


def load(files=None, defs=("NDEBUG",), cxx=None, keep=None, simplify="mem2reg"):
    """Compile and parse.  files: list of C basenames (default all of src/*.c);
    cxx: text of a C++ translation unit to compile too."""
    src = os.path.join(REPO, "src")
    if files is None:
        files = sorted(os.path.basename(x) for x in glob.glob(src + "/*.c"))
    # exactly the units the build compiles
    cm = open(os.path.join(src, "CMakeLists.txt")).read() if os.path.exists(os.path.join(src, "CMakeLists.txt")) else ""
    files = [f for f in files if re.search(r'\b' + re.escape(f) + r'\b', cm)]
    if not files:
        raise AnalysisBroken("no sources found in " + src)
    tmp = tempfile.mkdtemp(prefix="calir.")
    try:
        with open(os.path.join(tmp, "cal_export.h"), "w") as f:
            f.write(STUB_EXPORT)

        def one(fn):
            out = os.path.join(tmp, fn + ".ll")
            isx = fn.endswith(".cc")
            path = os.path.join(tmp if isx else src, fn)
            cmd = ["clang++-18" if isx else "clang-18"] + (["-std=c++17", "-fno-exceptions"] if isx else []) + \
                  ["-S", "-emit-llvm", "-O0", "-g", "-w",
                   "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-DPAGE_SIZE=4096"] + \
                  ["-D" + d for d in defs] + ["-I" + tmp, "-I" + src, path, "-o", out]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("clang failed on %s:\n%s" % (fn, r.stderr[:2000]))
            if simplify:
                r = subprocess.run([OPT, "-S", "-passes=" + simplify, out, "-o", out + ".m"], capture_output=True, text=True)
                if r.returncode:
                    raise AnalysisBroken("opt failed on %s:\n%s" % (fn, r.stderr[:2000]))
                out += ".m"
            return fn, open(out).read()
        todo = list(files)
        if cxx is not None:
            with open(os.path.join(tmp, "unit.cc"), "w") as f:
                f.write(cxx)
            todo.append("unit.cc")
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(one, todo))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prog = Program()
    if len(texts) > 6:
        import multiprocessing as mp
        import pickle
        old = sys.getrecursionlimit()
        mods = [parse_module(t, f) for f, t in texts]
    else:
        mods = [parse_module(t, f) for f, t in texts]
    for mod in mods:
        prog.mods[mod.name] = mod
        for s, d in struct_fields(mod).items():
            if len(d) > len(prog.fields.get(s, {})):
                prog.fields[s] = d
        for f in mod.fns.values():
            f.key = (mod.name + ":" + f.name) if f.static else f.name
            prog.fns[f.key] = f
            prog.byname.setdefault(f.name, []).append(f)
    return prog


if __name__ == "__main__":
    import time
    t = time.time()
    p = load()
    print(len(p.fns), "functions", time.time() - t)
    print(p.fields["Cal_BddStruct"], p.fields["CalBddNodeStruct"])
