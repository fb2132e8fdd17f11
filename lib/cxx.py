"""The C++ interface on whole managers: src/calObj.hh is compiled with a unit of small drivers, one per member, and
interpreted together with the C library."""
import re
from ir import AnalysisBroken, Budget
import ir
from world import Malformed
from kernels import loc
from collect import story, Spec, populate, A, B, C, D, no
from history import Dice, quiet_thresholds
from mgr import Mgr, View, Ref, Val, Bad, Leak, Stop, reachable, neg, i32, again

# ---- members: name, expression over c (Cal*), a, b, d (BDD*)
BDDS = {}       # returning a diagram
NUMS = {}       # returning a number


def both(name, args, extra=""):
    """a member of BDD and the one of Cal with the same meaning"""
    f, rest = args[0], args[1:]
    l = ", ".join("*" + x for x in rest)
    BDDS[name] = "%s->%s(%s)" % (f, name, l)
    BDDS["Cal_" + name] = "c->%s(%s)" % (name, ", ".join("*" + x for x in args))


for n in ("Identity", "Regular", "Not", "If", "Then", "Else", "Satisfy", "SatisfySupport"):
    both(n, "a")
for n in ("Intersects", "Implies", "And", "Nand", "Or", "Nor", "Xor", "Xnor", "Cofactor", "Reduce"):
    both(n, "ab")
for n in ("Compose", "ITE", "SwapVars"):
    both(n, "abd")
BDDS["Diff"] = "a->Diff(*b)"
for n, op in (("and", "&"), ("or", "|"), ("xor", "^"), ("minus", "-")):
    BDDS["op_" + n] = "*a %s *b" % op
BDDS["op_not"] = "~*a"
BDDS["Between"] = "c->Between(*a, *b)"
BDDS["Exists"] = "c->Exists(*a)"
BDDS["ForAll"] = "c->ForAll(*a)"
BDDS["RelProd"] = "c->RelProd(*a, *b)"
BDDS["Substitute"] = "c->Substitute(*a)"
BDDS["VarSubstitute"] = "c->VarSubstitute(*a)"
BDDS["Null"] = "c->Null()"
BDDS["One"] = "c->One()"
BDDS["Zero"] = "c->Zero()"
BDDS["VarId"] = "c->Id(k)"
BDDS["VarIndex"] = "c->Index(k)"
BDDS["First"] = "c->CreateNewVarFirst()"
BDDS["Last"] = "c->CreateNewVarLast()"
BDDS["Before"] = "c->CreateNewVarBefore(*a)"
BDDS["After"] = "c->CreateNewVarAfter(*a)"
BDDS["chain"] = "(*a & ~*b) | (*d ^ a->Nor(*d))"
BDDS["copied"] = "BDD(*a)"
BDDS["moved"] = "BDD(std::move(*a))"

INPLACE = {"and": "*a &= *b", "or": "*a |= *b", "xor": "*a ^= *b", "minus": "*a -= *b", "copy": "*a = *b", "move": "*a = std::move(*b)",
           "tmp": "*a = a->And(*b)", "not": "*a = ~*a", "null": "*a = BDD()", "ite": "*a = a->ITE(*b, *d)"}

for n in ("IsOne", "IsZero", "IsNull", "IsConst", "IsCube"):
    NUMS[n] = "a->%s()" % n
    NUMS["Cal_" + n] = "c->%s(*a)" % n
NUMS["IsEqualTo"] = "a->IsEqualTo(*b)"
NUMS["Cal_IsEqual"] = "c->IsEqual(*a, *b)"
NUMS["op_eq"] = "*a == *b"
NUMS["op_ne"] = "*a != *b"
NUMS["DependsOn"] = "a->DependsOn(*b)"
NUMS["Cal_DependsOn"] = "c->DependsOn(*a, *b)"
NUMS["Id"] = "a->Id()"
NUMS["Cal_IfId"] = "c->IfId(*a)"
NUMS["Index"] = "a->Index()"
NUMS["Cal_IfIndex"] = "c->IfIndex(*a)"
NUMS["Type"] = "(long)a->Type()"
NUMS["Size"] = "(long)a->Size()"
NUMS["Size1"] = "(long)a->Size(true)"
NUMS["Size0"] = "(long)a->Size(false)"
NUMS["Cal_Size"] = "(long)c->Size(*a)"
NUMS["Cal_Size0"] = "(long)c->Size(*a, false)"
NUMS["RefCount"] = "a->RefCount()"
NUMS["Nodes"] = "(long)c->Nodes()"
NUMS["Vars"] = "c->Vars()"
NUMS["Overflow"] = "c->Overflow()"
NUMS["TotalSize"] = "(long)c->TotalSize()"
NUMS["NodeLimit"] = "c->NodeLimit(k)"
NUMS["SetGCMode"] = "(c->SetGCMode(k), 0)"
NUMS["SetGCLimit"] = "(c->SetGCLimit(), 0)"
NUMS["GC"] = "(c->GC(), 0)"
NUMS["Reorder"] = "(c->Reorder(), 0)"
NUMS["DynNone"] = "(c->DynamicReordering(Cal::None), 0)"
NUMS["DynSift"] = "(c->DynamicReordering(Cal::Sift), 0)"
NUMS["DynWindow"] = "(c->DynamicReordering(Cal::Window), 0)"
NUMS["DynSiftBF"] = "(c->DynamicReordering(Cal::Sift, Cal::BF), 0)"
NUMS["DynSiftDF"] = "(c->DynamicReordering(Cal::Sift, Cal::DF), 0)"
NUMS["DynWindowBF"] = "(c->DynamicReordering(Cal::Window, Cal::BF), 0)"
NUMS["SetParameters"] = "(c->SetParameters(k, k + 1, 0.25, 0.75), 0)"
NUMS["AssociationSetCurrent"] = "c->AssociationSetCurrent(k)"
NUMS["AssociationQuit"] = "(c->AssociationQuit(k), 0)"
NUMS["TempAssociationQuit"] = "(c->TempAssociationQuit(), 0)"
NUMS["Print"] = "(a->Print(f), 0)"
NUMS["Cal_Print"] = "(c->Print(*a, f), 0)"
NUMS["PrintProfile"] = "(a->PrintProfile(k, f), 0)"
NUMS["Cal_PrintProfile"] = "(c->PrintProfile(*a, k, f), 0)"
NUMS["PrintFunctionProfile"] = "(a->PrintFunctionProfile(k, f), 0)"
NUMS["Cal_PrintFunctionProfile"] = "(c->PrintFunctionProfile(*a, k, f), 0)"
NUMS["Stats"] = "(c->Stats(f), 0)"
FLOATS = {"SatisfyingFraction": "a->SatisfyingFraction()", "Cal_SatisfyingFraction": "c->SatisfyingFraction(*a)"}

# ---- members taking lists; %s is "v.begin(), v.end()" or "v"
LISTB = {}
LISTV = {}
LISTN = {}
LISTP = {}
for n in ("And", "Or", "Xor"):
    LISTB[n] = "c->%s(%%s)" % n
    LISTV["Pairwise" + n] = "c->Pairwise%s(%%s)" % n
LISTN["Size"] = "(long)c->Size(%s)"
LISTN["Size0"] = "(long)c->Size(%s, false)"
LISTN["PrintProfile"] = "(c->PrintProfile(%s, k, f), 0)"
LISTN["PrintFunctionProfile"] = "(c->PrintFunctionProfile(%s, k, f), 0)"
LISTN["AssociationInit"] = "c->AssociationInit(v.begin(), v.end(), (bool)k)"
LISTN["AssociationInitSets"] = "c->AssociationInit(v.begin(), v.end())"
LISTN["TempAssociationInit"] = "(c->TempAssociationInit(v.begin(), v.end(), (bool)k), 0)"
LISTN["TempAssociationInitSets"] = "(c->TempAssociationInit(v.begin(), v.end()), 0)"
LISTN["TempAssociationAugment"] = "(c->TempAssociationAugment(v.begin(), v.end(), (bool)k), 0)"
LISTN["TempAssociationAugmentSets"] = "(c->TempAssociationAugment(v.begin(), v.end()), 0)"
LISTP["Profile"] = "c->Profile(%s)"
LISTP["Profile0"] = "c->Profile(%s, false)"
LISTP["FunctionProfile"] = "c->FunctionProfile(%s)"
INTS = {k: v for k, v in list(LISTN.items()) if "ssociation" in k}
ARGS = "Cal *c, BDD *a, BDD *b, BDD *d, int k, FILE *f"
LARGS = "Cal *c, BDD **l, int n, int k, FILE *f"


def unit():
    """the drivers"""
    o = ['#include "calObj.hh"', "#include <new>", "#include <list>", "#include <utility>",
         "struct Held : BDD { Held(Cal_BddManager m, Cal_Bdd b) : BDD(m, b) {} };", 'extern "C" {',
         "unsigned long hx_size(int w) { return w ? sizeof(Cal) : sizeof(BDD); }",
         "void hx_cal(void *p) { new (p) Cal(); }",
         "void hx_calvars(void *p, unsigned n) { new (p) Cal(n); }",
         "void hx_calmove(void *p, Cal *o) { new (p) Cal(std::move(*o)); }",
         "void hx_caldone(Cal *p) { p->~Cal(); }",
         "void hx_wrap(void *p, Cal_BddManager m, Cal_Bdd b) { new (p) Held(m, b); }",
         "void hx_default(void *p) { new (p) BDD(); }",
         "void hx_done(BDD *p) { p->~BDD(); }",
         "void hx_scope(Cal *c, BDD *a, BDD *b) { BDD x = *a & *b; BDD y = x; { BDD z = std::move(x); y = z; x = *b; } std::vector<BDD> v(3, y); v[1] = x; v.erase(v.begin()); }"]
    for k, e in BDDS.items():
        o.append("void hb_%s(void *r, %s) { new (r) BDD(%s); }" % (k, ARGS, e))
    for k, e in INPLACE.items():
        o.append("BDD *hi_%s(%s) { return &(%s); }" % (k, ARGS, e))
    for k, e in NUMS.items():
        o.append("long hn_%s(%s) { return %s; }" % (k, ARGS, e))
    for k, e in FLOATS.items():
        o.append("double hf_%s(%s) { return %s; }" % (k, ARGS, e))
    o.append("void hs_FunctionPrint(%s, std::string *s) { a->FunctionPrint(*s); }" % ARGS)
    o.append("void hs_Cal_FunctionPrint(%s, std::string *s) { c->FunctionPrint(*a, *s); }" % ARGS)
    for w, ty in (("v", "std::vector<BDD>"), ("l", "std::list<BDD>")):
        mk = "%s v; for (int i = 0; i < n; i++) v.push_back(*l[i]);" % ty
        for form, s in (("it", "v.begin(), v.end()"), ("co", "v")):
            for k, e in LISTB.items():
                o.append("void hb_%s%s_%s(void *r, %s) { %s new (r) BDD(%s); }" % (w, form, k, LARGS, mk, e % s))
            for k, e in LISTV.items():
                o.append("long hv_%s%s_%s(BDD *r, %s) { %s std::vector<BDD> x = %s; for (unsigned i = 0; i < x.size(); i++) new (r + i) BDD(x[i]); return (long)x.size(); }"
                         % (w, form, k, LARGS, mk, e % s))
            for k, e in LISTP.items():
                o.append("long hp_%s%s_%s(long *r, %s) { %s std::vector<long> x = %s; for (unsigned i = 0; i < x.size(); i++) r[i] = x[i]; return (long)x.size(); }"
                         % (w, form, k, LARGS, mk, e % s))
            for k, e in LISTN.items():
                if "%s" not in e and form == "co":
                    continue
                o.append("long hn_%s%s_%s(%s) { %s return %s; }" % (w, form, k, LARGS, mk, e % s if "%s" in e else e))
    for k, e in INTS.items():
        o.append("long hn_ids_%s(Cal *c, int *l, int n, int k) { std::vector<int> v(l, l + n); return %s; }" % (k, e))
    for k, e in (("Profile", "a->Profile()"), ("Profile0", "a->Profile(false)"), ("FunctionProfile", "a->FunctionProfile()"),
                 ("Cal_Profile", "c->Profile(*a)"), ("Cal_Profile0", "c->Profile(*a, false)"), ("Cal_FunctionProfile", "c->FunctionProfile(*a)")):
        o.append("long hp_%s(long *r, %s) { std::vector<long> x = %s; for (unsigned i = 0; i < x.size(); i++) r[i] = x[i]; return (long)x.size(); }" % (k, ARGS, e))
    o.append("}")
    return "\n".join(o) + "\n"


def program():
    return ir.load(cxx=unit())


# ---- worlds
class Own(Ref):
    tag = "own"


class Arg(Malformed):
    tag = "arg"


OPAQUE = ("Cal_BddFunctionPrint", "Cal_BddPrintProfile", "Cal_BddPrintProfileMultiple", "Cal_BddPrintFunctionProfile", "Cal_BddPrintFunctionProfileMultiple")
OUTPUT = ("printf", "fprintf", "fflush", "fputs", "puts", "putchar", "fputc", "putc", "fwrite")


class Objects(Mgr):
    """a manager held by a Cal object, and BDD objects"""

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        m = self.ai.models
        for n in prog.mods["unit.cc"].decls:
            if re.match(r"_Zn[wa]m", n):
                m[n] = self.m_new
            elif re.match(r"_Zd[la]Pv", n):
                m[n] = self.m_delete
            elif n.startswith("llvm.is.constant"):
                m[n] = lambda ai, st, a: 0
            elif "__throw_" in n:
                m[n] = self.m_throw
            elif re.search(r"basic_stringI.*(4data|5c_str)Ev$", n):
                m[n] = lambda ai, st, a: a[0]
            elif n.endswith("_M_hookEPS0_"):
                m[n] = self.m_hook
            elif n.endswith("_M_unhookEv"):
                m[n] = self.m_unhook
        for n in OUTPUT:
            m[n] = (lambda n: lambda ai, st, a: self.m_output(n, st, a))(n)
        for n in OPAQUE:
            m[n] = (lambda n: lambda ai, st, a: self.m_printed(n, st, a))(n)
        self.said = []
        self.slots = []

    def m_output(self, n, st, a):
        self.said.append((n,) + tuple(self.text(x) for x in a))
        return 0

    def text(self, x):
        return x

    def m_printed(self, n, st, a):
        """a profile printer: what it is asked to print (its output is decided elsewhere)"""
        a = list(a)
        if "Multiple" in n:
            l = []
            while True:
                x = self.ai.read(st, a[1][1], a[1][2] + 8 * len(l), 8)
                if x == 0:
                    break
                l.append(x)
            a[1] = tuple(l)
        self.said.append((n,) + tuple(a))

    def call(self, name, *args, s=None):
        if name in OPAQUE:
            return self.m_printed(name, self.s, args)
        return super().call(name, *args, s=s)

    def m_new(self, ai, st, a):
        return ("p", self.blk(st, "cxx", a[0], ai), 0)

    def m_delete(self, ai, st, a):
        p = a[0]
        if p == 0:
            return None
        if not (isinstance(p, tuple) and p[0] == "p" and p[2] == 0 and st.objs.get(p[1], ("",))[0] == "cxx"):
            raise Leak("something that was not made by new is deleted")
        if p[1] in st.d["gone"]:
            raise Leak("something is deleted twice")
        st.d = dict(st.d)
        st.d["gone"] = st.d["gone"] + (p[1],)
        return None

    def m_throw(self, ai, st, a):
        raise Bad("an exception is thrown: " + str(a and a[-1]))

    def m_hook(self, ai, st, a):
        n, p = a[0], a[1]
        prev = ai.read(st, p[1], p[2] + 8, 8)
        st.mem[(n[1], n[2])] = (p, 8)
        st.mem[(n[1], n[2] + 8)] = (prev, 8)
        st.mem[(prev[1], prev[2])] = (n, 8)
        st.mem[(p[1], p[2] + 8)] = (n, 8)

    def m_unhook(self, ai, st, a):
        n = a[0]
        nx, pv = ai.read(st, n[1], n[2], 8), ai.read(st, n[1], n[2] + 8, 8)
        st.mem[(pv[1], pv[2])] = (nx, 8)
        st.mem[(nx[1], nx[2] + 8)] = (pv, 8)

    # ---- objects
    def room(self, n=1, what=0):
        """uninitialised storage"""
        z = i32(self.call("hx_size", what))
        o = ("arr", "obj%d" % self.s.fresh())
        self.s.objs[o] = ("storage", "", z * n)
        return ("p", o, 0), z

    def start(self):
        self.cal, z = self.room(1, 1)
        self.call("hx_cal", self.cal)
        w = [self.rd(self.cal[1], k, 8) for k in range(0, z, 8)]
        w = [x for x in w if isinstance(x, tuple) and x[0] == "p" and x[2] == 0 and x[1][0] == "h"]
        if len(w) != 1:
            raise AnalysisBroken("the Cal object does not hold one manager")
        return super().start(w[0])

    def handleof(self, p, z=16):
        """the diagram an object holds"""
        o = [self.rd(p[1], p[2] + k, 8) for k in range(0, z, 8)]
        o = [x for x in o if x != self.bm]
        if len(o) == 2 and o[0] == 0 and o[1] == 0:
            return 0
        if len(o) != 1:
            raise Arg("the object does not name the manager and one diagram: %r" % (o,))
        return o[0]

    def wrap(self, u):
        """an object that owns a reference the user holds"""
        p, z = self.room()
        self.call("hx_wrap", p, self.bm, u)
        self.slots.append(p)
        return p

    def fresh(self):
        p, z = self.room()
        self.slots.append(p)
        return p

    def drop(self, p):
        self.call("hx_done", p)
        self.slots.remove(p)

    def held(self):
        """how many objects hold each user diagram"""
        out = {}
        for p in self.slots:
            h = self.handleof(p)
            if h == 0:
                continue
            if not (isinstance(h, tuple) and h[0] == "p" and isinstance(h[2], int)):
                raise Arg("an object holds something that is no diagram: %r" % (h,))
            n = (h[1], h[2] & ~1)
            out[n] = out.get(n, 0) + 1
        for x, (u, _) in self.users.items():
            n = (u[1], u[2] & ~1)
            out[n] = out.get(n, 0) + 1
        return out

    def blocks(self):
        return {o for o, inf in self.s.objs.items() if inf[0] == "cxx" and o not in self.s.d["gone"]}

    def balance(self, v=None):
        """each holder owns one counted reference"""
        v = v or View(self)
        h = self.held()
        one = self.node(self.mf("userOneBdd"))
        for n, k in h.items():
            if n != one and n not in v.uval:
                raise Own("an object holds a diagram that is not in the table of user diagrams")
        for n, (t, r) in v.uval.items():
            if r != 255 and r != h.get(n, 0):
                raise Own("%d references are counted for a diagram that %d objects hold" % (r, h.get(n, 0)))
        if self.blocks():
            raise Leak("memory taken by new at %s is not deleted" % self.s.objs[sorted(self.blocks())[0]][1])
        reachable(self)
        return v

    def ttof(self, v, p):
        h = self.handleof(p)
        if h == 0:
            return None
        return self.ttu(v, h)

    def ttu(self, v, u):
        return v.href(self.internal(u), "the result")


# ---- what each member means
def tts(n):
    return (1 << (1 << n)) - 1


def cite(f, g, h, full):
    return f & g | (full ^ f) & h


LOGIC = {
    "Identity": lambda F, a, b, d: a, "Not": lambda F, a, b, d: F ^ a, "op_not": lambda F, a, b, d: F ^ a,
    "And": lambda F, a, b, d: a & b, "op_and": lambda F, a, b, d: a & b, "Nand": lambda F, a, b, d: F ^ (a & b),
    "Or": lambda F, a, b, d: a | b, "op_or": lambda F, a, b, d: a | b, "Nor": lambda F, a, b, d: F ^ (a | b),
    "Xor": lambda F, a, b, d: a ^ b, "op_xor": lambda F, a, b, d: a ^ b, "Xnor": lambda F, a, b, d: F ^ a ^ b,
    "Diff": lambda F, a, b, d: a & (F ^ b), "op_minus": lambda F, a, b, d: a & (F ^ b),
    "ITE": lambda F, a, b, d: cite(a, b, d, F),
    "One": lambda F, a, b, d: F, "Zero": lambda F, a, b, d: 0,
    "chain": lambda F, a, b, d: (a & (F ^ b)) | (d ^ (F ^ (a | d))),
    "copied": lambda F, a, b, d: a,
}
INLOGIC = {"and": LOGIC["And"], "or": LOGIC["Or"], "xor": LOGIC["Xor"], "minus": LOGIC["Diff"], "tmp": LOGIC["And"], "not": LOGIC["Not"],
           "copy": lambda F, a, b, d: b, "ite": LOGIC["ITE"]}
# the C operation of the same meaning: name and arguments
CREF = {
    "Identity": ("Identity", "a"), "Not": ("Not", "a"), "op_not": ("Not", "a"),
    "If": ("If", "a"), "Then": ("Then", "a"), "Else": ("Else", "a"), "Satisfy": ("Satisfy", "a"), "SatisfySupport": ("SatisfySupport", "a"),
    "Intersects": ("Intersects", "ab"), "Implies": ("Implies", "ab"), "Cofactor": ("Cofactor", "ab"), "Reduce": ("Reduce", "ab"),
    "And": ("And", "ab"), "op_and": ("And", "ab"), "Nand": ("Nand", "ab"), "Or": ("Or", "ab"), "op_or": ("Or", "ab"), "Nor": ("Nor", "ab"),
    "Xor": ("Xor", "ab"), "op_xor": ("Xor", "ab"), "Xnor": ("Xnor", "ab"), "ITE": ("ITE", "abd"),
    "Compose": ("Compose", "abd"), "SwapVars": ("SwapVars", "abd"), "Between": ("Between", "ab"), "Exists": ("Exists", "a"), "ForAll": ("ForAll", "a"),
    "RelProd": ("RelProd", "ab"), "Substitute": ("Substitute", "a"), "VarSubstitute": ("VarSubstitute", "a"),
    "VarId": ("ManagerGetVarWithId", "k"), "VarIndex": ("ManagerGetVarWithIndex", "k"),
    "One": ("One", ""), "Zero": ("Zero", ""), "Null": ("Null", ""),
}
NREF = {
    "IsOne": ("Cal_BddIsBddOne", "a"), "IsZero": ("Cal_BddIsBddZero", "a"), "IsNull": ("Cal_BddIsBddNull", "a"), "IsConst": ("Cal_BddIsBddConst", "a"),
    "IsCube": ("Cal_BddIsCube", "a"), "IsEqualTo": ("Cal_BddIsEqual", "ab"), "IsEqual": ("Cal_BddIsEqual", "ab"), "op_eq": ("Cal_BddIsEqual", "ab"), "op_ne": ("Cal_BddIsEqual", "ab"),
    "DependsOn": ("Cal_BddDependsOn", "ab"), "Id": ("Cal_BddGetIfId", "a"), "IfId": ("Cal_BddGetIfId", "a"),
    "Index": ("Cal_BddGetIfIndex", "a"), "IfIndex": ("Cal_BddGetIfIndex", "a"), "Type": ("Cal_BddType", "a"),
    "Size": ("Cal_BddSize", "a1"), "Size1": ("Cal_BddSize", "a1"), "Size0": ("Cal_BddSize", "a0"),
    "Nodes": ("Cal_BddManagerGetNumNodes", ""), "Vars": ("Cal_BddVars", ""), "Overflow": ("Cal_BddOverflow", ""), "TotalSize": ("Cal_BddTotalSize", ""),
    "NodeLimit": ("Cal_BddNodeLimit", "k"), "SetGCMode": ("Cal_BddSetGCMode", "K"), "SetGCLimit": ("Cal_BddManagerSetGCLimit", ""),
    "GC": ("Cal_BddManagerGC", ""), "Reorder": ("Cal_BddReorder", ""), "DynNone": ("Cal_BddDynamicReordering", "0d"), "DynSift": ("Cal_BddDynamicReordering", "sd"),
    "DynWindow": ("Cal_BddDynamicReordering", "wd"), "DynSiftBF": ("Cal_BddDynamicReordering", "sb"), "DynSiftDF": ("Cal_BddDynamicReordering", "sd"),
    "DynWindowBF": ("Cal_BddDynamicReordering", "wb"),
    "AssociationSetCurrent": ("Cal_AssociationSetCurrent", "k"), "AssociationQuit": ("Cal_AssociationQuit", "k"),
    "TempAssociationQuit": ("Cal_TempAssociationQuit", ""),
    "Print": ("Cal_BddPrintBdd", "a000f"), "PrintProfile": ("Cal_BddPrintProfile", "a00kf"), "PrintFunctionProfile": ("Cal_BddPrintFunctionProfile", "a00kf"),
    "Stats": ("Cal_BddStats", "f"), "SatisfyingFraction": ("Cal_BddSatisfyingFraction", "a"), "FunctionPrint": ("Cal_BddFunctionPrint", "at"),
}
VOIDC = {"SetGCMode", "SetGCLimit", "GC", "Reorder", "DynNone", "DynSift", "DynWindow", "DynSiftBF", "DynSiftDF", "DynWindowBF", "AssociationQuit",
         "TempAssociationQuit", "Print", "PrintProfile", "PrintFunctionProfile", "Stats", "FunctionPrint", "SetParameters",
         "TempAssociationInit", "TempAssociationAugment"}
FILEP = ("p", ("arr", "file"), 0)
NAMEP = ("p", ("arr", "name"), 0)


def plain(k):
    return k[4:] if k.startswith("Cal_") else k


def scalars(m):
    """the manager's own numbers"""
    out = {}
    for n, (off, z) in m.p.fields["Cal_BddManagerStruct"].items():
        v = m.rd(m.M, off, z)
        if not (isinstance(v, tuple) and v[0] in ("p", "uninit", "u")):
            out[n] = v
    return out


class Snap:
    """what a caller can see of the manager"""

    def __init__(self, m, volatile=()):
        v = m.v2 = View(m)
        self.uval = {k: x for k, x in v.uval.items()}
        self.ids = list(v.ids)
        self.assoc = dict(v.assoc)
        self.sc = {k: x for k, x in scalars(m).items() if k not in volatile}
        self.nodes = {i: len(x) for i, x in v.nodes.items()}


def diff(a, b, what):
    if a.uval != b.uval:
        d = [(a.uval.get(k), b.uval.get(k)) for k in set(a.uval) | set(b.uval) if a.uval.get(k) != b.uval.get(k)][0]
        raise Own("%s: a user diagram is %s instead of %s (function, references)" % (what, d[0], d[1]))
    if a.ids != b.ids:
        raise Arg("%s: the variable order is %s instead of %s" % (what, a.ids, b.ids))
    if a.assoc != b.assoc:
        raise Arg("%s: the variable associations differ from those the C function leaves" % what)
    for k in a.sc:
        if a.sc[k] != b.sc.get(k):
            raise Arg("%s: %s is %s instead of %s" % (what, k, a.sc[k], b.sc.get(k)))


def branch(m, f):
    """run f on a copy of the state; None when the C function does not accept its arguments"""
    keep, said = m.s, m.said
    m.s, m.said = again(keep.copy()), []
    slots = list(m.slots)
    try:
        r = f()
        return r
    except (Malformed, Stop, AnalysisBroken):
        m.ai.violations[:] = []
        return None
    finally:
        m.s, m.said, m.slots = keep, said, slots


SIFT, WINDOW, BF, DF = 1, 2, 0, 1       # the public constants of cal.h


def cargs(how, hs, k):
    if how in ("sb", "sd", "wb", "wd", "0d"):
        return [{"0": 0, "s": SIFT, "w": WINDOW, "b": BF, "d": DF}[c] for c in how]
    v = {"a": hs[0], "b": hs[1], "d": hs[2], "k": k, "f": FILEP, "t": NAMEP, "K": 1 if k else 0, "0": 0, "1": 1}
    return [v[c] for c in how]


FUNS = [A & B | C & D, A ^ B ^ C ^ D, (A | B) & no(C), C ^ D, B & no(D), no(A) | C & D, A & no(C), B | D, A, no(C), D, A & B & no(D), 0xFFFF, 0]


def cast(m, d, bare=False):
    """some objects to work on"""
    n = 2 + d.roll(3)
    fs = [d.pick(FUNS) if d.roll(3) else d.roll(1 << 16) for _ in range(n)]
    populate(m, Spec(users=[f for f in fs]))
    out = []
    for i in range(n):
        out.append(m.wrap(m.users.pop("f%d" % i)[0]))
    for i in range(d.roll(2)):
        p = m.fresh()
        if bare:
            m.call("hx_default", p)
        else:
            m.call("hb_Null", p, m.cal, 0, 0, 0, 0, 0)
        out.append(p)
    if d.roll(2) == 0:
        sets = d.roll(2)
        l = [m.users["v1"][0], m.users["v3"][0]] if sets else [m.users["v2"][0], m.handleof(out[0]), m.users["v4"][0], m.handleof(out[1])]
        if d.roll(2):
            m.call("Cal_TempAssociationInit", m.bm, m.userarray(l), int(not sets))
            m.call("Cal_AssociationSetCurrent", m.bm, 0xFFFFFFFF)
        else:
            m.call("Cal_AssociationInit", m.bm, m.userarray(l), int(not sets))
            m.call("Cal_AssociationSetCurrent", m.bm, 0)
    quiet_thresholds(m)
    return out


def pick3(m, d, objs):
    """operands; the same object may come twice; variables for the operations that want them"""
    l = [d.pick(objs) for _ in range(3)]
    return l


def values(m, v, l):
    return [m.ttof(v, x) for x in l]


def check_result(m, v, k, p, want, hs0, vals, F_):
    h = m.handleof(p)
    if want is not None and want[0] == "tt":
        if h == 0:
            raise Arg("%s gives no diagram" % k)
        t = m.ttu(v, h)
        if t != want[1]:
            raise Val("%s gives another function: %x instead of %x" % (k, t, want[1]))
    elif want is not None:
        if (h == 0) != (want[1] is None):
            raise Arg("%s gives %s where the C function gives %s" % (k, "no diagram" if h == 0 else "a diagram", "none" if want[1] is None else "one"))
        if h != 0 and m.ttu(v, h) != want[1]:
            raise Val("%s gives another function than the C function: %x instead of %x" % (k, m.ttu(v, h), want[1]))


def expected(m, k, hs, vals, num):
    """the function a member must give"""
    full = tts(m.v.n)
    p = plain(k)
    need = {"chain": "abd"}.get(p) or CREF.get(p, ("", "a"))[1]
    if p in ("Diff", "op_minus"):
        need = "ab"
    if p in LOGIC and all(vals["abd".index(c)] is not None for c in need if c in "abd"):
        return ("tt", LOGIC[p](full, *[x or 0 for x in vals]))
    if p == "Regular":
        return ("tt", vals[0] if not hs[0][2] & 1 else full ^ vals[0]) if hs[0] else None
    if p == "moved":
        return ("c", vals[0])
    if p == "copied":
        return ("c", None)
    if p in ("Diff", "op_minus", "chain"):
        return None
    if p not in CREF:
        return None
    name, how = CREF[p]

    def f():
        u = m.call("Cal_Bdd" + name, m.bm, *cargs(how, hs, num))
        if u == 0:
            return ("c", None)
        return ("c", m.ttu(View(m), u))
    return branch(m, f)


def play(ctx, F_, rule, where, f, **kw):
    return story(ctx, F_, rule, where, f, cls=Objects, **kw)


def same(m, objs, before, but=()):
    """objects that were only read hold what they held"""
    for x in objs:
        if x not in but and m.handleof(x) != before[x]:
            raise Own("an operand holds another diagram afterwards")


def members(ctx, F_, n=24, seed0=1, rule="members"):
    """operations returning a diagram"""
    for k in range(n):
        if not ctx.mine():
            continue

        def f(m):
            d = Dice(seed0 + k)
            objs = cast(m, d)
            m.v = m.balance()
            names = list(BDDS)
            for i in range(len(names)):
                name = names.pop(d.roll(len(names)))
                l = pick3(m, d, objs)
                if name in ("First", "Last", "Before", "After"):
                    continue
                p = plain(name)
                if p in ("Compose", "SwapVars", "Before", "After") or (p == "ITE" and d.roll(2)):
                    w = [m.wrap(m.call("Cal_BddManagerGetVarWithId", m.bm, 1 + d.roll(4))) for _ in range(2)]
                    l[1] = w[0]
                    if p == "SwapVars":
                        l[2] = w[1]
                else:
                    w = []
                if step(ctx, m, d, name, l, objs + w, d.pick((0, 1, 2, 3, 4, 5))):
                    ctx.ob(rule + ":" + name)
                for x in w:
                    m.drop(x)
            for x in list(m.slots):
                m.drop(x)
            m.balance()
            reachable(m)
        play(ctx, F_, rule, "operations on objects %d" % (seed0 + k), f, addr=k & 1)


def step(ctx, m, d, name, l, objs, num):
    m.warnok = True
    hs = [m.handleof(x) for x in l]
    m.v = View(m)
    vals = values(m, m.v, l)
    want = expected(m, name, hs, vals, num)
    if want is None:
        return False
    before = {x: m.handleof(x) for x in objs}
    r = m.fresh()
    m.slots.remove(r)
    m.call("hb_" + name, r, m.cal, *l, num, 0)
    m.slots.append(r)
    v = m.balance()
    same(m, objs, before, (l[0],) if name == "moved" else ())
    check_result(m, v, name, r, want, hs, vals, None)
    if name == "moved" and m.handleof(l[0]) != 0:
        raise Own("an object still holds the diagram that was moved out of it")
    m.drop(r)
    m.balance()
    return True


def inplace(ctx, F_, n=24, seed0=1, rule="assignments"):
    """construction, assignment and destruction in any order"""
    for k in range(n):
        if not ctx.mine():
            continue

        def f(m):
            d = Dice(seed0 + k)
            objs = cast(m, d, True)
            m.warnok = True
            for i in range(30):
                m.v = m.balance()
                what = d.roll(14)
                if what == 0 and len(objs) < 6:
                    p = m.fresh()
                    m.call("hx_default", p)
                    if m.handleof(p) != 0:
                        raise Own("a default object holds a diagram")
                    objs.append(p)
                elif what in (1, 2) and len(objs) < 6:
                    src = d.pick(objs)
                    h = m.handleof(src)
                    p = m.fresh()
                    m.slots.remove(p)
                    m.call("hb_" + ("copied", "moved")[what - 1], p, m.cal, src, 0, 0, 0, 0)
                    m.slots.append(p)
                    objs.append(p)
                    if m.handleof(p) != h or m.handleof(src) != (h if what == 1 else 0):
                        raise Own("a %s object holds another diagram" % ("copied", "moved")[what - 1])
                elif what == 3 and len(objs) > 2:
                    p = d.pick(objs)
                    objs.remove(p)
                    m.drop(p)
                elif what == 4:
                    m.call("Cal_BddManagerGC", m.bm)
                elif what == 5:
                    a, b = d.pick(objs), d.pick(objs)
                    if m.handleof(a) and m.handleof(b):
                        before = {x: m.handleof(x) for x in objs}
                        m.call("hx_scope", m.cal, a, b)
                        same(m, objs, before)
                else:
                    name = d.pick(INPLACE)
                    l = pick3(m, d, objs)
                    hs = [m.handleof(x) for x in l]
                    before = {x: m.handleof(x) for x in objs}
                    v = View(m)
                    vals = [m.ttof(v, x) for x in l]
                    full = tts(v.n)
                    if name in ("and", "or", "xor", "minus", "tmp") and 0 in hs[:2] or name == "not" and hs[0] == 0 or name == "ite" and 0 in hs:
                        continue
                    r = m.call("hi_" + name, m.cal, *l, 0, 0)
                    if r != l[0]:
                        raise Own("assignment %s returns another object" % name)
                    v = m.balance()
                    got = m.ttof(v, l[0])
                    self_ = l[0] == l[1]
                    if name == "move":
                        if self_:
                            if got not in (None, vals[0]):
                                raise Own("an object assigned to itself holds another function")
                        elif m.handleof(l[0]) != hs[1] or m.handleof(l[1]) != 0:
                            raise Own("a move does not hand the diagram over")
                        same(m, objs, before, l[:2])
                    else:
                        if name == "null":
                            want = None
                        elif name == "copy":
                            want = vals[1]
                        else:
                            want = INLOGIC[name](full, *[x or 0 for x in vals])
                        if got != want:
                            raise Val("assignment %s leaves another function: %s instead of %s" % (name, got, want))
                        same(m, objs, before, l[:1])
                ctx.ob(rule)
            for x in list(m.slots):
                m.drop(x)
            m.balance()
            m.call("hx_caldone", m.cal)
            over(m)
        play(ctx, F_, rule, "life of objects %d" % (seed0 + k), f, addr=k & 1)


def over(m):
    for o, inf in m.s.objs.items():
        if inf[0] in ("alloc", "cxx") and o not in m.s.d["gone"]:
            raise Leak("memory allocated at %s is not released when the Cal object is destroyed" % inf[1])


def numbers(ctx, F_, n=24, seed0=1, rule="delegation"):
    """members that answer with a number, change the manager or print"""
    for k in range(n):
        if not ctx.mine():
            continue

        def f(m):
            d = Dice(seed0 + k)
            objs = cast(m, d)
            m.warnok = True
            names = list(NUMS) + list(FLOATS) + ["FunctionPrint", "Cal_FunctionPrint", "Profile", "Profile0", "FunctionProfile", "Cal_Profile", "Cal_Profile0", "Cal_FunctionProfile"]
            for i in range(len(names)):
                name = names.pop(d.roll(len(names)))
                l = pick3(m, d, objs)
                m.balance()
                if plain(name) == "DependsOn":
                    l[1] = m.wrap(m.call("Cal_BddManagerGetVarWithId", m.bm, 1 + d.roll(4)))
                ok = delegate(ctx, m, d, name, l, objs, d.pick((0, 1, 2, 3, 40, 79)))
                if plain(name) == "DependsOn":
                    m.drop(l[1])
                m.balance()
                if ok:
                    ctx.ob(rule + ":" + name)
            for x in list(m.slots):
                m.drop(x)
            m.balance()
        play(ctx, F_, rule, "members of Cal and BDD %d" % (seed0 + k), f, addr=k & 1)


def delegate(ctx, m, d, name, l, objs, num):
    p = plain(name)
    hs = [m.handleof(x) for x in l]
    if p == "RefCount":
        got = i32(m.call("hn_RefCount", m.cal, *l, num, FILEP))
        v = View(m)
        n = (hs[0][1], hs[0][2] & ~1) if hs[0] else None
        if n and got != (v.uval[n][1] if n in v.uval else 255):
            raise Arg("RefCount gives %s" % got)
        return 1
    if p == "SetParameters":
        cname, how = "Cal_BddManagerSetParameters", None
        args = [num, num + 1, ("f", 0.25), ("f", 0.75)]
    elif p in ("Profile", "Profile0", "FunctionProfile"):
        return profile(m, name, "Cal_BddFunctionProfile" if p[0] == "F" else "Cal_BddProfile", [hs[0]], [] if p[0] == "F" else [int(p == "Profile")], [m.cal] + l + [num, FILEP])
    else:
        cname, how = NREF[p]
        args = cargs(how, hs, num)

    def ref():
        r = m.call(cname, m.bm, *args)
        return r, m.said, Snap(m)
    want = branch(m, ref)
    if want is None:
        return 0
    before = {x: m.handleof(x) for x in objs}
    m.said = []
    if name in FLOATS:
        got = m.call("hf_" + name, m.cal, *l, num, FILEP)
    elif p == "FunctionPrint":
        got = m.call("hs_" + name, m.cal, *l, num, FILEP, NAMEP)
    else:
        got = m.call("hn_" + name, m.cal, *l, num, FILEP)
    result(m, name, p, got, want)
    same(m, objs, before)
    return 1


def result(m, name, p, got, want):
    r, said, snap = want
    if p not in VOIDC:
        if name == "op_ne":
            r = 1 - i32(r)
        if isinstance(r, int) and isinstance(got, int):
            bad = (got & 0xFFFFFFFF) != (r & 0xFFFFFFFF)
            if p[:2] == "Is" or p in ("op_eq", "op_ne", "DependsOn", "Overflow"):
                bad = bool(got & 0xFF) != bool(r)
        else:
            bad = got != r
        if bad:
            raise Arg("%s gives %s where the C function gives %s" % (name, got, r))
    if m.said != said:
        i = [j for j in range(max(len(said), len(m.said))) if m.said[j:j + 1] != said[j:j + 1]][0]
        raise Arg("%s prints %s where the C function prints %s" % (name, m.said[i:i + 1], said[i:i + 1]))
    diff(Snap(m), snap, name)


def profile(m, name, cname, hs, extra, args, lst=False):
    n = i32(m.mf("numVars")) + 1

    def ref():
        o = ("arr", "counts")
        for i in range(n):
            m.put(o, 8 * i, 0, 8)
        m.call(cname, m.bm, *hs, ("p", o, 0), *extra)
        return [m.rd(o, 8 * i, 8) for i in range(n)], Snap(m)
    want = branch(m, ref)
    if want is None:
        return 0
    o = ("arr", "counts%d" % m.s.fresh())
    got = m.call("hp_" + name, ("p", o, 0), *args)
    if i32(got) != n:
        raise Arg("%s returns %s counts for %d variables and the constant" % (name, got, n - 1))
    l = [m.rd(o, 8 * i, 8) for i in range(n)]
    if l != want[0]:
        raise Arg("%s gives %s where the C function gives %s" % (name, l, want[0]))
    diff(Snap(m), want[1], name)
    return 1


LREF = {"And": "Cal_BddMultiwayAnd", "Or": "Cal_BddMultiwayOr", "Xor": "Cal_BddMultiwayXor",
        "PairwiseAnd": "Cal_BddPairwiseAnd", "PairwiseOr": "Cal_BddPairwiseOr", "PairwiseXor": "Cal_BddPairwiseXor",
        "Size": ("Cal_BddSizeMultiple", "1"), "Size0": ("Cal_BddSizeMultiple", "0"),
        "PrintProfile": ("Cal_BddPrintProfileMultiple", "00kf"), "PrintFunctionProfile": ("Cal_BddPrintFunctionProfileMultiple", "00kf"),
        "AssociationInit": ("Cal_AssociationInit", "K"), "AssociationInitSets": ("Cal_AssociationInit", "0"),
        "TempAssociationInit": ("Cal_TempAssociationInit", "K"), "TempAssociationInitSets": ("Cal_TempAssociationInit", "0"),
        "TempAssociationAugment": ("Cal_TempAssociationAugment", "K"), "TempAssociationAugmentSets": ("Cal_TempAssociationAugment", "0"),
        "Profile": ("Cal_BddProfileMultiple", "1"), "Profile0": ("Cal_BddProfileMultiple", "0"), "FunctionProfile": ("Cal_BddFunctionProfileMultiple", "")}
BIT = {"And": lambda a, b: a & b, "Or": lambda a, b: a | b, "Xor": lambda a, b: a ^ b}


def lists(ctx, F_, n=24, seed0=1, rule="lists"):
    """members taking lists"""
    jobs = [(w, form, k) for w in "vl" for form in ("it", "co") for k in list(LISTB) + list(LISTV) + list(LISTN) + list(LISTP)]
    jobs = [(w, f, k) for w, f, k in jobs if not (f == "co" and k in LISTN and "%s" not in LISTN[k])] + [("ids", "", k) for k in INTS]
    for k in range(n):
        if not ctx.mine():
            continue

        def f(m):
            d = Dice(seed0 + k)
            objs = cast(m, d)
            m.warnok = True
            todo = list(jobs)
            for i in range(len(jobs) if ctx.thorough else 24):
                w, form, name = todo.pop(d.roll(len(todo)))
                if onlist(ctx, m, d, w, form, name, objs):
                    ctx.ob("%s:%s" % (rule, name))
            m.call("Cal_TempAssociationQuit", m.bm)
            for x in list(m.slots):
                m.drop(x)
            m.balance()
            m.call("hx_caldone", m.cal)
            over(m)
        play(ctx, F_, rule, "lists of objects %d" % (seed0 + k), f, addr=k & 1)


def onlist(ctx, m, d, w, form, name, objs):
    extra = []
    ids = w == "ids"
    num = d.pick((0, 1, 3))
    if "ssociation" in name:
        pairs = num and not name.endswith("Sets")
        vs = [1 + d.roll(4) for _ in range(d.roll(3))]
        if ids:
            l = vs + ([1 + d.roll(4) for _ in vs] if pairs else [])
        else:
            l = []
            for v in dict.fromkeys(vs):
                x = m.wrap(m.call("Cal_BddManagerGetVarWithId", m.bm, v))
                extra.append(x)
                l.append(x)
                if pairs:
                    l.append(d.pick([y for y in objs if m.handleof(y)]))
    else:
        l = [d.pick(objs) for _ in range(d.roll(5))]
        if form == "it" and d.roll(4) or name.startswith("Pairwise"):
            l = [x for x in l if m.handleof(x)]
    v = m.balance()
    hs = [m.handleof(x) for x in l] if not ids else None
    r = LREF[name]
    cname, how = (r, "") if isinstance(r, str) else r
    args = cargs(how, (0, 0, 0), num)
    before = {x: m.handleof(x) for x in objs}

    def arr():
        us = hs if not ids else [m.call("Cal_BddManagerGetVarWithId", m.bm, i) for i in l]
        return m.userarray(us), us

    def ref():
        p, us = arr()
        r = m.call(cname, m.bm, p, *args)
        out = None
        if name in LISTB or name in LISTV:
            v = View(m)
            if name in LISTB:
                out = None if r == 0 else m.ttu(v, r)
            elif r == 0:
                out = []
            else:
                out = []
                stop = hs.index(0) if 0 in hs else len(hs)
                for i in range(stop // 2):
                    out.append(m.ttu(v, m.arr(r, i, 8)))
            return out, None, None
        if ids:
            for u in us:
                m.call("Cal_BddFree", m.bm, u)
        return r, m.said, Snap(m)
    if name in LISTP:
        p, _ = arr()
        ok = profile(m, w + form + "_" + name, cname, [p], args, list(largs(m, l, num)))
        return ok
    want = branch(m, ref)
    ok = want is not None
    if ok:
        m.said = []
        if name in LISTB:
            full = tts(v.n)
            op = {"And": full, "Or": 0, "Xor": 0}[name]
            if 0 not in hs and hs:
                for x in hs:
                    op = BIT[name](op, m.ttu(v, x))
                want = (op,)
            p = m.fresh()
            m.slots.remove(p)
            m.call("hb_%s%s_%s" % (w, form, name), p, *largs(m, l, num))
            m.slots.append(p)
            v = m.balance()
            t = m.ttof(v, p)
            if t != want[0]:
                raise Val("%s of %d operands gives another function: %s instead of %s" % (name, len(l), t, want[0]))
            m.drop(p)
        elif name in LISTV:
            if 0 not in hs and len(hs) % 2 == 0:
                f = BIT[name[8:]]
                want = ([f(m.ttu(v, a), m.ttu(v, b)) for a, b in zip(hs[::2], hs[1::2])],)
            p, z = m.room(4)
            k = i32(m.call("hv_%s%s_%s" % (w, form, name), p, *largs(m, l, num)))
            made = [("p", p[1], p[2] + z * i) for i in range(k)]
            m.slots += made
            v = m.balance()
            got = [m.ttof(v, x) for x in made]
            if got != want[0]:
                raise Val("%s of %d operands gives other functions: %s instead of %s" % (name, len(l), got, want[0]))
            for x in made:
                m.drop(x)
        else:
            if ids:
                o = ("arr", "ints%d" % m.s.fresh())
                for i, x in enumerate(l):
                    m.put(o, 4 * i, x, 4)
                got = m.call("hn_ids_" + name, m.cal, ("p", o, 0), len(l), num)
            else:
                got = m.call("hn_%s%s_%s" % (w, form, name), *largs(m, l, num))
            p = name[:-4] if name.endswith("Sets") else name
            result(m, name, p, got, want)
        m.balance()
        same(m, objs, before)
    for x in extra:
        m.drop(x)
    return ok


def largs(m, l, num):
    o = ("arr", "ptrs%d" % m.s.fresh())
    for i, x in enumerate(l):
        m.put(o, 8 * i, x, 8)
    return m.cal, ("p", o, 0), len(l), num, FILEP


def managers(ctx, F_, n=8, rule="Cal objects"):
    """construction, variables, handing over and destruction of Cal objects"""
    for k in range(n):
        if not ctx.mine():
            continue

        def f(m):
            d = Dice(k + 1)
            order = []
            held = {}
            for i in range(1 + d.roll(5)):
                how = d.pick(("First", "Last", "Before", "After")) if order else d.pick(("First", "Last"))
                at = d.roll(len(order)) if order else 0
                a = held[order[at]] if order else 0
                r = m.fresh()
                m.slots.remove(r)
                m.call("hb_" + how, r, m.cal, a, 0, 0, 0, 0)
                m.slots.append(r)
                id = i + 1
                held[id] = r
                order.insert({"First": 0, "Last": len(order), "Before": at, "After": at + 1}[how], id)
                m.vars[id] = m.handleof(r)
                m.shrink(m.table(id))
                v = m.balance()
                if v.n != id or v.ids != order:
                    raise Arg("CreateNewVar%s leaves the order %s instead of %s" % (how, v.ids, order))
                h = m.internal(m.handleof(r))
                if h != m.var(id):
                    raise Arg("CreateNewVar%s does not give the new variable" % how)
                ctx.ob(rule + ":variables")
            for x in list(m.slots):
                m.drop(x)
            # handing over
            p, z = m.room(1, 1)
            m.call("hx_calmove", p, m.cal)
            gone = len(m.s.d["gone"])
            m.call("hx_caldone", m.cal)
            if len(m.s.d["gone"]) != gone:
                raise Leak("destroying a Cal object that was moved from releases the manager")
            m.balance()
            if i32(m.call("hn_Vars", p, 0, 0, 0, 0, 0)) != len(order):
                raise Arg("the Cal object moved to has %d variables" % len(order))
            m.call("hx_caldone", p)
            over(m)
            ctx.ob(rule + ":handing over")
            # a manager with variables
            q, z = m.room(1, 1)
            m.call("hx_calvars", q, k)
            if i32(m.call("hn_Vars", q, 0, 0, 0, 0, 0)) != k:
                raise Arg("Cal(%d) has another number of variables" % k)
            m.call("hx_caldone", q)
            over(m)
            ctx.ob(rule + ":construction")
        play(ctx, F_, rule, "Cal objects %d" % k, f, addr=k & 1)
